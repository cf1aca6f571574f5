// C32: assertion, utility and math-compatibility helpers do what they name.
#include <amtl/am-utility.h>
#include "vm.h"

#include <amtl/am-assert.h>
#include <amtl/am-cxx.h>
#include <amtl/am-linking.h>
#include <amtl/am-platform.h>
#include <dlfcn.h>
#include <link.h>
#include <math.h>

extern "C" {
double __pow_finite(double x, double y);
double __atan2_finite(double x, double y);
double __log_finite(double x);
double __acos_finite(double x);
double __asin_finite(double x);
float __powf_finite(float x, float y);
float __atan2f_finite(float x, float y);
float __logf_finite(float x);
float __acosf_finite(float x);
float __asinf_finite(float x);
}

// --- KE_RELEASE_ASSERT -----------------------------------------------------------------------
static volatile int g_evaluations;
template <typename T>
static T evaluate(T v) {
    g_evaluations = g_evaluations + 1;
    return v;
}
struct Boolish {  // only explicitly convertible
    bool v;
    explicit operator bool() const { return v; }
};
template <typename T>
static void assertion(vm::Case& c, const char* what, T v, bool holds) {
    if (holds) {
        g_evaluations = 0;
        KE_RELEASE_ASSERT(evaluate(v));
        VM_CHECK(c, g_evaluations == 1, "evaluations", "KE_RELEASE_ASSERT evaluates its condition (%s) %d times", what, g_evaluations);
        // As a statement in an if without braces, and with operators around the condition.
        g_evaluations = 0;
        if (c.rng.next() == 0)
            KE_RELEASE_ASSERT(evaluate(false));
        else
            KE_RELEASE_ASSERT(evaluate(true));
        KE_RELEASE_ASSERT(evaluate(0) || evaluate(1));
        KE_RELEASE_ASSERT(evaluate(1) != 2);
        KE_RELEASE_ASSERT(!evaluate(0));
        KE_RELEASE_ASSERT(evaluate(1) ? evaluate(1) : evaluate(0));
        VM_CHECK(c, g_evaluations == 7, "evaluations", "KE_RELEASE_ASSERT evaluates its conditions %d times in all, expected 7", g_evaluations);
        VM_COUNT("held_assertions", 1);
    } else {
        // The counts are reported through a pipe: the process does not survive.
        int fds[2];
        if (pipe(fds))
            vm::fail("setup", "no pipe");
        int st = vm::in_child([&] {
            struct {
                int fd;
                T v;
                bool operator()() const {
                    char ch = 'x';
                    if (write(fd, &ch, 1) != 1)
                        _exit(9);
                    return static_cast<bool>(v);
                }
            } cond = {fds[1], v};
            KE_RELEASE_ASSERT(cond());
            char ch = 'y';
            if (write(fds[1], &ch, 1) != 1)
                _exit(9);
            _exit(0);
        });
        close(fds[1]);
        char buf[8];
        ssize_t n = read(fds[0], buf, sizeof(buf));
        close(fds[0]);
        VM_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "abort", "a false KE_RELEASE_ASSERT (%s) ends with status %x, not by abort()", what, st);
        VM_CHECK(c, n == 1 && buf[0] == 'x', "evaluations", "a false KE_RELEASE_ASSERT (%s) evaluates its condition %zd times", what, n);
        VM_COUNT("failed_assertions", 1);
    }
}
SCENARIO(assertions, 40, 200, 0) {
    uint64_t bit = 1ull << (c.index % 64);
    assertion(c, "bool", true, true);
    assertion(c, "uint64_t", bit, true);  // not cut to an int
    assertion(c, "int64_t", (int64_t)bit, true);
    assertion(c, "pointer", &bit, true);
    assertion(c, "double", ldexp(1.0, -(int)(c.index * 5)), true);
    assertion(c, "explicit bool", Boolish{true}, true);
    switch (c.index % 5) {
        case 0: assertion(c, "bool", false, false); break;
        case 1: assertion(c, "uint64_t", (uint64_t)0, false); break;
        case 2: assertion(c, "pointer", (int*)nullptr, false); break;
        case 3: assertion(c, "double", -0.0, false); break;
        default: assertion(c, "explicit bool", Boolish{false}, false); break;
    }
    c.sig(c.index);
    c.nontrivial();
}

// --- utility ---------------------------------------------------------------------------------
template <size_t N>
struct Bytes {
    unsigned char b[N];
};
struct Padded {
    char a;
    double b;
    short c;
};
template <typename T>
static void zero(vm::Case& c, const char* what) {
    struct {
        unsigned char before[40];
        alignas(T) unsigned char mem[sizeof(T)];
        unsigned char after[40];
    } s;
    memset(&s, 0xa7, sizeof(s));
    ke::MemsetZero(reinterpret_cast<T*>(s.mem));
    for (unsigned char x : s.mem)
        VM_CHECK(c, x == 0, "memset-zero", "MemsetZero leaves bytes of a %s", what);
    for (size_t i = 0; i < 40; i++)
        VM_CHECK(c, s.before[i] == 0xa7 && s.after[i] == 0xa7, "memset-zero", "MemsetZero writes outside a %s", what);
    T* heap = (T*)malloc(sizeof(T));  // ASan sees the ends
    memset((void*)heap, 1, sizeof(T));
    ke::MemsetZero(heap);
    for (size_t i = 0; i < sizeof(T); i++)
        VM_CHECK(c, ((unsigned char*)heap)[i] == 0, "memset-zero", "MemsetZero leaves bytes of a %s", what);
    free(heap);
    VM_COUNT("zeroed", 1);
}
SCENARIO(zeroes, 1, 1, 0) {
    zero<char>(c, "char");
    zero<int>(c, "int");
    zero<void*>(c, "pointer");
    zero<long double>(c, "long double");
    zero<Padded>(c, "padded struct");
    zero<Bytes<1>>(c, "1 byte");
    zero<Bytes<3>>(c, "3 bytes");
    zero<Bytes<7>>(c, "7 bytes");
    zero<Bytes<8>>(c, "8 bytes");
    zero<Bytes<9>>(c, "9 bytes");
    zero<Bytes<17>>(c, "17 bytes");
    zero<Bytes<64>>(c, "64 bytes");
    zero<Bytes<255>>(c, "255 bytes");
    zero<Bytes<256>>(c, "256 bytes");
    zero<Bytes<257>>(c, "257 bytes");
    zero<Bytes<4096>>(c, "4096 bytes");
    zero<Bytes<65537>>(c, "65537 bytes");
    zero<int[5]>(c, "array");
    c.sig(1);
    c.nontrivial();
}
template <typename T, size_t N>
static void array_length(vm::Case& c) {
    static T a[N];
    static T b[N][3];
    struct { T m[N]; } s, *p = &s;
    VM_CHECK(c, ARRAY_LENGTH(a) == N, "array-length", "ARRAY_LENGTH gives %zu for %zu elements", (size_t)ARRAY_LENGTH(a), N);
    VM_CHECK(c, ARRAY_LENGTH(b) == N && ARRAY_LENGTH(b[0]) == 3, "array-length", "ARRAY_LENGTH is wrong for an array of arrays");
    VM_CHECK(c, ARRAY_LENGTH(s.m) == N && ARRAY_LENGTH(p->m) == N, "array-length", "ARRAY_LENGTH is wrong for a member");
    VM_CHECK(c, ARRAY_LENGTH(a) + 1 == N + 1 && 2 * ARRAY_LENGTH(a) == 2 * N && 100 * N / ARRAY_LENGTH(a) == 100, "array-length", "ARRAY_LENGTH is wrong inside an expression");
    VM_COUNT("array_lengths", 1);
}
SCENARIO(arrays, 1, 1, 0) {
    array_length<char, 1>(c);
    array_length<char, 300>(c);
    array_length<int, 7>(c);
    array_length<Bytes<3>, 5>(c);
    array_length<Padded, 2>(c);
    array_length<void*, 11>(c);
    array_length<long double, 1000>(c);
    VM_CHECK(c, ARRAY_LENGTH("abc") == 4, "array-length", "ARRAY_LENGTH is wrong for a string literal");
    c.sig(1);
    c.nontrivial();
}
SCENARIO(alignment, 300, 10000, 0) {
    for (int i = 0; i < 300; i++) {
        uintptr_t a = (uintptr_t)c.rng.wide();
        unsigned bits = (unsigned)c.rng.below(64);
        if (c.rng.coin())
            a = a >> bits << bits;
        uintptr_t al = (uintptr_t)1 << bits;
        bool want = a % al == 0;
        VM_CHECK(c, (bool)(IS_ALIGNED(a, al)) == want, "is-aligned", "IS_ALIGNED(%#zx, %#zx) is wrong", (size_t)a, (size_t)al);
        VM_CHECK(c, (bool)(IS_ALIGNED((char*)a, al)) == want, "is-aligned", "IS_ALIGNED(%#zx, %#zx) is wrong for a pointer", (size_t)a, (size_t)al);
        if (bits < 31)
            VM_CHECK(c, (bool)(IS_ALIGNED(a, 1 << bits)) == want, "is-aligned", "IS_ALIGNED(%#zx, 1 << %u) is wrong", (size_t)a, bits);
        if (bits < 32) {
            uint32_t narrow = (uint32_t)al;
            VM_CHECK(c, (bool)(IS_ALIGNED(a, (size_t)narrow)) == want, "is-aligned", "IS_ALIGNED(%#zx, %#x) is wrong", (size_t)a, narrow);
        }
        VM_CHECK(c, !IS_ALIGNED(a, al) == !want, "is-aligned", "!IS_ALIGNED(%#zx, %#zx) is wrong", (size_t)a, (size_t)al);
        c.sig(a ^ bits);
        VM_COUNT("alignments", 1);
        // KE_CRITICAL_LIKELY has the truth of its operand.
        uint64_t v = c.rng.chance(1, 4) ? 0 : 1ull << bits;
        g_evaluations = 0;
        bool taken = false;
        if (KE_CRITICAL_LIKELY(evaluate(v)))
            taken = true;
        VM_CHECK(c, taken == (v != 0), "likely", "KE_CRITICAL_LIKELY(%#zx) is %d", (size_t)v, taken);
        VM_CHECK(c, g_evaluations == 1, "likely", "KE_CRITICAL_LIKELY evaluates its operand %d times", g_evaluations);
        VM_CHECK(c, !KE_CRITICAL_LIKELY(v) == !v && (KE_CRITICAL_LIKELY(v == 0 || v == 1) ? true : false) == (v == 0 || v == 1), "likely", "KE_CRITICAL_LIKELY(%#zx) is wrong in an expression", (size_t)v);
        VM_CHECK(c, (bool)KE_CRITICAL_LIKELY((double)v) == (v != 0) && (bool)KE_CRITICAL_LIKELY(v ? &v : nullptr) == (v != 0), "likely", "KE_CRITICAL_LIKELY is wrong for a double or pointer");
        // cast_to_pointer
        VM_CHECK(c, (uintptr_t)ke::cast_to_pointer<uintptr_t>::cast(a) == a, "cast", "cast_to_pointer loses bits of %#zx", (size_t)a);
        VM_CHECK(c, (intptr_t)ke::cast_to_pointer<intptr_t>::cast(-(intptr_t)(a >> 1)) == -(intptr_t)(a >> 1), "cast", "cast_to_pointer loses bits of a negative number");
        VM_CHECK(c, (int)(intptr_t)ke::cast_to_pointer<int>::cast((int)a) == (int)a, "cast", "cast_to_pointer loses bits of an int");
        VM_CHECK(c, (unsigned)(uintptr_t)ke::cast_to_pointer<unsigned>::cast((unsigned)a) == (unsigned)a && (uintptr_t)ke::cast_to_pointer<unsigned>::cast((unsigned)a) == (unsigned)a, "cast", "cast_to_pointer changes an unsigned");
        VM_CHECK(c, (signed char)(intptr_t)ke::cast_to_pointer<signed char>::cast((signed char)a) == (signed char)a, "cast", "cast_to_pointer changes a char");
        VM_CHECK(c, (bool)(uintptr_t)ke::cast_to_pointer<bool>::cast(v != 0) == (v != 0), "cast", "cast_to_pointer changes a bool");
        int* p = (int*)(a & ~(uintptr_t)3);
        VM_CHECK(c, ke::cast_to_pointer<int*>::cast(p) == (void*)p, "cast", "cast_to_pointer changes a pointer");
        const int* cp = p;
        VM_CHECK(c, ke::cast_to_pointer<int*>::cast(cp) == (const void*)cp, "cast", "cast_to_pointer changes a pointer to const");
        VM_COUNT("casts", 1);
    }
    c.nontrivial();
}

// --- math compatibility ----------------------------------------------------------------------
template <typename F, typename U>
static U bits_of(F f) {
    U u;
    static_assert(sizeof(u) == sizeof(f), "");
    memcpy(&u, &f, sizeof(u));
    return u;
}
#define SAME_D(expr, ref, ...) VM_CHECK(c, (bits_of<double, uint64_t>(expr)) == (bits_of<double, uint64_t>(ref)), "math", __VA_ARGS__)
#define SAME_F(expr, ref, ...) VM_CHECK(c, (bits_of<float, uint32_t>(expr)) == (bits_of<float, uint32_t>(ref)), "math", __VA_ARGS__)
// Called through volatile pointers, so that no compiler knows what they compute.
static double (*volatile r_pow)(double, double) = pow;
static double (*volatile r_atan2)(double, double) = atan2;
static double (*volatile r_log)(double) = log;
static double (*volatile r_acos)(double) = acos;
static double (*volatile r_asin)(double) = asin;
static float (*volatile r_powf)(float, float) = powf;
static float (*volatile r_atan2f)(float, float) = atan2f;
static float (*volatile r_logf)(float) = logf;
static float (*volatile r_acosf)(float) = acosf;
static float (*volatile r_asinf)(float) = asinf;
static void math(vm::Case& c, double x, double y) {
    SAME_D(__pow_finite(x, y), r_pow(x, y), "__pow_finite(%a, %a) is %a", x, y, __pow_finite(x, y));
    SAME_D(__atan2_finite(x, y), r_atan2(x, y), "__atan2_finite(%a, %a) is %a", x, y, __atan2_finite(x, y));
    SAME_D(__log_finite(x), r_log(x), "__log_finite(%a) is %a", x, __log_finite(x));
    SAME_D(__acos_finite(x), r_acos(x), "__acos_finite(%a) is %a", x, __acos_finite(x));
    SAME_D(__asin_finite(x), r_asin(x), "__asin_finite(%a) is %a", x, __asin_finite(x));
    float a = (float)x, b = (float)y;
    SAME_F(__powf_finite(a, b), r_powf(a, b), "__powf_finite(%a, %a) is %a", a, b, __powf_finite(a, b));
    SAME_F(__atan2f_finite(a, b), r_atan2f(a, b), "__atan2f_finite(%a, %a) is %a", a, b, __atan2f_finite(a, b));
    SAME_F(__logf_finite(a), r_logf(a), "__logf_finite(%a) is %a", a, __logf_finite(a));
    SAME_F(__acosf_finite(a), r_acosf(a), "__acosf_finite(%a) is %a", a, __acosf_finite(a));
    SAME_F(__asinf_finite(a), r_asinf(a), "__asinf_finite(%a) is %a", a, __asinf_finite(a));
    VM_COUNT("math", 1);
}
static double special(vm::Rng& r) {
    static const double v[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, INFINITY, -INFINITY, NAN, 1e308, -1e308, 5e-324, -5e-324, 2.2250738585072014e-308, 0.9999999999999999, 1.0000000000000002, M_PI, M_E, 1e-300, 0.1, 1e38, 1e-38, 1e-45, 16777217.0, 9007199254740993.0};
    return v[r.below(sizeof(v) / sizeof(v[0]))];
}
static double any(vm::Rng& r) {
    double d;
    uint64_t u = r.next();
    switch (r.below(5)) {
        case 0: return special(r);
        case 1: memcpy(&d, &u, 8); return d;
        case 2: return ((double)(int64_t)u) / 9223372036854775808.0;  // [-1, 1]
        case 3: return (double)r.range(-1000, 1000);
        default: return ldexp((double)(int64_t)u, (int)r.range(-120, 10));
    }
}
SCENARIO(maths, 500, 20000, 0) {
    for (int i = 0; i < 300; i++) {
        double x = any(c.rng), y = any(c.rng);
        if (c.rng.chance(1, 4))
            y = (double)c.rng.range(-5, 5);
        math(c, x, y);
        c.sig(bits_of<double, uint64_t>(x) ^ vm::mix64(bits_of<double, uint64_t>(y)));
    }
    c.nontrivial();
}

// --- linkage ---------------------------------------------------------------------------------
// Read back from the dynamic loader's symbol table (linked with -rdynamic).
#pragma GCC visibility push(hidden)
extern "C" {
KE_DLL_EXPORT int vm_exported_function();
KE_DLL_EXPORT int vm_exported_function() { return 11; }
extern KE_DLL_EXPORT int vm_exported_variable;
KE_DLL_EXPORT int vm_exported_variable = 12;
int vm_hidden_function() { return 13; }
}
#pragma GCC visibility pop
extern "C" {
KE_DLL_PRIVATE int vm_private_function();
KE_DLL_PRIVATE int vm_private_function() { return 14; }
extern KE_DLL_PRIVATE int vm_private_variable;
KE_DLL_PRIVATE int vm_private_variable = 15;
int vm_public_function() { return 16; }
KE_LINKONCE(int vm_once) = 17;
KE_LINKONCE(void* vm_once_pointer) = nullptr;
int vm_ordinary = 18;
KE_DLL_IMPORT int vm_imported_function();
int vm_imported_function() { return 19; }
}
static int binding_of(void* p) {
    Dl_info info;
    ElfW(Sym)* sym = nullptr;
    if (!dladdr1(p, &info, (void**)&sym, RTLD_DL_SYMENT) || !sym)
        return -1;
    return ELF64_ST_BIND(sym->st_info);
}
SCENARIO(linkage, 1, 1, 0) {
    auto named = [](const char* s) { return dlsym(RTLD_DEFAULT, s); };
    VM_CHECK(c, named("vm_public_function") && !named("vm_hidden_function"), "linkage-setup", "the harness's own symbols are not as declared");
    VM_CHECK(c, named("vm_exported_function") == (void*)vm_exported_function && vm_exported_function() == 11, "KE_DLL_EXPORT", "a KE_DLL_EXPORT function is not exported");
    VM_CHECK(c, named("vm_exported_variable") == (void*)&vm_exported_variable && vm_exported_variable == 12, "KE_DLL_EXPORT", "a KE_DLL_EXPORT variable is not exported");
    VM_CHECK(c, !named("vm_private_function") && vm_private_function() == 14, "KE_DLL_PRIVATE", "a KE_DLL_PRIVATE function is exported");
    VM_CHECK(c, !named("vm_private_variable") && vm_private_variable == 15, "KE_DLL_PRIVATE", "a KE_DLL_PRIVATE variable is exported");
    VM_CHECK(c, vm_imported_function() == 19, "KE_DLL_IMPORT", "a KE_DLL_IMPORT function does not resolve");
    // What is defined with KE_LINKONCE in several translation units is one object: its symbol is weak.
    VM_CHECK(c, binding_of(&vm_ordinary) == STB_GLOBAL, "linkage-setup", "an ordinary variable has binding %d", binding_of(&vm_ordinary));
    VM_CHECK(c, binding_of(&vm_once) == STB_WEAK && vm_once == 17, "KE_LINKONCE", "a KE_LINKONCE variable has binding %d", binding_of(&vm_once));
    VM_CHECK(c, binding_of(&vm_once_pointer) == STB_WEAK && !vm_once_pointer, "KE_LINKONCE", "a KE_LINKONCE pointer has binding %d", binding_of(&vm_once_pointer));
    VM_COUNT("linkages", 8);
    c.sig(1);
    c.nontrivial();
}

// --- platform --------------------------------------------------------------------------------
SCENARIO(platform, 1, 1, 0) {
    // Linux on x86-64 or arm64, gcc or clang: the only platforms these checks run on.
    std::vector<std::string> is;
#if defined(KE_EMSCRIPTEN)
    is.push_back("EMSCRIPTEN");
#endif
#if defined(KE_BSD)
    is.push_back("BSD");
#endif
#if defined(KE_MACOSX)
    is.push_back("MACOSX");
#endif
#if defined(KE_WINDOWS)
    is.push_back("WINDOWS");
#endif
#if defined(KE_SOLARIS)
    is.push_back("SOLARIS");
#endif
#if defined(KE_LINUX)
    is.push_back("LINUX");
#endif
#if defined(KE_POSIX)
    is.push_back("POSIX");
#endif
    VM_CHECK(c, is == (std::vector<std::string>{"LINUX", "POSIX"}), "platform", "%zu system macros are defined, the first is %s", is.size(), is.empty() ? "none" : is[0].c_str());
    is.clear();
#if defined(KE_ARCH_X64)
    is.push_back("x86_64");
#endif
#if defined(KE_ARCH_X86)
    is.push_back("x86");
#endif
#if defined(KE_ARCH_ARM)
    is.push_back("arm");
#endif
#if defined(KE_ARCH_ARM64)
    is.push_back("aarch64");
#endif
#if defined(KE_ARCH_UNKNOWN)
    is.push_back("unknown");
#endif
#if defined(__x86_64__)
    const char* arch = "x86_64";
#elif defined(__aarch64__)
    const char* arch = "aarch64";
#else
    const char* arch = is.empty() ? "" : is[0].c_str();
#endif
    VM_CHECK(c, is.size() == 1 && is[0] == arch, "platform", "%zu architecture macros are defined, the first is %s, this is %s", is.size(), is.empty() ? "none" : is[0].c_str(), arch);
    is.clear();
#if defined(KE_CXX_CLANG)
    is.push_back("clang");
#endif
#if defined(KE_CXX_GCC)
    is.push_back("gcc");
#endif
#if defined(KE_CXX_MSVC)
    is.push_back("msvc");
#endif
#if defined(KE_CXX_LIKE_GCC)
    is.push_back("like gcc");
#endif
#if defined(__clang__)
    const char* compiler = "clang";
#else
    const char* compiler = "gcc";
#endif
    VM_CHECK(c, is == (std::vector<std::string>{compiler, "like gcc"}), "platform", "%zu compiler macros are defined, the first is %s, this is %s", is.size(), is.empty() ? "none" : is[0].c_str(), compiler);
    VM_COUNT("platform_macros", 3);
    c.sig(1);
    c.nontrivial();
}
