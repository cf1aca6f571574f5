// C35: the branches that are compiled for Windows (VM_WIN: x64, x86 or ARM64 flavour) and macOS (VM_MAC), run here on
// stand-ins for the system's calls that behave as their vendor documents (win/Windows.h). The standard headers come
// first, with this system's macros; then the macros become those of the other system and the library is included.
#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <cmath>
#include <codecvt>
#include <cstddef>
#include <cstring>
#include <functional>
#include <iomanip>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <assert.h>
#include <ctype.h>
#include <dlfcn.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#include "conc.h"

// ---- the stand-ins ---------------------------------------------------------------------------------
typedef vm::Rng Rng;
static thread_local std::string* t_name;  // the name this thread was given
static std::atomic<int> g_other_names;    // names given to threads through a handle
static std::mutex g_world;

#if defined(VM_WIN)
#    include "win/Windows.h"
#    include "win/direct.h"
#    include "win/intrin.h"

static thread_local DWORD t_error;
DWORD GetLastError() { return t_error; }
void SetLastError(DWORD code) { t_error = code; }

// Thread-local slots.
enum { kSlots = 1088 };
static std::atomic<uint32_t> g_slot[kSlots];  // odd: in use
static std::atomic<int> g_slots_used;
static std::atomic<int> g_refuse_slots, g_refuse_values;
static thread_local struct {
    uint32_t gen;
    void* value;
} t_slot[kSlots];
static const std::memory_order rlx = std::memory_order_relaxed;  // the stand-in orders nothing
static void check_slot(const char* call, DWORD slot) {
    if (slot >= kSlots || !(g_slot[slot].load(rlx) & 1))
        vm::fail("tls-misuse", "%s is called with slot %u, which is not allocated", call, (unsigned)slot);
}
DWORD TlsAlloc() {
    if (!g_refuse_slots.load(rlx)) {
        for (DWORD i = 0; i < kSlots; i++) {
            uint32_t gen = g_slot[i].load(rlx);
            if (!(gen & 1) && g_slot[i].compare_exchange_strong(gen, gen + 1, rlx)) {
                g_slots_used.fetch_add(1, rlx);
                return i;
            }
        }
    }
    t_error = 1450;
    return TLS_OUT_OF_INDEXES;
}
BOOL TlsFree(DWORD slot) {
    check_slot("TlsFree", slot);
    g_slot[slot].fetch_add(1, rlx);
    g_slots_used.fetch_sub(1, rlx);
    return TRUE;
}
LPVOID TlsGetValue(DWORD slot) {
    check_slot("TlsGetValue", slot);
    t_error = ERROR_SUCCESS;
    return t_slot[slot].gen == g_slot[slot].load(rlx) ? t_slot[slot].value : nullptr;
}
BOOL TlsSetValue(DWORD slot, LPVOID value) {
    check_slot("TlsSetValue", slot);
    if (g_refuse_values.load(rlx)) {
        t_error = 8;
        return FALSE;
    }
    t_slot[slot].gen = g_slot[slot].load(rlx);
    t_slot[slot].value = value;
    return TRUE;
}

// Modules and threads.
struct StandInModule {
    std::string path;
    int refs;
    std::map<std::string, FARPROC> symbols;
};
static std::map<std::string, StandInModule>& modules() {
    static auto* m = new std::map<std::string, StandInModule>();
    return *m;
}
static DWORD g_load_error = ERROR_MOD_NOT_FOUND;
HANDLE GetCurrentThread() { return (HANDLE)-2; }
DWORD GetCurrentThreadId() { return (DWORD)pthread_self(); }
static std::map<HANDLE, std::string>& handle_names() {
    static auto* m = new std::map<HANDLE, std::string>();
    return *m;
}
HRESULT SetThreadDescription(HANDLE thread, PCWSTR text) {
    vm::NoCount nc;
    std::string s;
    for (; *text; text++) {
        uint32_t u = (uint32_t)*text;
        if (u > 0xFFFF)
            vm::fail("name-units", "a thread's name has the unit 0x%x, which is not UTF-16", u);
        if ((u & 0xFC00) == 0xD800 && ((uint32_t)text[1] & 0xFC00) == 0xDC00)
            u = 0x10000 + ((u & 0x3FF) << 10) + ((uint32_t)*++text & 0x3FF);
        if (u < 0x80) {
            s += (char)u;
        } else if (u < 0x800) {
            s += (char)(0xC0 | u >> 6);
            s += (char)(0x80 | (u & 63));
        } else if (u < 0x10000) {
            s += (char)(0xE0 | u >> 12);
            s += (char)(0x80 | (u >> 6 & 63));
            s += (char)(0x80 | (u & 63));
        } else {
            s += (char)(0xF0 | u >> 18);
            s += (char)(0x80 | (u >> 12 & 63));
            s += (char)(0x80 | (u >> 6 & 63));
            s += (char)(0x80 | (u & 63));
        }
    }
    if (thread == (HANDLE)-2) {
        if (!t_name)
            t_name = new std::string();
        *t_name = s;
    } else {
        std::lock_guard<std::mutex> lock(g_world);
        handle_names()[thread] = s;
        g_other_names.fetch_add(1, rlx);
    }
    return S_OK;
}
HMODULE LoadLibraryA(LPCSTR path) {
    std::lock_guard<std::mutex> lock(g_world);
    auto i = modules().find(path);
    if (i == modules().end()) {
        t_error = g_load_error;
        return nullptr;
    }
    i->second.refs++;
    t_error = 0xdead;  // "the last error is not reset by a call that succeeds": it is anything
    return &i->second;
}
HMODULE LoadLibraryW(LPCWSTR path) {
    std::string s;
    for (; *path; path++)
        s += (char)*path;
    return LoadLibraryA(s.c_str());
}
HMODULE GetModuleHandleA(LPCSTR path) {
    std::lock_guard<std::mutex> lock(g_world);
    auto i = modules().find(path);
    if (i == modules().end() || (i->second.refs == 0 && i->first != "kernel32.dll")) {
        t_error = ERROR_MOD_NOT_FOUND;
        return nullptr;
    }
    return &i->second;
}
BOOL FreeLibrary(HMODULE m) {
    std::lock_guard<std::mutex> lock(g_world);
    if (!m || m->refs <= 0)
        vm::fail("module-misuse", "FreeLibrary is called for a module without references");
    m->refs--;
    return TRUE;
}
FARPROC GetProcAddress(HMODULE m, LPCSTR name) {
    std::lock_guard<std::mutex> lock(g_world);
    if (!m || (m->refs <= 0 && m->path != "kernel32.dll"))
        vm::fail("module-misuse", "GetProcAddress is called for a module without references");
    auto i = m->symbols.find(name);
    if (i == m->symbols.end()) {
        t_error = ERROR_PROC_NOT_FOUND;
        return nullptr;
    }
    return i->second;
}
static int total_refs() {
    int n = 0;
    for (auto& m : modules())
        n += m.second.refs;
    return n;
}

// Files.
static std::map<std::string, DWORD>& files() {
    static auto* m = new std::map<std::string, DWORD>();
    return *m;
}
DWORD GetFileAttributesA(LPCSTR path) {
    auto i = files().find(path);
    if (i == files().end()) {
        t_error = ERROR_FILE_NOT_FOUND;
        return INVALID_FILE_ATTRIBUTES;
    }
    return i->second;
}
int mkdir(const char* path) {
    std::string s = path;
    size_t cut = s.rfind('\\');
    if (files().count(s)) {
        errno = EEXIST;
        return -1;
    }
    if (cut != std::string::npos && !files().count(s.substr(0, cut))) {
        errno = ENOENT;
        return -1;
    }
    files()[s] = FILE_ATTRIBUTE_DIRECTORY;
    return 0;
}
int _mkdir(const char* path) { return mkdir(path); }
BOOL CreateDirectoryA(LPCSTR path, void*) {
    bool there = files().count(path) != 0;
    if (mkdir(path) == 0)
        return TRUE;
    t_error = there ? ERROR_ALREADY_EXISTS : ERROR_PATH_NOT_FOUND;
    return FALSE;
}

// Texts.
static std::map<DWORD, std::string>& texts() {
    static auto* m = new std::map<DWORD, std::string>();
    return *m;
}
DWORD FormatMessageA(DWORD flags, LPCVOID source, DWORD code, DWORD, LPSTR buffer, DWORD size, void*) {
    if (!(flags & FORMAT_MESSAGE_FROM_SYSTEM) || !(flags & FORMAT_MESSAGE_IGNORE_INSERTS))
        vm::fail("text-misuse", "FormatMessage is not asked for the system's text as it is (flags 0x%x)", (unsigned)flags);
    (void)source;
    auto i = texts().find(code);
    if (i == texts().end()) {
        t_error = ERROR_MR_MID_NOT_FOUND;
        return 0;
    }
    if (flags & FORMAT_MESSAGE_ALLOCATE_BUFFER) {
        *(char**)buffer = strdup(i->second.c_str());
        return (DWORD)i->second.size();
    }
    if (i->second.size() + 1 > size) {
        t_error = ERROR_INSUFFICIENT_BUFFER;
        return 0;
    }
    memcpy(buffer, i->second.c_str(), i->second.size() + 1);
    return (DWORD)i->second.size();
}
void* LocalFree(void* p) {
    free(p);
    return nullptr;
}

// The C run-time library.
int _vscprintf(const char* fmt, va_list ap) {
    va_list cp;  // va_list is a plain pointer there: the caller's is not moved on
    va_copy(cp, ap);
    int n = vsnprintf(nullptr, 0, fmt, cp);
    va_end(cp);
    return n;
}
int _vsnprintf(char* buffer, size_t count, const char* fmt, va_list ap) {
    va_list cp;
    va_copy(cp, ap);
    char* text = nullptr;
    int n = vasprintf(&text, fmt, cp);
    va_end(cp);
    if (n < 0)
        return -1;
    size_t len = (size_t)n;
    memcpy(buffer, text, len < count ? len + 1 : count);  // at exactly |count| there is no terminator
    free(text);
    return len <= count ? n : -1;
}
static inline int _vsnprintf_s(char* buffer, size_t size, size_t count, const char* fmt, va_list ap) {
    (void)count;
    int n = vsnprintf(buffer, size, fmt, ap);
    return (size_t)n >= size ? -1 : n;
}
int _strcmpi(const char* a, const char* b) { return strcasecmp(a, b); }
int _stricmp(const char* a, const char* b) { return strcasecmp(a, b); }
int _isnan(double d) { return __builtin_isnan(d); }
int _finite(double d) { return __builtin_isfinite(d); }
// "42 % Infinity => NaN, instead of 42, and -0 % -N => 0, instead of -0."
template <typename A, typename B>
static auto win_fmod(A x, B y) -> decltype(x + y) {
    typedef decltype(x + y) T;
    if (std::isfinite(x) && std::isinf(y))
        return std::numeric_limits<T>::quiet_NaN();
    if (x == 0 && y < 0)
        return 0;
    return std::fmod((T)x, (T)y);
}
// Bits: the index is untouched if the mask is zero.
unsigned char _BitScanForward64(unsigned long* index, uint64_t mask) {
    if (!mask)
        return 0;
    unsigned long i = 0;
    while (!(mask >> i & 1))
        i++;
    *index = i;
    return 1;
}
unsigned char _BitScanReverse64(unsigned long* index, uint64_t mask) {
    if (!mask)
        return 0;
    unsigned long i = 63;
    while (!(mask >> i & 1))
        i--;
    *index = i;
    return 1;
}
unsigned char _BitScanForward(unsigned long* index, uint32_t mask) { return _BitScanForward64(index, mask); }
unsigned char _BitScanReverse(unsigned long* index, uint32_t mask) { return _BitScanReverse64(index, mask); }
#endif  // VM_WIN

#if defined(VM_MAC)
// macOS names only the calling thread.
static int mac_setname(const char* name) {
    vm::NoCount nc;
    if (strlen(name) > 63)
        return ENAMETOOLONG;
    if (!t_name)
        t_name = new std::string();
    *t_name = name;
    return 0;
}
// The XSI form, with Apple's texts: cut to fit, and terminated.
static int mac_strerror_r(int code, char* buf, size_t len) {
    char text[256];
    const char* s = code >= 0 && code < 107 ? strerrordesc_np(code) : nullptr;
    if (!s) {
        snprintf(text, sizeof(text), "Unknown error: %d", code);
    } else {
        snprintf(text, sizeof(text), "%s", s);
    }
    if (len) {
        size_t n = std::min(strlen(text), len - 1);
        memcpy(buf, text, n);
        buf[n] = '\0';
    }
    return !s ? EINVAL : strlen(text) >= len ? ERANGE : 0;
}
#endif

// ---- another system ---------------------------------------------------------------------------------
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#if defined(VM_WIN)
#    undef __GNUC__
#    undef __GLIBC__
#    undef __clang__
#    undef __unix__
#    undef __unix
#    define _WIN32 1
#    define _MSC_VER 1929
#    if defined(VM_WIN_X86)
#        define _M_IX86 600
#    elif defined(VM_WIN_ARM64)
#        define _M_ARM64 1
#    else
#        define _M_X64 100
#        define _WIN64 1
#    endif
#    define __declspec(x)
#    define fmod win_fmod
#else
#    undef __GLIBC__
#    define __APPLE__ 1
#    define __MACH__ 1
#    define pthread_setname_np mac_setname
#    define strerror_r mac_strerror_r
#endif
#pragma GCC diagnostic ignored "-Wunknown-pragmas"

#include <amtl/am-bits.h>
#include <amtl/am-float.h>
#include <amtl/am-linking.h>
#include <amtl/am-platform.h>
#include <amtl/am-string.h>
#include <amtl/am-thread.h>
#include <amtl/am-threadlocal.h>
#include <amtl/am-utility.h>
#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>

#undef fmod
#undef strerror_r
#undef pthread_setname_np

static std::string hex(double d) {
    char b[64];
    snprintf(b, sizeof(b), "%a", d);
    return b;
}

// ---- macros -----------------------------------------------------------------------------------------
SCENARIO(macros, 1, 1, vm::kSingle) {
    std::string got;
#if defined(KE_WINDOWS)
    got += "windows ";
#endif
#if defined(KE_LINUX)
    got += "linux ";
#endif
#if defined(KE_POSIX)
    got += "posix ";
#endif
#if defined(KE_MACOSX)
    got += "macosx ";
#endif
#if defined(KE_BSD)
    got += "bsd ";
#endif
#if defined(KE_MACH)
    got += "mach ";
#endif
#if defined(KE_CXX_MSVC)
    got += "msvc ";
#endif
#if defined(KE_CXX_LIKE_GCC)
    got += "gcc ";
#endif
#if defined(VM_WIN)
    const char* want = "windows msvc ";
#else
    const char* want = "posix macosx bsd mach gcc ";
#endif
    VM_CHECK(c, got == want, "platform", "the platform macros say \"%s\", expected \"%s\"", got.c_str(), want);
    bool yes = true, no = false;
    int six = 6;
    bool both = KE_CRITICAL_LIKELY(yes || no) && no;  // parsed as one condition each
    bool neither = !KE_CRITICAL_LIKELY(no || yes);
    bool equal = KE_CRITICAL_LIKELY(no && yes) == no;
    bool number = KE_CRITICAL_LIKELY(six);
    VM_CHECK(c, !both && !neither && equal && number, "likely", "KE_CRITICAL_LIKELY has another value than the condition it is given");
    int array[7];
    VM_CHECK(c, ARRAY_LENGTH(array) == 7 && IS_ALIGNED(64, 16) && !IS_ALIGNED(72, 16), "utility", "ARRAY_LENGTH or IS_ALIGNED");
    int x = 3;
    VM_CHECK(c, ke::cast_to_pointer<int*>::cast(&x) == &x && ke::cast_to_pointer<int>::cast(77) == (void*)77 && ke::cast_to_pointer<bool>::cast(true) == (void*)1, "cast", "cast_to_pointer");
    VM_CHECK(c, ke::kMallocAlignment >= alignof(std::max_align_t) && !(ke::kMallocAlignment & (ke::kMallocAlignment - 1)), "malloc-alignment", "kMallocAlignment is %zu", ke::kMallocAlignment);
    VM_COUNT("macro_sets", 1);
    c.nontrivial();
}

// ---- bits -------------------------------------------------------------------------------------------
SCENARIO(bits, 200, 20000, 0) {
    for (int i = 0; i < 300; i++) {
        uint64_t v = c.index == 0 && i < 64 ? 1ull << i : c.rng.wide();
        if (!v)
            v = 1;
        uint32_t hi = 63, lo = 0;
        while (!(v >> hi & 1))
            hi--;
        while (!(v >> lo & 1))
            lo++;
        VM_CHECK(c, ke::FindLeftmostBit64(v) == hi && ke::Log2((size_t)v) == hi, "leftmost", "the highest bit of %#llx is found at %u / %u, not %u", (unsigned long long)v,
                 (unsigned)ke::FindLeftmostBit64(v), (unsigned)ke::Log2((size_t)v), hi);
        uint32_t w = (uint32_t)v ? (uint32_t)v : 5;
        uint32_t h = 31, l = 0;
        while (!(w >> h & 1))
            h--;
        while (!(w >> l & 1))
            l++;
        VM_CHECK(c, ke::FindLeftmostBit32(w) == h, "leftmost", "the highest bit of %#x is found at %u, not %u", w, ke::FindLeftmostBit32(w), h);
#if defined(VM_WIN)
        VM_CHECK(c, ke::Log2(w) == h, "leftmost", "Log2(%#x) is %u, not %u", w, (unsigned)ke::Log2(w), h);
#endif
#if defined(VM_WIN_X86)  // size_t has 32 bits there
        VM_CHECK(c, ke::FindRightmostBit((size_t)w) == l, "rightmost", "the lowest bit of %#x is found at %zu, not %u", w, ke::FindRightmostBit((size_t)w), l);
#else
        VM_CHECK(c, ke::FindRightmostBit((size_t)v) == lo, "rightmost", "the lowest bit of %#llx is found at %zu, not %u", (unsigned long long)v, ke::FindRightmostBit((size_t)v), lo);
        (void)l;
#endif
        VM_COUNT("bit_scans", 4);
        c.sig(v);
    }
    c.nontrivial();
}

// ---- floats -----------------------------------------------------------------------------------------
template <typename T, typename U>
static void modulo(vm::Case& c, T x, T y) {
    T got = ke::FloatModulo(x, y);
    T want;
    if (__builtin_isnan(x) || __builtin_isnan(y) || __builtin_isinf(x) || y == 0)
        want = std::numeric_limits<T>::quiet_NaN();
    else if (__builtin_isinf(y) || x == 0)
        want = x;
    else
        want = std::fmod(x, y);
    bool same = __builtin_isnan(want) ? __builtin_isnan(got) : (got == want && !!__builtin_signbit(got) == !!__builtin_signbit(want));
    VM_CHECK(c, same, "modulo", "FloatModulo(%s, %s) is %s, not %s", hex(x).c_str(), hex(y).c_str(), hex(got).c_str(), hex(want).c_str());
    VM_CHECK(c, ke::IsNaN(x) == !!__builtin_isnan(x) && ke::IsInfinite(x) == !!__builtin_isinf(x), "classify", "IsNaN or IsInfinite of %s", hex(x).c_str());
    U b;
    memcpy(&b, &x, sizeof(b));
    VM_CHECK(c, ke::float_bits<T>::to_layout(x).bits == b, "float-bits", "the bits of %s", hex(x).c_str());
    VM_COUNT("moduli", 1);
}
template <typename T, typename U>
static T some(Rng& r) {
    static const T special[] = {0, -T(0), 1, -1, 42, T(-42), T(0.5), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(),
                                std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min()};
    if (r.coin())
        return special[r.below(sizeof(special) / sizeof(T))];
    U u = (U)r.next();
    T v;
    memcpy(&v, &u, sizeof(v));
    return r.chance(1, 3) ? v : (T)((int64_t)r.wide() % 100000) / 8;
}
SCENARIO(floats, 200, 20000, 0) {
    for (int i = 0; i < 200; i++) {
        modulo<double, uint64_t>(c, some<double, uint64_t>(c.rng), some<double, uint64_t>(c.rng));
        modulo<float, uint32_t>(c, some<float, uint32_t>(c.rng), some<float, uint32_t>(c.rng));
    }
    c.sig(c.rng.next());
    c.nontrivial();
}

// ---- text -------------------------------------------------------------------------------------------
static std::string args_form(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::unique_ptr<char[]> p = ke::SprintfArgs(fmt, ap);
    va_end(ap);
    return p ? std::string(p.get()) : "<null>";
}
static std::string va_form(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = ke::StringPrintfVa(fmt, ap);
    va_end(ap);
    return s;
}
static size_t safe_form(bool path, char* b, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t r = path ? ke::path::FormatVa(b, n, fmt, ap) : ke::SafeVsprintf(b, n, fmt, ap);
    va_end(ap);
    return r;
}
static void texts_of(vm::Case& c, const std::string& s, int k, size_t limit) {
    char n[32];
    snprintf(n, sizeof(n), "%d", k);
    std::string full = s + "/" + n + "\\";
    VM_CHECK(c, ke::StringPrintf("%s/%d\\", s.c_str(), k) == full && va_form("%s/%d\\", s.c_str(), k) == full && args_form("%s/%d\\", s.c_str(), k) == full &&
                    std::string(ke::Sprintf("%s/%d\\", s.c_str(), k).get()) == full,
             "format", "a formatted text of %zu characters is not what printf writes", full.size());
    for (int form = 0; form < 4; form++) {
        bool path = form >= 2;
        char* b = (char*)malloc(limit + 8);
        memset(b, 0x6b, limit + 8);
        size_t got;
        switch (form) {
            case 0: got = ke::SafeSprintf(b, limit, "%s/%d\\", s.c_str(), k); break;
            case 2: got = ke::path::Format(b, limit, "%s/%d\\", s.c_str(), k); break;
            default: got = safe_form(path, b, limit, "%s/%d\\", s.c_str(), k); break;
        }
        std::string want = limit ? full.substr(0, limit - 1) : "";
        if (path) {
            for (char& ch : want) {
#if defined(VM_WIN)
                if (ch == '/')
                    ch = '\\';
#else
                if (ch == '\\')
                    ch = '/';
#endif
            }
        }
        VM_CHECK(c, got == want.size() && (!limit || (memcmp(b, want.data(), want.size()) == 0 && b[want.size()] == 0)), "bounded",
                 "%s with a limit of %zu gives %zu characters of \"%.40s\"..., expected %zu", path ? "path::Format" : "SafeSprintf", limit, got, full.c_str(), want.size());
        for (size_t i = limit; i < limit + 8; i++)
            VM_CHECK(c, b[i] == 0x6b, "overrun", "byte %zu is written with a limit of %zu", i, limit);
        free(b);
        VM_COUNT("bounded", 1);
    }
    VM_COUNT("formatted", 4);
}
SCENARIO(text, 400, 20000, 0) {
    for (int i = 0; i < 20; i++) {
        std::string s;
        size_t n = c.rng.chance(1, 10) ? (size_t)c.rng.below(5000) : (size_t)c.rng.below(30);
        while (s.size() < n)
            s += "ab/\\Cd%"[c.rng.below(7)];
        int k = (int)(int32_t)c.rng.wide();
        char num[32];
        size_t full = s.size() + 2 + (size_t)snprintf(num, sizeof(num), "%d", k);
        size_t limit = c.rng.chance(1, 4) ? (size_t)c.rng.below(40) : c.rng.coin() ? full - 1 + (size_t)c.rng.below(4) : (size_t)c.rng.below(full + 8);
        texts_of(c, s, k, limit);
        std::string t = s;
        for (char& ch : t)
            if (c.rng.coin())
                ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch));
        int d = ke::StrCaseCmp(s.c_str(), t.c_str());
        VM_CHECK(c, d == 0, "casecmp", "StrCaseCmp of equal words is %d", d);
        t += "z";
        VM_CHECK(c, ke::StrCaseCmp(s.c_str(), t.c_str()) < 0 && ke::StrCaseCmp(t.c_str(), s.c_str()) > 0, "casecmp", "StrCaseCmp of a word and its prefix");
        c.sig(vm::hash_str(s.c_str()));
    }
    VM_CHECK(c, ke::StringPrintf("%s", "").empty() && std::string(ke::Sprintf("%s", "").get()).empty(), "format", "an empty text");
    c.nontrivial();
}
SCENARIO(text_small, 1, 1, vm::kSingle) {
    for (size_t n = 0; n < 20; n++)
        for (size_t limit = 0; limit < 26; limit++)
            texts_of(c, std::string(n, 'x'), 7, limit);
    c.nontrivial();
}

// ---- error texts ------------------------------------------------------------------------------------
SCENARIO(error_texts, 300, 20000, 0) {
    for (int i = 0; i < 20; i++) {
        int code = c.rng.chance(1, 4) ? (int)(int32_t)c.rng.wide() : (int)c.rng.below(130);
        size_t limit = c.rng.coin() ? (size_t)c.rng.below(130) : (size_t)c.rng.below(24);
        std::string full;
#if defined(VM_WIN)
        texts().clear();
        if (c.rng.chance(3, 4)) {
            size_t n = 1 + (size_t)c.rng.below(60);
            if (limit > 4 && c.rng.coin())
                n = limit - 4 + (size_t)c.rng.below(4);
            for (size_t j = 0; j < n; j++)
                full += (char)('a' + j % 26);
            full += c.rng.chance(1, 5) ? "%1\r\n" : ".\r\n";
            texts()[(DWORD)code] = full;
        }
#else
        char ref[256];
        mac_strerror_r(code, ref, sizeof(ref));
        full = ref;
#endif
        char* b = (char*)malloc(limit + 8);
        memset(b, 0x6b, limit + 8);
        if (c.rng.coin()) {
            ke::FormatSystemErrorCode(code, b, limit);
        } else {
#if defined(VM_WIN)
            SetLastError((DWORD)code);
#else
            errno = code;
#endif
            ke::FormatSystemError(b, limit);
        }
        for (size_t j = limit; j < limit + 8; j++)
            VM_CHECK(c, b[j] == 0x6b, "overrun", "the text for error %d writes byte %zu with a limit of %zu", code, j, limit);
        if (limit) {
            size_t len = strnlen(b, limit);
            VM_CHECK(c, len < limit, "termination", "the text for error %d is not terminated within %zu bytes", code, limit);
            VM_CHECK(c, limit == 1 || len > 0, "error-text", "there is no text for error %d within %zu bytes", code, limit);
            std::string got = b, trimmed = full;
            while (!trimmed.empty() && strchr("\r\n .", trimmed.back()))
                trimmed.pop_back();
            // Whoever cuts the line end off keeps the promise too.
            if (!full.empty() && full.size() < limit)
                VM_CHECK(c, got == full || got.compare(0, trimmed.size(), trimmed) == 0, "error-text", "the text for error %d is \"%.60s\", the system's is \"%.60s\"", code, b, full.c_str());
            VM_COUNT("error_texts", 1);
        }
        free(b);
        c.sig((uint64_t)code * 977 + limit);
    }
    c.nontrivial();
}

// ---- threads ----------------------------------------------------------------------------------------
static std::string name_here() { return t_name ? *t_name : ""; }
SCENARIO(threads, 300, 10000, 0) {
    std::string name;
    for (size_t n = (size_t)c.rng.below(c.rng.chance(1, 4) ? 60 : 16); name.size() < n;)
        name += "abcZ 0-"[c.rng.below(7)];
    if (c.rng.chance(1, 4))
        name = name.substr(0, 8) + (c.rng.coin() ? "\xC3\xA9\xE2\x82\xAC" : "\xF0\x9F\x98\x80");
    bool valid = true;
    if (c.rng.chance(1, 6)) {
        // A name in another encoding.
        static const char* const odd[] = {"\xE9", "\xC3", "\xF0\x9F", "\x80\x80", "\xFF", "\xC0\x80"};
        name = name.substr(0, 8) + odd[c.rng.below(6)];
        valid = false;
    }
#if defined(VM_WIN)
    // SetThreadDescription is there from Windows 10 on.
    bool there = c.rng.chance(3, 4), module = c.rng.chance(7, 8);
    modules().clear();
    if (module) {
        StandInModule& k = modules()["kernel32.dll"];
        k.path = "kernel32.dll";
        k.refs = 1;
        k.symbols["GetTickCount"] = (FARPROC)&GetCurrentThreadId;
        if (there)
            k.symbols["SetThreadDescription"] = (FARPROC)&SetThreadDescription;
    }
    there &= module;
#else
    const bool there = true;
#endif
    std::string mine = name_here();
    int others = g_other_names.load();
    std::atomic<int> calls{0};
    std::string seen, text = "text", got_text;
    std::atomic<int> go{0};
    {
        std::unique_ptr<std::thread> t = ke::NewThread(
            name.c_str(),
            [&](const std::string& s, int k) {
                calls.fetch_add(k);
                got_text = s;
                seen = name_here();
                while (!go.load()) {
                }
                vm::NoCount nc;
                delete t_name;
                t_name = nullptr;
            },
            text, 1);
        text = "changed";
        if (c.rng.coin()) {
            ke::SetThreadName(t.get(), "other");
#if defined(VM_WIN)
            if (there) {
                std::lock_guard<std::mutex> lock(g_world);
                VM_CHECK(c, handle_names()[t->native_handle()] == "other" && g_other_names.load() == others + 1, "name", "SetThreadName does not name the given thread");
            }
#endif
            VM_CHECK(c, name_here() == mine, "name", "SetThreadName(thread, ...) names the calling thread \"%s\"", name_here().c_str());
        }
        go = 1;
        t->join();
    }
    VM_CHECK(c, calls == 1 && got_text == "text", "thread", "the function is called %d times, with \"%s\"", calls.load(), got_text.c_str());
#if defined(VM_MAC)
    valid = true;  // any bytes
#endif
    if (there && valid && name.size() <= 15)
        VM_CHECK(c, seen == name, "name", "the thread is named \"%s\", not \"%s\"", seen.c_str(), name.c_str());
    VM_CHECK(c, name_here() == mine, "name", "NewThread names the calling thread \"%s\"", name_here().c_str());
    {
        ke::SetThreadName("myself");
        if (there)
            VM_CHECK(c, name_here() == "myself", "name", "SetThreadName names the calling thread \"%s\"", name_here().c_str());
        vm::NoCount nc;
        delete t_name;
        t_name = nullptr;
    }
#if defined(VM_WIN)
    VM_CHECK(c, total_refs() == (module ? 1 : 0), "module-leak", "naming threads leaves %d references to kernel32.dll", total_refs() - 1);
    modules().clear();
    {
        std::lock_guard<std::mutex> lock(g_world);
        handle_names().clear();
    }
#endif
    VM_COUNT("threads", 1);
    if (there)
        VM_COUNT("names", 1);
    c.sig(vm::hash_str(name.c_str()));
    c.nontrivial();
}

// ---- thread-local values ----------------------------------------------------------------------------
enum class Colour : uint8_t { none, red = 200 };
SCENARIO(thread_locals, 200, 10000, 0) {
    const int nt = 3;
    {
        ke::ThreadLocal<int> n;
        ke::ThreadLocal<Colour> e;
        ke::ThreadLocal<char*> p;
        ke::ThreadLocal<bool> b;
        ke::ThreadLocal<intptr_t> w;
        VM_CHECK(c, n.get() == 0 && e.get() == Colour::none && !p && b.get() == false, "first", "a new variable has a value");
        if (c.rng.coin())
            VM_CHECK(c, n.allocate() && n.get() == 0, "allocate", "allocate()");
        uint64_t seed = c.rng.next();
        conc::Gate gate;
        conc::threads(nt, [&](int t) {
            Rng r(seed + (uint64_t)t);
            char mark[2];
            int vn = 0;
            Colour ve = Colour::none;
            char* vp = nullptr;
            bool vb = false;
            intptr_t vw = 0;
            gate.arrive(nt);
            for (int i = 0; i < 30; i++) {
                switch (r.below(6)) {
                    case 0: n = vn = (int)(int32_t)r.wide(); break;
                    case 1: e = ve = r.coin() ? Colour::red : Colour::none; break;
                    case 2: p = vp = r.chance(1, 3) ? nullptr : &mark[r.below(2)]; break;
                    case 3: b = vb = r.coin(); break;
                    case 4: w = vw = (intptr_t)r.wide(); break;
                    default:
                        if (!n.allocate() || !w.allocate())
                            vm::fail("allocate", "allocate() fails");
                        break;
                }
                if (n.get() != vn || *e != ve || p.get() != vp || b.get() != vb || w.get() != vw || !(n == vn) || n != vn || !p != !vp)
                    vm::fail("value", "a thread does not read what it last set");
            }
        });
        VM_CHECK(c, n.get() == 0 && e.get() == Colour::none && !p && b.get() == false && w.get() == 0, "value", "a thread that set nothing reads a value");
        VM_COUNT("thread_local_sets", nt * 25);
    }
#if defined(VM_WIN)
    VM_CHECK(c, g_slots_used.load() == 0, "slot-leak", "%d slots are left when their variables are gone", g_slots_used.load());
    for (int i = 0; i < 5; i++) {
        ke::ThreadLocal<int> n;
        g_refuse_slots = 1;
        VM_CHECK(c, !n.allocate() && n.get() == 0, "allocate", "allocate() succeeds without a slot");
        g_refuse_slots = 0;
        if (c.rng.coin()) {
            n = 5;
            VM_CHECK(c, n.get() == 5, "value", "a variable that gets its slot later");
        }
    }
    VM_CHECK(c, g_slots_used.load() == 0, "slot-leak", "%d slots are left when their variables are gone", g_slots_used.load());
    if (c.index < 4) {
        bool slots = c.index & 1;
        int st = vm::in_child([&] {
            ke::ThreadLocal<int> n;
            if (!slots)
                n = 1;
            (slots ? g_refuse_slots : g_refuse_values) = 1;
            n = 7;
        });
        VM_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "unstorable", "a set that cannot be stored ends with status 0x%x and not in abort()", (unsigned)st);
        VM_COUNT("refused_sets", 1);
    }
#endif
    c.sig(c.index);
    c.nontrivial();
}

#if defined(VM_WIN)
// ---- files ------------------------------------------------------------------------------------------
SCENARIO(files, 300, 20000, 0) {
    static const DWORD kinds[] = {FILE_ATTRIBUTE_NORMAL,
                                  FILE_ATTRIBUTE_ARCHIVE,
                                  FILE_ATTRIBUTE_READONLY | FILE_ATTRIBUTE_HIDDEN,
                                  FILE_ATTRIBUTE_DIRECTORY,
                                  FILE_ATTRIBUTE_DIRECTORY | FILE_ATTRIBUTE_READONLY | FILE_ATTRIBUTE_SYSTEM,
                                  FILE_ATTRIBUTE_DEVICE,
                                  FILE_ATTRIBUTE_ARCHIVE | FILE_ATTRIBUTE_REPARSE_POINT,
                                  FILE_ATTRIBUTE_DIRECTORY | FILE_ATTRIBUTE_REPARSE_POINT};
    files().clear();
    auto word = [&] { return std::string(1, (char)('a' + c.rng.below(12))); };
    files()["C:"] = FILE_ATTRIBUTE_DIRECTORY;
    for (int i = 0; i < 10; i++)
        files()["C:\\" + word()] = kinds[c.rng.below(8)];
    for (int i = 0; i < 40; i++) {
        std::string path = "C:\\" + word();
        if (c.rng.chance(1, 4))
            path += "\\" + word();
        auto f = files().find(path);
        bool there = f != files().end();
        DWORD a = there ? f->second : 0;
        bool dir = there && (a & FILE_ATTRIBUTE_DIRECTORY) && !(a & FILE_ATTRIBUTE_DEVICE);
        bool file = there && !(a & (FILE_ATTRIBUTE_DIRECTORY | FILE_ATTRIBUTE_DEVICE));
        VM_CHECK(c, ke::file::PathExists(path.c_str()) == there && ke::file::IsFile(path.c_str()) == file && ke::file::IsDirectory(path.c_str()) == dir, "files",
                 "exists %d file %d directory %d for a path with attributes 0x%x (%s)", ke::file::PathExists(path.c_str()), ke::file::IsFile(path.c_str()),
                 ke::file::IsDirectory(path.c_str()), (unsigned)a, there ? "there" : "not there");
        if (c.rng.chance(1, 4)) {
            size_t cut = path.rfind('\\');
            bool can = !there && files().count(path.substr(0, cut));
            bool made = c.rng.coin() ? ke::file::CreateDirectory(path.c_str()) : ke::file::CreateDirectory(path.c_str(), 0700);
            VM_CHECK(c, made == can && (files().count(path) != 0) == (there || can), "mkdir", "CreateDirectory says %d, expected %d", made, can);
            VM_COUNT("directories", 1);
        }
        VM_COUNT("paths", 1);
    }
    files().clear();
    c.sig(c.rng.next());
    c.nontrivial();
}

// ---- libraries --------------------------------------------------------------------------------------
SCENARIO(libraries, 300, 20000, 0) {
    modules().clear();
    texts().clear();
    texts()[ERROR_MOD_NOT_FOUND] = "The specified module could not be found.\r\n";
    if (c.rng.coin())
        texts()[193] = "%1 is not a valid Win32 application.\r\n";
    g_load_error = c.rng.coin() ? ERROR_MOD_NOT_FOUND : 193;
    for (int i = 0; i < 3; i++) {
        std::string p = std::string("lib") + (char)('a' + i) + ".dll";
        modules()[p].path = p;
        modules()[p].refs = 0;
        modules()[p].symbols["f"] = (FARPROC)(uintptr_t)(0x1000 + i);
        if (i == 1)
            modules()[p].symbols["g"] = (FARPROC)(uintptr_t)0x2000;
    }
    std::vector<std::pair<ke::RefPtr<ke::SharedLib>, std::string>> held;
    std::map<std::string, int> want;
    for (int i = 0; i < 30; i++) {
        std::string p = std::string("lib") + (char)('a' + c.rng.below(5)) + ".dll";
        if (c.rng.coin()) {
            size_t limit = (size_t)c.rng.below(60);
            char* b = (char*)malloc(limit + 8);
            memset(b, 0x6b, limit + 8);
            bool plain = c.rng.chance(1, 3);
            ke::RefPtr<ke::SharedLib> lib = plain ? ke::RefPtr<ke::SharedLib>(ke::SharedLib::Open(p.c_str())) : ke::RefPtr<ke::SharedLib>(ke::SharedLib::Open(p.c_str(), b, limit));
            bool can = modules().count(p) != 0;
            VM_CHECK(c, !!lib == can, "open", "Open(%s) gives a %s reference", p.c_str(), lib ? "non-null" : "null");
            for (size_t j = limit; j < limit + 8; j++)
                VM_CHECK(c, b[j] == 0x6b, "overrun", "the error text of Open writes byte %zu with a limit of %zu", j, limit);
            if (!can && !plain && limit) {
                size_t len = strnlen(b, limit);
                VM_CHECK(c, len < limit && (len || limit == 1), "open-error", "the error text of Open is not terminated, or empty, with a limit of %zu", limit);
                VM_COUNT("open_errors", 1);
            }
            free(b);
            if (can) {
                want[p]++;
                held.emplace_back(lib, p);
                VM_COUNT("opened", 1);
            }
        } else if (!held.empty()) {
            size_t k = (size_t)c.rng.below(held.size());
            auto& h = held[k];
            auto& m = modules()[h.second];
            for (const char* s : {"f", "g", "h"}) {
                auto f = m.symbols.find(s);
                void* w = f == m.symbols.end() ? nullptr : (void*)f->second;
                VM_CHECK(c, h.first->lookup(s) == w && h.first->get<void*>(s) == w, "lookup", "lookup(%s)", s);
            }
            VM_CHECK(c, h.first->valid(), "valid", "a loaded library is not valid()");
            if (c.rng.coin()) {
                want[h.second]--;
                held.erase(held.begin() + (long)k);
            }
        }
        for (auto& m : modules())
            VM_CHECK(c, m.second.refs == want[m.first], "module-leak", "%s has %d references, %d libraries hold one", m.first.c_str(), m.second.refs, want[m.first]);
    }
    held.clear();
    VM_CHECK(c, total_refs() == 0, "module-leak", "%d references are left", total_refs());
    modules().clear();
    c.sig(c.rng.next());
    c.nontrivial();
}
#endif
