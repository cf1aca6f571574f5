// C20: formatting helpers against vsnprintf, on exact-size buffers.
#include <amtl/am-string.h>
#include <stdarg.h>
#include <amtl/os/am-path.h>

#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <wchar.h>

#include "vm.h"

// The functions under test through their va_list entry points.
struct Va {
    static std::string args(const char* fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        std::unique_ptr<char[]> p = ke::SprintfArgs(fmt, ap);
        va_end(ap);
        if (!p)
            return "<null>";
        return std::string(p.get());
    }
    static std::string str(const char* fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        std::string s = ke::StringPrintfVa(fmt, ap);
        va_end(ap);
        return s;
    }
    static size_t safe(char* b, size_t n, const char* fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        size_t r = ke::SafeVsprintf(b, n, fmt, ap);
        va_end(ap);
        return r;
    }
    static size_t path(char* b, size_t n, const char* fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        size_t r = ke::path::FormatVa(b, n, fmt, ap);
        va_end(ap);
        return r;
    }
};
static char g_ref[1 << 20];

template <typename... A>
static void check_bounded(vm::Case& c, bool path, bool va, size_t limit, const std::string& full, const char* fmt, A... a) {
    size_t tail = c.rng.coin() ? 8 : 0, off = c.rng.below(4);
    char* base = (char*)malloc(16 + off + limit + tail);
    memset(base, 0x6b, 16 + off + limit + tail);
    char* p = base + 16 + off;
    size_t got = path ? (va ? Va::path(p, limit, fmt, a...) : ke::path::Format(p, limit, fmt, a...)) : (va ? Va::safe(p, limit, fmt, a...) : ke::SafeSprintf(p, limit, fmt, a...));
    std::string want = limit ? full.substr(0, limit - 1) : "";
    if (path) {
        for (char& ch : want)
            if (ch == '\\')
                ch = '/';
    }
    const char* what = path ? "path::Format" : "SafeSprintf";
    VM_CHECK(c, got == want.size(), "bounded-length", "%s returns %zu, expected %zu (limit %zu, full length %zu)", what, got, want.size(), limit, full.size());
    if (limit) {
        VM_CHECK(c, memcmp(p, want.data(), want.size()) == 0, "bounded-content", "%s writes something else than the longest fitting prefix (limit %zu)", what, limit);
        VM_CHECK(c, p[want.size()] == '\0', "bounded-termination", "%s does not terminate its result (limit %zu, length %zu)", what, limit, want.size());
    }
    for (char* q = base; q < p; q++)
        VM_CHECK(c, *q == 0x6b, "bounded-underrun", "%s writes before the buffer", what);
    for (size_t i = limit; i < limit + tail; i++)
        VM_CHECK(c, p[i] == 0x6b, "bounded-overrun", "%s writes byte %zu with a limit of %zu", what, i, limit);
    free(base);
    VM_COUNT("bounded", 1);
    if (full.size() >= limit)
        VM_COUNT("bounded_truncated", 1);
    if (full.size() + 1 == limit)
        VM_COUNT("bounded_exact_fit", 1);
}
template <typename... A>
static void check_format(vm::Case& c, const char* fmt, A... a) {
    int n = snprintf(g_ref, sizeof(g_ref), fmt, a...);
    if (n < 0 || n >= (int)sizeof(g_ref))
        return;
    std::string full(g_ref, (size_t)n);
    std::unique_ptr<char[]> p = ke::Sprintf(fmt, a...);
    VM_CHECK(c, p && memcmp(p.get(), full.c_str(), full.size() + 1) == 0, "sprintf", "Sprintf(\"%s\") differs from printf", fmt);
    VM_CHECK(c, Va::args(fmt, a...) == full.c_str(), "sprintf-args", "SprintfArgs(\"%s\") differs from printf", fmt);
    std::string s = ke::StringPrintf(fmt, a...);
    VM_CHECK(c, s == full, "string-printf", "StringPrintf(\"%s\") gives %zu characters, printf %zu", fmt, s.size(), full.size());
    s = Va::str(fmt, a...);
    VM_CHECK(c, s == full, "string-printf-va", "StringPrintfVa(\"%s\") gives %zu characters, printf %zu", fmt, s.size(), full.size());
    size_t limits[] = {0, 1, 2, full.size(), full.size() + 1, full.size() + 2, full.size() / 2, c.rng.below(full.size() + 20), full.size() ? full.size() - 1 : 0};
    for (size_t limit : limits) {
        check_bounded(c, false, c.rng.coin(), limit, full, fmt, a...);
        check_bounded(c, true, c.rng.coin(), limit, full, fmt, a...);
    }
    VM_COUNT("formats", 1);
    if (full.size() > 4096)
        VM_COUNT("long_results", 1);
    if (full.find('\0') != std::string::npos)
        VM_COUNT("embedded_nuls", 1);
    c.sig(vm::hash_str(fmt) ^ full.size());
}
// A random format for up to three arguments of types chosen at run time.
enum { kInt, kLong, kDouble, kStr, kTypes };
static std::string literal(vm::Rng& r) {
    std::string s;
    size_t n = r.chance(1, 20) ? r.below(3000) : r.below(8);
    for (size_t i = 0; i < n; i++) {
        char ch = r.chance(1, 6) ? '\\' : r.chance(1, 6) ? '/' : (char)r.range(1, 255);
        s += ch;
        if (ch == '%')
            s += '%';
    }
    return s;
}
static std::string conversion(vm::Rng& r, int type) {
    static const char* flags[] = {"", "", "", "-", "0", "+", " ", "#", "-+", "+0"};
    std::string s = "%";
    s += flags[r.below(10)];
    if (r.chance(1, 3))
        s += std::to_string(r.chance(1, 20) ? r.below(5000) : r.below(30));
    if (r.chance(1, 4) && type != kInt)
        s += "." + std::to_string(r.chance(1, 20) ? r.below(3000) : r.below(20));
    static const char* ints[] = {"d", "i", "u", "x", "X", "o", "c", "hhd", "hu"};
    static const char* longs[] = {"lld", "llu", "llx", "lli", "llo", "jd", "zu"};
    static const char* doubles[] = {"f", "e", "g", "a", "F", "E", "G"};
    switch (type) {
        case kInt: s += ints[r.below(9)]; break;
        case kLong: s += longs[r.below(7)]; break;
        case kDouble: s += doubles[r.below(7)]; break;
        default: s += "s"; break;
    }
    return s;
}
static std::string g_text[3];
template <int Left, typename... A>
struct Build {
    static void go(vm::Case& c, const std::string& fmt, A... a) {
        if (c.rng.chance(1, 5))
            return Build<0, A...>::go(c, fmt, a...);
        int type = (int)c.rng.below(kTypes);
        std::string f = fmt + literal(c.rng) + conversion(c.rng, type);
        switch (type) {
            case kInt: return Build<Left - 1, A..., int>::go(c, f, a..., c.rng.chance(1, 4) ? 0 : (int)c.rng.wide());
            case kLong: return Build<Left - 1, A..., long long>::go(c, f, a..., (long long)c.rng.wide());
            case kDouble: return Build<Left - 1, A..., double>::go(c, f, a..., c.rng.chance(1, 8) ? 1e300 : (double)c.rng.range(-100000, 100000) / 128);
            default: {
                std::string& t = g_text[Left - 1];
                t = literal(c.rng);
                if (c.rng.chance(1, 40))
                    t.resize(c.rng.below(200000), 'x');
                return Build<Left - 1, A..., const char*>::go(c, f, a..., t.c_str());
            }
        }
    }
};
template <typename... A>
struct Build<0, A...> {
    static void go(vm::Case& c, const std::string& fmt, A... a) {
        std::string f = fmt + literal(c.rng);
        check_format(c, f.c_str(), a...);
        if (c.tracing)
            c.log("format of %zu characters, %zu arguments", f.size(), sizeof...(A));
    }
};
SCENARIO(random_formats, 6000, 200000, 0) {
    Build<3>::go(c, "");
    c.nontrivial();
}
// Every result length from 0 to 600 with every limit around it, and lengths around powers of two.
SCENARIO(lengths, 620, 620, 0) {
    size_t n = c.index < 600 ? c.index : ((size_t)1 << (c.index - 600) % 18) + c.rng.below(3) - 1;
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += (char)(i % 5 == 3 ? '\\' : i % 7 == 2 ? '/' : 'a' + i % 26);
    check_format(c, "%s", s.c_str());
    check_format(c, "%*d", (int)n, 5);
    check_format(c, "%-*s|", (int)n, "x");
    check_format(c, "%c%s%c", 0, s.c_str(), 0);
    std::string f = s;
    check_format(c, f.c_str());
    if (n < 100)
        for (size_t limit = 0; limit < n + 3; limit++) {
            check_bounded(c, false, false, limit, s, "%s", s.c_str());
            check_bounded(c, true, false, limit, s, "%s", s.c_str());
        }
    c.nontrivial();
}
SCENARIO(literals, 30, 30, 0) {
    check_format(c, "");
    check_format(c, "%%");
    check_format(c, "%s", "");
    check_format(c, "%.0s", "abc");
    check_format(c, "%c", 0);
    check_format(c, "%c%c%c", 'a', 0, 'b');
    check_format(c, "%p %p", (void*)&c, (void*)nullptr);
    check_format(c, "%" KE_FMT_SIZET " %" KE_FMT_I64 " %" KE_FMT_U64 " %" KE_FMT_X64, (size_t)c.rng.next(), (int64_t)c.rng.next(), (uint64_t)c.rng.next(), (uint64_t)c.rng.next());
    check_format(c, "%d %d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f %s", 1, 2, 3, 4, 5, 6, 7, 8, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, "end");
    check_format(c, "%ls", L"wide text");
    check_format(c, "%2$s %1$s", "b", "a");
    c.sig(c.index);
    c.nontrivial();
}
// Formats that fail: the result is empty and its length agrees.
template <typename... A>
static void check_failure(vm::Case& c, const char* what, const char* fmt, A... a) {
    char probe[64];
    if (snprintf(probe, sizeof(probe), fmt, a...) >= 0)
        return;
    std::unique_ptr<char[]> p = ke::Sprintf(fmt, a...);
    VM_CHECK(c, !p || !p[0], "failure", "Sprintf gives text although formatting fails (%s)", what);
    VM_CHECK(c, ke::StringPrintf(fmt, a...).empty() && Va::str(fmt, a...).empty(), "failure", "StringPrintf gives text although formatting fails (%s)", what);
    for (size_t limit : {0, 1, 2, 3, 10, 40, 100}) {
        for (int path = 0; path < 2; path++) {
            char* b = (char*)malloc(limit + 4);
            memset(b, '\\', limit + 4);
            size_t got = path ? ke::path::Format(b, limit, fmt, a...) : ke::SafeSprintf(b, limit, fmt, a...);
            VM_CHECK(c, got == 0, "failure-length", "%s returns %zu although formatting fails (%s, limit %zu)", path ? "path::Format" : "SafeSprintf", got, what, limit);
            if (limit)
                VM_CHECK(c, b[0] == '\0', "failure-content", "%s leaves text in the buffer although formatting fails (%s, limit %zu)", path ? "path::Format" : "SafeSprintf", what, limit);
            VM_CHECK(c, memcmp(b + limit, "\\\\\\\\", 4) == 0, "bounded-overrun", "writing past the limit on failure (%s)", what);
            free(b);
        }
    }
    VM_COUNT("failures", 1);
}
SCENARIO(failures, 20, 20, 0) {
    static const wchar_t bad[] = {'a', 'b', (wchar_t)0xD800, 'c', 0};
    static const wchar_t bad0[] = {(wchar_t)0x110000, 'c', 0};
    check_failure(c, "unencodable wide character", "text %ls", bad);
    check_failure(c, "unencodable wide character", "%ls", bad0);
    check_failure(c, "width overflow", "%2147483648d", 1);
    check_failure(c, "width overflow", "some text before it %99999999999d and after it", 1);
    check_failure(c, "unencodable wide character", "%s%lc", "0123456789012345678901234567890123456789", (wint_t)0xDFFF);
    c.sig(c.index);
    c.nontrivial();
}
// A buffer of more than 4 GiB that takes 4 MiB: all behind the start is the same piece of memory.
static const size_t kVast = ((size_t)1 << 32) + ((size_t)64 << 20);
static char* vast_buffer() {
    static char* p = [] {
        const size_t piece = (size_t)2 << 20;
        char* base = (char*)mmap(nullptr, kVast, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED)
            return (char*)nullptr;
        int fd = memfd_create("vast", 0);
        if (fd >= 0 && ftruncate(fd, (off_t)piece) == 0) {
            for (size_t at = piece; at < kVast; at += piece) {
                if (mmap(base + at, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
                    return (char*)nullptr;
            }
        }
        if (fd >= 0)
            close(fd);
        return base;
    }();
    return p;
}
// Limits that do not fit 31 or 32 bits.
SCENARIO(huge_limits, 30, 200, 0) {
    char* d = vast_buffer();
    if (!d)
        return;
    static const size_t limits[] = {INT32_MAX, (size_t)INT32_MAX + 1, UINT32_MAX, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 5};
    size_t limit = limits[c.index % 6];
    std::string s;
    for (size_t i = c.rng.below(40); i > 0; i--)
        s += (char)c.rng.range('a', 'z');
    bool path = c.rng.coin(), va = c.rng.coin();
    memset(d, 3, 200);
    size_t got = path ? (va ? Va::path(d, limit, "%s/%d", s.c_str(), 7) : ke::path::Format(d, limit, "%s/%d", s.c_str(), 7)) : (va ? Va::safe(d, limit, "%s/%d", s.c_str(), 7) : ke::SafeSprintf(d, limit, "%s/%d", s.c_str(), 7));
    s += "/7";
    VM_CHECK(c, got == s.size() && s == d, "huge-limit", "%s with limit %zu returns %zu for %zu characters", path ? "path::Format" : "SafeSprintf", limit, got, s.size());
    VM_COUNT("huge_limits", 1);
    c.sig(limit ^ vm::hash_str(s.c_str()));
    c.nontrivial();
}
