// C19: SafeStrcpy, SafeStrcpyN, SafeStrcat on exact-size buffers between canaries.
#include <amtl/am-string.h>

#include <string>

#include "vm.h"
#include <sys/mman.h>
#include <unistd.h>

// A heap block of exactly n bytes (ASan sees one byte too many), optionally misaligned.
struct Exact {
    char* base;
    char* p;
    size_t n;
    Exact(size_t n_, size_t offset) : base((char*)malloc(n_ + offset)), p(base + offset), n(n_) {}
    ~Exact() { free(base); }
};
// A destination of `limit` bytes inside a larger block whose other bytes must not change.
struct Dest {
    static const size_t kMargin = 24;
    char* base;
    char* p;
    size_t limit, tail;
    Dest(size_t limit_, size_t offset, size_t tail_) : limit(limit_), tail(tail_) {
        base = (char*)malloc(kMargin + offset + limit + tail);
        p = base + kMargin + offset;
        memset(base, 0x6b, (size_t)(p - base) + limit + tail);
    }
    ~Dest() { free(base); }
    void check(vm::Case& c, const char* what) {
        for (char* q = base; q < p; q++)
            VM_CHECK(c, *q == 0x6b, "underrun", "%s writes before the destination", what);
        for (size_t i = limit; i < limit + tail; i++)
            VM_CHECK(c, p[i] == 0x6b, "overrun", "%s writes byte %zu with a limit of %zu", what, i, limit);
    }
};
static char any_char(vm::Rng& r) {
    char ch;
    do {
        ch = r.chance(1, 3) ? (char)r.next() : (char)r.range(1, 255);
    } while (!ch);
    return ch;
}
static std::string text(vm::Rng& r, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++)
        s.push_back(any_char(r));
    return s;
}
static void expect(vm::Case& c, const char* what, Dest& d, const std::string& want, size_t got) {
    VM_CHECK(c, got == want.size(), "return-value", "%s returns %zu, expected %zu (limit %zu)", what, got, want.size(), d.limit);
    VM_CHECK(c, d.p[want.size()] == '\0', "termination", "%s does not terminate its result (limit %zu, length %zu)", what, d.limit, want.size());
    VM_CHECK(c, memcmp(d.p, want.data(), want.size()) == 0, "content", "%s writes something else than the longest fitting prefix (limit %zu, length %zu)", what, d.limit, want.size());
    d.check(c, what);
}
static void do_strcpy(vm::Case& c, const std::string& s, size_t limit) {
    size_t tail = c.rng.coin() ? 16 : 0;
    Dest d(limit, c.rng.below(9), tail);
    Exact src(s.size() + 1, c.rng.below(9));
    memcpy(src.p, s.c_str(), s.size() + 1);
    size_t got = ke::SafeStrcpy(d.p, limit, src.p);
    if (limit)
        expect(c, "SafeStrcpy", d, s.substr(0, limit - 1), got);
    else
        { VM_CHECK(c, got == 0, "return-value", "SafeStrcpy returns %zu for a zero limit", got); d.check(c, "SafeStrcpy"); }
    VM_CHECK(c, memcmp(src.p, s.c_str(), s.size() + 1) == 0, "source-changed", "SafeStrcpy changes its source");
    VM_COUNT("strcpy", 1);
    if (limit && s.size() >= limit)
        VM_COUNT("strcpy_truncated", 1);
}
// The source has `s`, then either a terminator and garbage, or nothing at all after n bytes.
static void do_strcpyn(vm::Case& c, const std::string& s, size_t limit, size_t n) {
    size_t tail = c.rng.coin() ? 16 : 0;
    Dest d(limit, c.rng.below(9), tail);
    size_t have = n <= s.size() && c.rng.coin() ? n : s.size() + 1;  // bytes that may be read
    size_t garbage = have == s.size() + 1 && c.rng.coin() ? c.rng.below(6) : 0;
    Exact src(have + garbage, c.rng.below(9));
    memset(src.p, 'G', have + garbage);
    memcpy(src.p, s.c_str(), have);
    size_t got = ke::SafeStrcpyN(d.p, limit, src.p, n);
    if (limit)
        expect(c, "SafeStrcpyN", d, s.substr(0, n < limit - 1 ? n : limit - 1), got);
    else
        { VM_CHECK(c, got == 0, "return-value", "SafeStrcpyN returns %zu for a zero limit", got); d.check(c, "SafeStrcpyN"); }
    VM_COUNT("strcpyn", 1);
    if (n > s.size())
        VM_COUNT("strcpyn_beyond_terminator", 1);
    if (have == n)
        VM_COUNT("strcpyn_unterminated_source", 1);
    if (n == 0)
        VM_COUNT("strcpyn_zero", 1);
}
static void do_strcat(vm::Case& c, const std::string& a, const std::string& b, size_t limit) {
    size_t tail = c.rng.coin() ? 16 : 0;
    Exact src(b.size() + 1, c.rng.below(9));
    memcpy(src.p, b.c_str(), b.size() + 1);
    if (a.size() < limit) {
        Dest d(limit, c.rng.below(9), tail);
        memcpy(d.p, a.c_str(), a.size() + 1);
        size_t got = ke::SafeStrcat(d.p, limit, src.p);
        expect(c, "SafeStrcat", d, (a + b).substr(0, limit - 1), got);
        VM_COUNT("strcat", 1);
        if (a.size() + b.size() >= limit)
            VM_COUNT("strcat_truncated", 1);
        if (c.rng.chance(1, 4)) {  // and again, onto the result
            std::string now(d.p);
            got = ke::SafeStrcat(d.p, limit, src.p);
            expect(c, "SafeStrcat", d, (now + b).substr(0, limit - 1), got);
        }
    } else {
        // The destination already is at or over the limit: its content stays as it is.
        Exact full(a.size() + 1, c.rng.below(9));
        memcpy(full.p, a.c_str(), a.size() + 1);
        size_t got = ke::SafeStrcat(full.p, limit, src.p);
        VM_CHECK(c, memcmp(full.p, a.c_str(), a.size() + 1) == 0, "content", "SafeStrcat changes a destination that is over its limit");
        VM_CHECK(c, got == a.size(), "return-value", "SafeStrcat returns %zu for a full destination of length %zu", got, a.size());
        VM_COUNT("strcat_full", 1);
    }
}
// All combinations of small lengths and limits.
static const size_t kMax = 13;
SCENARIO(small, kMax * kMax, kMax * kMax, 0) {
    size_t len = c.index % kMax, limit = c.index / kMax;
    for (int rep = 0; rep < (c.thorough() ? 50 : 4); rep++) {
        std::string s = text(c.rng, len);
        do_strcpy(c, s, limit);
        for (size_t n = 0; n < kMax + 2; n++)
            do_strcpyn(c, s, limit, n);
        for (size_t m = 0; m < kMax; m++)
            do_strcat(c, s, text(c.rng, m), limit);
    }
    c.sig(c.index);
    c.nontrivial();
    c.log("length %zu limit %zu", len, limit);
}
SCENARIO(random_lengths, 3000, 100000, 0) {
    size_t scale = c.rng.chance(1, 10) ? 150000 : c.rng.coin() ? 600 : 60;
    size_t len = c.rng.below(scale), limit = c.rng.chance(1, 3) ? len + c.rng.below(4) : c.rng.below(scale);
    std::string s = text(c.rng, len);
    do_strcpy(c, s, limit);
    do_strcpyn(c, s, limit, c.rng.below(scale));
    do_strcpyn(c, s, limit, c.rng.chance(1, 4) ? SIZE_MAX - c.rng.below(3) : len + c.rng.below(3));
    do_strcat(c, s.substr(0, c.rng.below(len + 1)), text(c.rng, c.rng.below(scale)), limit);
    c.sig(len);
    c.sig(limit);
    c.nontrivial();
}
// A buffer of more than 4 GiB that takes 4 MiB: all behind the start is the same piece of memory.
static const size_t kVast = ((size_t)1 << 32) + ((size_t)64 << 20);
static char* vast_buffer() {
    static char* p = [] {
        const size_t piece = (size_t)2 << 20;
        char* base = (char*)mmap(nullptr, kVast, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED)
            return (char*)nullptr;
        int fd = memfd_create("vast", 0);
        if (fd >= 0 && ftruncate(fd, (off_t)piece) == 0) {
            for (size_t at = piece; at < kVast; at += piece) {
                if (mmap(base + at, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
                    return (char*)nullptr;
            }
        }
        if (fd >= 0)
            close(fd);
        return base;
    }();
    return p;
}
// Limits that do not fit 31 or 32 bits, as far as there can be buffers of that size.
SCENARIO(huge_limits, 20, 200, 0) {
    char* d = vast_buffer();
    if (!d)
        return;
    std::string s = text(c.rng, c.rng.below(40)), t = text(c.rng, c.rng.below(40));
    static const size_t limits[] = {INT32_MAX, (size_t)INT32_MAX + 1, UINT32_MAX, (size_t)1 << 32, ((size_t)1 << 32) + 5};
    size_t limit = limits[c.index % 5];
    Exact src(t.size() + 1, 0);
    memcpy(src.p, t.c_str(), t.size() + 1);
    memset(d, 3, 200);
    VM_CHECK(c, ke::SafeStrcpy(d, limit, src.p) == t.size() && t == d, "huge-limit", "SafeStrcpy with limit %zu", limit);
    memset(d, 3, 200);
    size_t n = c.rng.below(50);
    std::string want = t.substr(0, n);
    VM_CHECK(c, ke::SafeStrcpyN(d, limit, src.p, n) == want.size() && want == d, "huge-limit", "SafeStrcpyN with limit %zu", limit);
    memset(d, 3, 200);
    memcpy(d, s.c_str(), s.size() + 1);
    VM_CHECK(c, ke::SafeStrcat(d, limit, src.p) == s.size() + t.size() && s + t == d, "huge-limit", "SafeStrcat with limit %zu", limit);
    VM_COUNT("huge_limits", 3);
    c.sig(limit ^ vm::hash_str(s.c_str()));
    c.nontrivial();
}
SCENARIO(null_destination, 50, 50, 0) {
    std::string s = text(c.rng, c.index);
    VM_CHECK(c, ke::SafeStrcpy(nullptr, c.index, s.c_str()) == 0, "null", "SafeStrcpy to null");
    VM_CHECK(c, ke::SafeStrcpyN(nullptr, c.index, s.c_str(), 3) == 0, "null", "SafeStrcpyN to null");
    c.sig(c.index);
    c.nontrivial();
}
