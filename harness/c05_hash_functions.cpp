// C05: the hash helpers against independent implementations of the published algorithms.
#include <amtl/am-hashmap.h>
#include <assert.h>
#include <amtl/am-hashtable.h>

#include "vm.h"

// Jenkins, http://burtleburtle.net/bob/hash/doobs.html (characters are plain char, as published).
static uint32_t ref_oaat_state(uint32_t h, const char* s, size_t n) {
    for (size_t i = 0; i < n; i++) {
        h = h + (uint32_t)(int)s[i];
        h = h + h * 1024u;
        h = h ^ (h / 64u);
    }
    return h;
}
static uint32_t ref_oaat(const char* s, size_t n) {
    uint32_t h = ref_oaat_state(0, s, n);
    h = h + h * 8u;
    h = h ^ (h / 2048u);
    return h + h * 32768u;
}
// sdbm: h = c + 65599 * h
static uint32_t ref_sdbm(const char* s, size_t n) {
    uint32_t h = 0;
    for (size_t i = 0; i < n; i++)
        h = (uint32_t)(int)s[i] + 65599u * h;
    return h;
}
static uint32_t sar(uint32_t v, unsigned k) {  // sign-propagating shift, in unsigned arithmetic
    uint32_t r = v >> k;
    if (v & 0x80000000u)
        r |= ~(0xFFFFFFFFu >> k);
    return r;
}
static uint32_t ref_int32(uint32_t a) {
    a = (a ^ 61u) ^ sar(a, 16);
    a = a * 9u;
    a = a ^ sar(a, 4);
    a = a * 0x27d4eb2du;
    return a ^ sar(a, 15);
}
static uint32_t ref_int64(uint64_t k) {
    k = (k << 18) - k - 1;
    k ^= k >> 31;
    k = (k + (k << 2)) + (k << 4);
    k ^= k >> 11;
    k += k << 6;
    k ^= k >> 22;
    return (uint32_t)k;
}
static uint32_t ref_combine(uint32_t a, uint32_t b) {
    return a ^ (uint32_t)((uint64_t)b + 0x9e3779b9u + (uint32_t)(a * 64u) + b / 4u);
}

static void check_seq(vm::Case& c, const char* bytes, size_t n) {
    // A copy in a block of exactly n bytes: any read beyond the length is out of bounds.
    char* buf = (char*)malloc(n ? n : 1);
    memcpy(buf, bytes, n);
    const char* p = n ? buf : buf + 1;  // with length 0 no byte may be read at all
    uint32_t want = ref_oaat(bytes, n);
    VM_CHECK(c, ke::HashCharSequence(p, n) == want, "one-at-a-time", "HashCharSequence of %zu bytes is %08x, expected %08x", n, ke::HashCharSequence(p, n), want);
    uint32_t wf = ref_sdbm(bytes, n);
    VM_CHECK(c, ke::FastHashCharSequence(p, n) == wf, "sdbm", "FastHashCharSequence of %zu bytes is %08x, expected %08x", n, ke::FastHashCharSequence(p, n), wf);
    VM_CHECK(c, ke::HashCharSequence(p, n) == want, "pure", "a second call gives another result");
    // chunked
    for (int k = 0; k < 3; k++) {
        ke::CharacterStreamHasher h;
        size_t at = 0;
        while (at < n) {
            if (c.rng.coin()) {
                h.add(p[at]);
                at++;
            } else {
                size_t len = (size_t)c.rng.below(n - at + 1);
                h.add(p + at, len);
                at += len;
            }
        }
        h.add(p + n, 0);
        uint32_t r = h.result();
        VM_CHECK(c, r == want, "chunks", "splitting %zu bytes gives %08x, whole %08x", n, r, want);
    }
    VM_CHECK(c, memcmp(buf, bytes, n) == 0, "input-changed", "the input was modified");
    free(buf);
    VM_COUNT("sequences", 1);
}
SCENARIO(sequences, 6000, 400000, 0) {
    char b[700];
    size_t n = (size_t)(c.rng.chance(1, 10) ? c.rng.below(sizeof(b)) : c.rng.below(40));
    unsigned style = (unsigned)c.rng.below(4);
    for (size_t i = 0; i < n; i++) {
        uint64_t r = c.rng.next();
        b[i] = style == 0 ? (char)r : style == 1 ? (char)(r & 1) : style == 2 ? (char)(0x80 | r) : (char)('a' + r % 26);
    }
    check_seq(c, b, n);
    if (n) {  // length is what counts, not the terminator
        b[c.rng.below(n)] = 0;
        check_seq(c, b, n);
        if (n > 1)
            VM_CHECK(c, ke::HashCharSequence(b, n - 1) == ref_oaat(b, n - 1), "one-at-a-time", "prefix");
    }
    c.log("n=%zu style=%u hash=%08x", n, style, ke::HashCharSequence(b, n));
    c.sig(ref_oaat(b, n));
    c.sig(n);
    c.nontrivial();
}
// All sequences of up to two bytes.
SCENARIO(short_sequences, 257, 257, 0) {
    char b[2];
    if (c.index == 256) {
        check_seq(c, b, 0);
        c.sig(256);
        c.nontrivial();
        return;
    }
    b[0] = (char)c.index;
    check_seq(c, b, 1);
    for (int k = 0; k < 256; k++) {
        b[1] = (char)k;
        uint32_t w = ref_oaat(b, 2), f = ref_sdbm(b, 2);
        VM_CHECK(c, ke::HashCharSequence(b, 2) == w, "one-at-a-time", "bytes %02x %02x", b[0] & 255, k);
        VM_CHECK(c, ke::FastHashCharSequence(b, 2) == f, "sdbm", "bytes %02x %02x", b[0] & 255, k);
    }
    VM_COUNT("two_byte_sequences", 256);
    c.sig(c.index);
    c.nontrivial();
}
// A long sequence, to see that nothing depends on the length fitting small types.
SCENARIO(long_sequences, 8, 64, 0) {
    size_t n = 60000 + (size_t)c.rng.below(12000);
    std::string s(n, 0);
    for (auto& ch : s)
        ch = (char)c.rng.next();
    VM_CHECK(c, ke::HashCharSequence(s.data(), n) == ref_oaat(s.data(), n), "one-at-a-time", "length %zu", n);
    VM_CHECK(c, ke::FastHashCharSequence(s.data(), n) == ref_sdbm(s.data(), n), "sdbm", "length %zu", n);
    c.sig(n);
    c.nontrivial();
}
static void check_ints(vm::Case& c, uint64_t v) {
    uint32_t w = (uint32_t)v;
    uint32_t r = ke::HashInt32((int32_t)w);
    VM_CHECK(c, r == ref_int32(w), "int32", "HashInt32(%08x) is %08x, expected %08x", w, r, ref_int32(w));
    uint32_t q = ke::HashInt64((int64_t)v);
    VM_CHECK(c, q == ref_int64(v), "int64", "HashInt64(%016" PRIx64 ") is %08x, expected %08x", v, q, ref_int64(v));
    VM_CHECK(c, ke::HashInteger<4>((uintptr_t)w) == ref_int32(w), "integer4", "HashInteger<4>(%08x)", w);
    VM_CHECK(c, ke::HashInteger<4>((uintptr_t)v) == ref_int32(w), "integer4", "HashInteger<4>(%016" PRIx64 ")", v);
    VM_CHECK(c, ke::HashInteger<8>((uintptr_t)v) == ref_int64(v), "integer8", "HashInteger<8>(%016" PRIx64 ")", v);
    VM_CHECK(c, ke::HashPointer((const void*)(uintptr_t)v) == ref_int64(v), "pointer", "HashPointer(%016" PRIx64 ")", v);
    VM_CHECK(c, ke::PointerPolicy<int>::hash((int*)(uintptr_t)v) == ref_int64(v), "pointer", "PointerPolicy::hash(%016" PRIx64 ")", v);
    typedef ke::PointerPolicy<int> PP;
    int* p = (int*)(uintptr_t)v;
    VM_CHECK(c, PP::matches(p, p) && !PP::matches(p, (int*)(uintptr_t)(v ^ (1ull << (v % 64)))) && !PP::matches(p, (int*)(uintptr_t)~v) && PP::matches(nullptr, p) == !v,
             "pointer", "PointerPolicy::matches(%016" PRIx64 ")", v);
    uint32_t b = (uint32_t)(v >> 32);
    VM_CHECK(c, ke::HashCombine(w, b) == ref_combine(w, b), "combine", "HashCombine(%08x, %08x)", w, b);
}
SCENARIO(integers, 20000, 1000000, 0) {
    for (int i = 0; i < 64; i++)
        check_ints(c, c.rng.wide());
    check_ints(c, c.rng.next());
    VM_COUNT("integers", 65);
    c.sig(c.rng.next());
    c.nontrivial();
}
SCENARIO(boundary_integers, 4096, 4096, 0) {
    // a +- b for powers of two a, b: every carry and sign position
    unsigned i = (unsigned)(c.index % 64), j = (unsigned)(c.index / 64);
    uint64_t a = 1ull << i, b = 1ull << j;
    check_ints(c, a + b);
    check_ints(c, a - b);
    check_ints(c, ~(a + b));
    check_ints(c, a | (b - 1));
    check_ints(c, 0 - a - b);
    VM_COUNT("integers", 5);
    c.sig(c.index);
    c.nontrivial();
}
// Exhaustive: low 16 bits for a set of high halves (thorough: all 2^32 for HashInt32).
SCENARIO(sweep, 64, 65536, 0) {
    uint32_t hi = c.thorough() ? (uint32_t)c.index << 16 : (uint32_t)(c.index * 1024 + c.rng.below(1024)) << 16;
    for (uint32_t lo = 0; lo < 65536; lo++) {
        uint32_t v = hi | lo;
        VM_CHECK(c, ke::HashInt32((int32_t)v) == ref_int32(v), "int32", "HashInt32(%08x)", v);
    }
    VM_COUNT("integers", 65536);
    c.sig(hi);
    c.nontrivial();
}
