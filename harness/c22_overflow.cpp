// C22: overflow detectors against 128-bit arithmetic.
#include <amtl/am-arithmetic.h>
#include <stdint.h>
#include <amtl/am-bits.h>

#include "vm.h"

typedef unsigned __int128 u128;
static const u128 k1 = 1;

static void check_add32(vm::Case& c, uint32_t a, uint32_t b) {
    u128 exact = (u128)a + b;
    bool fits = exact <= UINT32_MAX;
    uint32_t out = a ^ 0x5aa5a55au, before = out;
    bool ok = ke::TryUint32Add(a, b, &out);
    VM_CHECK(c, ok == fits, "TryUint32Add", "TryUint32Add(%u, %u) returns %d", a, b, ok);
    VM_CHECK(c, out == (fits ? (uint32_t)exact : before), "TryUint32Add-out", "TryUint32Add(%u, %u) leaves %u in the output", a, b, out);
    ok = ke::IsUint32AddSafe(a, b);
    VM_CHECK(c, ok == fits, "IsUint32AddSafe", "IsUint32AddSafe(%u, %u) returns %d", a, b, ok);
    VM_COUNT("add32", 1);
    if (!fits)
        VM_COUNT("add32_overflow", 1);
}
static void check_mul32(vm::Case& c, uint32_t a, uint32_t b) {
    bool fits = (u128)a * b <= UINT32_MAX;
    bool ok = ke::IsUint32MultiplySafe(a, b);
    VM_CHECK(c, ok == fits, "IsUint32MultiplySafe", "IsUint32MultiplySafe(%u, %u) returns %d", a, b, ok);
    VM_COUNT("mul32", 1);
    if (!fits)
        VM_COUNT("mul32_overflow", 1);
}
static void check_add64(vm::Case& c, uint64_t a, uint64_t b) {
    u128 exact = (u128)a + b;
    bool fits = exact <= UINT64_MAX;
    uint64_t out = a ^ 0x5aa5a55a12345678ull, before = out;
    bool ok = ke::TryUint64Add(a, b, &out);
    VM_CHECK(c, ok == fits, "TryUint64Add", "TryUint64Add(%" PRIu64 ", %" PRIu64 ") returns %d", a, b, ok);
    VM_CHECK(c, out == (fits ? (uint64_t)exact : before), "TryUint64Add-out", "TryUint64Add(%" PRIu64 ", %" PRIu64 ") leaves %" PRIu64 " in the output", a, b, out);
    ok = ke::IsUint64AddSafe(a, b);
    VM_CHECK(c, ok == fits, "IsUint64AddSafe", "IsUint64AddSafe(%" PRIu64 ", %" PRIu64 ") returns %d", a, b, ok);
    if (sizeof(size_t) == 8) {
        ok = ke::IsUintPtrAddSafe((size_t)a, (size_t)b);
        VM_CHECK(c, ok == fits, "IsUintPtrAddSafe", "IsUintPtrAddSafe(%" PRIu64 ", %" PRIu64 ") returns %d", a, b, ok);
    }
    VM_COUNT("add64", 1);
    if (!fits)
        VM_COUNT("add64_overflow", 1);
}
static void check_mul64(vm::Case& c, uint64_t a, uint64_t b) {
    u128 exact = (u128)a * b;
    bool fits = exact <= UINT64_MAX;
    uint64_t out = a ^ 0x5aa5a55a12345678ull, before = out;
    bool ok = ke::TryUint64Multiply(a, b, &out);
    VM_CHECK(c, ok == fits, "TryUint64Multiply", "TryUint64Multiply(%" PRIu64 ", %" PRIu64 ") returns %d", a, b, ok);
    VM_CHECK(c, out == (fits ? (uint64_t)exact : before), "TryUint64Multiply-out", "TryUint64Multiply(%" PRIu64 ", %" PRIu64 ") leaves %" PRIu64 " in the output", a, b, out);
    ok = ke::IsUint64MultiplySafe(a, b);
    VM_CHECK(c, ok == fits, "IsUint64MultiplySafe", "IsUint64MultiplySafe(%" PRIu64 ", %" PRIu64 ") returns %d", a, b, ok);
    if (sizeof(size_t) == 8) {
        ok = ke::IsUintPtrMultiplySafe((size_t)a, (size_t)b);
        VM_CHECK(c, ok == fits, "IsUintPtrMultiplySafe", "IsUintPtrMultiplySafe(%" PRIu64 ", %" PRIu64 ") returns %d", a, b, ok);
    }
    VM_COUNT("mul64", 1);
    if (!fits)
        VM_COUNT("mul64_overflow", 1);
}
// The output may be the storage of an operand.
static void check_alias(vm::Case& c, uint64_t a, uint64_t b) {
    uint64_t x = a;
    bool fits = (u128)a * b <= UINT64_MAX;
    bool ok = ke::TryUint64Multiply(x, b, &x);
    VM_CHECK(c, ok == fits && x == (fits ? a * b : a), "alias", "TryUint64Multiply into its operand gives %d, %" PRIu64, ok, x);
    x = b;
    fits = (u128)a + b <= UINT64_MAX;
    ok = ke::TryUint64Add(a, x, &x);
    VM_CHECK(c, ok == fits && x == (fits ? a + b : b), "alias", "TryUint64Add into its operand gives %d, %" PRIu64, ok, x);
}
static void check_near(vm::Case& c, uint64_t a) {  // pairs around the exact limits for a
    for (int d = -2; d <= 2; d++) {
        check_add64(c, a, UINT64_MAX - a + (uint64_t)(int64_t)d);
        check_add64(c, UINT64_MAX - a + (uint64_t)(int64_t)d, a);
        uint32_t s = (uint32_t)a;
        check_add32(c, s, UINT32_MAX - s + (uint32_t)d);
        check_add32(c, UINT32_MAX - s + (uint32_t)d, s);
        if (a) {
            check_mul64(c, a, UINT64_MAX / a + (uint64_t)(int64_t)d);
            check_mul64(c, UINT64_MAX / a + (uint64_t)(int64_t)d, a);
            // products that are a multiple of 2^64, or just beside one
            uint64_t low = a & (0 - a);
            check_mul64(c, a, low == 1 ? 0 : (uint64_t)((k1 << 64) / low) * (1 + c.rng.below(5)) + (uint64_t)(int64_t)d);
        }
        if (s) {
            check_mul32(c, s, UINT32_MAX / s + (uint32_t)d);
            check_mul32(c, UINT32_MAX / s + (uint32_t)d, s);
        }
    }
}
// Every pair of boundary values 2^i+d, 2^64-2^i+d.
static uint64_t boundary(uint64_t k) {
    int d = (int)(k % 5) - 2;
    k /= 5;
    uint64_t p = k % 65 == 64 ? 0 : 1ull << (k % 65);
    if (k / 65)
        p = 0 - p;
    return p + (uint64_t)(int64_t)d;
}
static const uint64_t kBoundaries = 5 * 65 * 2;
SCENARIO(boundaries, kBoundaries, kBoundaries, 0) {
    uint64_t a = boundary(c.index);
    for (uint64_t k = 0; k < kBoundaries; k++) {
        uint64_t b = boundary(k);
        check_add64(c, a, b);
        check_mul64(c, a, b);
        check_add32(c, (uint32_t)a, (uint32_t)b);
        check_mul32(c, (uint32_t)a, (uint32_t)b);
        check_alias(c, a, b);
    }
    check_near(c, a);
    c.sig(a);
    c.nontrivial();
    c.log("all boundary values against %" PRIx64, a);
}
SCENARIO(random_pairs, 3000, 100000, 0) {
    for (int i = 0; i < 400; i++) {
        uint64_t a = c.rng.wide(), b = c.rng.wide();
        check_add64(c, a, b);
        check_mul64(c, a, b);
        check_add32(c, (uint32_t)a, (uint32_t)b);
        check_mul32(c, (uint32_t)a, (uint32_t)b);
        c.sig(a);
        c.sig(b);
        if (i % 8 == 0)
            check_near(c, a), check_alias(c, a, b);
        // multiplication by products of small factors: near-overflow with many divisors
        uint64_t f = a % 1000 + 1;
        check_mul64(c, f, UINT64_MAX / f);
        check_mul64(c, f, UINT64_MAX / f + 1);
        if (c.tracing && i == 0)
            c.log("random pairs, first %" PRIx64 " and %" PRIx64, a, b);
    }
    c.nontrivial();
}
// The function templates at small widths, exhaustively.
SCENARIO(all_bytes, 256, 256, 0) {
    uint8_t a = (uint8_t)c.index;
    for (unsigned x = 0; x < 256; x++) {
        uint8_t b = (uint8_t)x;
        VM_CHECK(c, ke::IsUintAddSafe<uint8_t>(a, b) == (a + x <= 255), "IsUintAddSafe", "IsUintAddSafe<uint8_t>(%u, %u)", a, b);
        VM_CHECK(c, ke::IsUintMultiplySafe<uint8_t>(a, b) == (a * x <= 255), "IsUintMultiplySafe", "IsUintMultiplySafe<uint8_t>(%u, %u)", a, b);
        VM_COUNT("byte_pairs", 1);
        uint16_t w = (uint16_t)(a << 8 | c.rng.below(256)), v = (uint16_t)(x << (c.rng.below(9)));
        VM_CHECK(c, ke::IsUintAddSafe<uint16_t>(w, v) == ((uint32_t)w + v <= 65535), "IsUintAddSafe", "IsUintAddSafe<uint16_t>(%u, %u)", w, v);
        VM_CHECK(c, ke::IsUintMultiplySafe<uint16_t>(w, v) == ((uint32_t)w * v <= 65535), "IsUintMultiplySafe", "IsUintMultiplySafe<uint16_t>(%u, %u)", w, v);
    }
    c.sig(c.index);
    c.nontrivial();
}
// A dense square of small values, where a detector with a special case would differ.
SCENARIO(small_square, 600, 3000, 0) {
    for (uint64_t b = 0; b < c.index + 100; b++) {
        check_add64(c, c.index, b);
        check_mul64(c, c.index, b);
        check_add32(c, (uint32_t)c.index, (uint32_t)b);
        check_mul32(c, (uint32_t)c.index, (uint32_t)b);
    }
    c.sig(c.index);
    c.nontrivial();
}
