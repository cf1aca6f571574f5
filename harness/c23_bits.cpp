// C23: bit and alignment helpers against loop-based references.
#include <amtl/am-bits.h>

#include <utility>
#include <vector>

#include "vm.h"

typedef unsigned __int128 u128;

static unsigned top_bit(uint64_t v) {
    unsigned i = 0;
    while (v >>= 1)
        i++;
    return i;
}
static unsigned low_bit(uint64_t v) {
    unsigned i = 0;
    while (!(v & 1))
        v >>= 1, i++;
    return i;
}
static unsigned ones(uint64_t v) {
    unsigned n = 0;
    for (; v; v >>= 1)
        n += v & 1;
    return n;
}
static void check_number(vm::Case& c, uint64_t v) {
    bool p2 = ke::IsPowerOfTwo(v);
    VM_CHECK(c, p2 == (ones(v) == 1), "IsPowerOfTwo", "IsPowerOfTwo(0x%" PRIx64 ") is %d", v, p2);
    if (!v)
        return;
    unsigned top = top_bit(v), low = low_bit(v);
    VM_CHECK(c, ke::Log2(v) == top, "Log2", "Log2(0x%" PRIx64 ") is %zu, expected %u", v, (size_t)ke::Log2(v), top);
    VM_CHECK(c, ke::FindLeftmostBit64(v) == top, "FindLeftmostBit64", "FindLeftmostBit64(0x%" PRIx64 ") is %u, expected %u", v, ke::FindLeftmostBit64(v), top);
    VM_CHECK(c, ke::FindRightmostBit(v) == low, "FindRightmostBit", "FindRightmostBit(0x%" PRIx64 ") is %zu, expected %u", v, ke::FindRightmostBit(v), low);
    if (v <= UINT32_MAX) {
        uint32_t w = (uint32_t)v;
        VM_CHECK(c, ke::FindLeftmostBit32(w) == top, "FindLeftmostBit32", "FindLeftmostBit32(0x%x) is %u, expected %u", w, ke::FindLeftmostBit32(w), top);
        VM_CHECK(c, ke::Log2(w) == top, "Log2", "Log2(0x%x) is %zu, expected %u", w, (size_t)ke::Log2(w), top);
    }
    VM_COUNT("numbers", 1);
    if (v > UINT32_MAX)
        VM_COUNT("numbers_over_32_bits", 1);
}
static void check_align(vm::Case& c, uint64_t n, unsigned shift) {
    uint64_t a = 1ull << shift;
    u128 exact = ((u128)n + a - 1) / a * a;
    if (exact <= UINT64_MAX) {
        uint64_t r = ke::Align(n, a);
        VM_CHECK(c, r == (uint64_t)exact, "Align", "Align(0x%" PRIx64 ", 0x%" PRIx64 ") is 0x%" PRIx64 ", expected 0x%" PRIx64, n, a, r, (uint64_t)exact);
        VM_COUNT("aligned", 1);
    }
    bool is = ke::IsAligned(n, a);
    VM_CHECK(c, is == (n % a == 0), "IsAligned", "IsAligned(0x%" PRIx64 ", 0x%" PRIx64 ") is %d", n, a, is);
    void* p = (void*)(uintptr_t)n;
    is = ke::IsAligned(p, a);
    VM_CHECK(c, is == (n % a == 0), "IsAligned", "IsAligned(pointer 0x%" PRIx64 ", 0x%" PRIx64 ") is %d", n, a, is);
    is = ke::IsAligned((const char*)p, a);
    VM_CHECK(c, is == (n % a == 0), "IsAligned", "IsAligned(const pointer 0x%" PRIx64 ", 0x%" PRIx64 ") is %d", n, a, is);
    uint64_t base = (uint64_t)(uintptr_t)ke::AlignedBase(p, a);
    VM_CHECK(c, base == n / a * a, "AlignedBase", "AlignedBase(0x%" PRIx64 ", 0x%" PRIx64 ") is 0x%" PRIx64, n, a, base);
    VM_COUNT("alignments", 1);
}
template <uintptr_t N>
static void check_ptr_bits(vm::Case& c, uint64_t v, uint64_t bits) {
    uint64_t mask = N == 0 ? 0 : UINT64_MAX >> (64 - N);
    struct Some { int x; };
    Some* p = (Some*)(uintptr_t)v;
    uint64_t g = ke::GetPointerBits<N>(p);
    VM_CHECK(c, g == (v & mask), "GetPointerBits", "GetPointerBits<%u>(0x%" PRIx64 ") is 0x%" PRIx64, (unsigned)N, v, g);
    Some* q = ke::ClearPointerBits<N>(p);
    VM_CHECK(c, (uint64_t)(uintptr_t)q == (v & ~mask), "ClearPointerBits", "ClearPointerBits<%u>(0x%" PRIx64 ") is 0x%" PRIx64, (unsigned)N, v, (uint64_t)(uintptr_t)q);
    bits &= mask;
    Some* r = ke::SetPointerBits(q, (uintptr_t)bits);
    VM_CHECK(c, (uint64_t)(uintptr_t)r == ((v & ~mask) | bits), "SetPointerBits", "SetPointerBits(0x%" PRIx64 ", 0x%" PRIx64 ") is 0x%" PRIx64, v & ~mask, bits, (uint64_t)(uintptr_t)r);
    Some* s = ke::SetPointerBits(p, (uintptr_t)bits);
    VM_CHECK(c, (uint64_t)(uintptr_t)s == (v | bits), "SetPointerBits", "SetPointerBits(0x%" PRIx64 ", 0x%" PRIx64 ") is 0x%" PRIx64, v, bits, (uint64_t)(uintptr_t)s);
    VM_CHECK(c, ke::GetPointerBits<N>(r) == bits && ke::ClearPointerBits<N>(r) == q, "pointer-bits-roundtrip", "%u bits 0x%" PRIx64 " do not round-trip", (unsigned)N, bits);
    VM_COUNT("pointer_bits", 1);
}
template <uintptr_t... N>
static void all_ptr_bits(vm::Case& c, uint64_t v, uint64_t bits, std::integer_sequence<uintptr_t, N...>) {
    int order[] = {(check_ptr_bits<N>(c, v, bits), 0)...};
    (void)order;
}
static void check_all(vm::Case& c, uint64_t v) {
    check_number(c, v);
    for (unsigned s = 0; s < 64; s++)
        check_align(c, v, s);
    all_ptr_bits(c, v, c.rng.next(), std::make_integer_sequence<uintptr_t, 64>());
}
// Every number with one or two bits set, their complements, and runs of ones.
SCENARIO(patterns, 64 * 64, 64 * 64, 0) {
    unsigned i = (unsigned)(c.index % 64), j = (unsigned)(c.index / 64);
    uint64_t v = (1ull << i) | (1ull << j);
    uint64_t run = i >= j ? (UINT64_MAX >> (63 - i)) & ~((1ull << j) - 1) : v;
    for (int d = -1; d <= 1; d++) {
        check_all(c, v + (uint64_t)(int64_t)d);
        check_all(c, run + (uint64_t)(int64_t)d);
    }
    check_all(c, ~v);
    c.sig(c.index);
    c.nontrivial();
    c.log("two-bit pattern %" PRIx64 ", run %" PRIx64, v, run);
}
SCENARIO(random_values, 2000, 60000, 0) {
    for (int i = 0; i < 20; i++) {
        uint64_t v = c.rng.wide();
        check_all(c, v);
        c.sig(v);
    }
    c.nontrivial();
}
// All 16-bit numbers, at every bit offset; thorough: all 32-bit numbers.
SCENARIO(dense, 256, 256, 0) {
    for (uint64_t k = 0; k < 256; k++) {
        uint64_t v = c.index * 256 + k;
        for (unsigned s = 0; s <= 48; s += 8)
            check_number(c, v << s);
    }
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(all_32bit, 0, 4096, 0) {
    uint64_t base = c.index << 20;
    for (uint64_t k = 0; k < (1u << 20); k++) {
        uint32_t v = (uint32_t)(base + k);
        unsigned n = (unsigned)__builtin_popcount(v);
        VM_CHECK(c, ke::IsPowerOfTwo(v) == (n == 1), "IsPowerOfTwo", "IsPowerOfTwo(0x%x)", v);
        if (!v)
            continue;
        unsigned top = 31 - (unsigned)__builtin_clz(v), low = (unsigned)__builtin_ctz(v);
        VM_CHECK(c, ke::Log2(v) == top && ke::FindLeftmostBit32(v) == top && ke::FindLeftmostBit64(v) == top, "leftmost", "leftmost bit of 0x%x", v);
        VM_CHECK(c, ke::FindRightmostBit(v) == low, "rightmost", "rightmost bit of 0x%x", v);
    }
    VM_COUNT("numbers", 1u << 20);
    c.sig(c.index);
    c.nontrivial();
}
// Small counts with small alignments, and counts just below the largest multiple.
SCENARIO(align_grid, 64, 64, 0) {
    unsigned s = (unsigned)c.index;
    uint64_t a = 1ull << s;
    for (uint64_t n = 0; n < 600; n++) {
        check_align(c, n, s);
        check_align(c, 0 - a - n, s);
        check_align(c, a * n, s);
        check_align(c, a * n + 1, s);
        check_align(c, a * n - 1, s);
    }
    c.sig(s);
    c.nontrivial();
}
SCENARIO(units, 1, 1, vm::kSingle) {
    using namespace vm;
    VM_CHECK(c, ke::kKB == 1024 && ke::kMB == 1048576 && ke::kGB == 1073741824, "units", "kKB, kMB or kGB is wrong");
    for (size_t n = 1; n < 5000; n += 7) {
        void* p = malloc(n);
        bool ok = ke::IsAligned(p, alignof(max_align_t));
        free(p);
        VM_CHECK(c, ok, "IsAligned", "a malloc block is not aligned");
    }
    c.nontrivial();
}

// Every block of at least that size from operator new and malloc has the alignment named for it, and
// objects of the most aligned scalar type fit.
SCENARIO(allocation_alignment, 20, 100, 0) {
    size_t a = ke::kMallocAlignment;
    VM_CHECK(c, ones(a) == 1 && a >= alignof(std::max_align_t), "kMallocAlignment", "kMallocAlignment is %zu, the strictest scalar needs %zu", a, alignof(std::max_align_t));
    std::vector<std::pair<char*, bool>> blocks;
    for (int i = 0; i < 200; i++) {
        size_t n = a + c.rng.below(i % 4 ? 200 : 100000);
        bool heap = c.rng.next() & 1;
        char* p = heap ? (char*)malloc(n) : new char[n];
        VM_CHECK(c, (uintptr_t)p % a == 0 && ke::IsAligned(p, a), "kMallocAlignment", "a block of %zu bytes is at %p, not aligned to kMallocAlignment (%zu)", n, (void*)p, a);
        blocks.emplace_back(p, heap);
        VM_COUNT("blocks", 1);
    }
    for (auto& b : blocks) {
        if (b.second)
            free(b.first);
        else
            delete[] b.first;
    }
    VM_CHECK(c, ke::kKB == 1024 && ke::kMB == 1024 * 1024 && ke::kGB == (size_t)1 << 30, "units", "kKB, kMB, kGB are %zu, %zu, %zu", ke::kKB, ke::kMB, ke::kGB);
    c.sig(c.index);
    c.nontrivial();
}
