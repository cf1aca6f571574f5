// C25: Flags and the enum operator macros against integer arithmetic.
#include <amtl/am-flags.h>
#include <amtl/am-enum.h>

#include <type_traits>
#include <utility>

#include "vm.h"

#define ENUMS(X)                                                                                   \
    X(U8, uint8_t) X(S8, int8_t) X(U16, uint16_t) X(S16, int16_t) X(U32, uint32_t) X(S32, int32_t) \
    X(U64, uint64_t) X(S64, int64_t) X(Ch, char) X(Sz, size_t) X(ULL, unsigned long long)
#define DEF(N, T)                                                    \
    enum class E##N : T { A = 1, B = 2, C = 4 };                     \
    KE_DEFINE_ENUM_OPERATORS(E##N)                                   \
    enum class P##N : T { A, B }; /* without operators, for Flags */
ENUMS(DEF)
// Plain enum with a fixed type, and comparators with an integer.
enum Plain : uint32_t { kPlainA = 1 };
KE_DEFINE_ENUM_OPERATORS(Plain)
enum class CmpU : uint16_t {};
KE_DEFINE_ENUM_COMPARATORS(CmpU, uint16_t)
enum class CmpS : int64_t {};
KE_DEFINE_ENUM_COMPARATORS(CmpS, int64_t)
enum class CmpW : int8_t {};
KE_DEFINE_ENUM_COMPARATORS(CmpW, int)

template <typename E, typename I>
static void enum_ops(vm::Case& c, I x, I y) {
    const E a = (E)x, b = (E)y;
#define ENUM_IS(expr, want)                                                                       \
    do {                                                                                          \
        I got_ = (I)(expr), want_ = (I)(want);                                                    \
        VM_CHECK(c, got_ == want_, #expr, #expr " with a=%" PRIx64 " b=%" PRIx64 " is %" PRIx64 ", expected %" PRIx64, \
                 (uint64_t)x, (uint64_t)y, (uint64_t)got_, (uint64_t)want_);                      \
    } while (0)
    ENUM_IS(a | b, x | y);
    ENUM_IS(a & b, x & y);
    ENUM_IS(a ^ b, x ^ y);
    ENUM_IS(~a, ~x);
    ENUM_IS(!a, x == 0);
#define ENUM_ASSIGN(op)                                                                           \
    do {                                                                                          \
        E l = a, r = b;                                                                           \
        E& res = (l op## = r);                                                                    \
        ENUM_IS(l, x op y);                                                                       \
        ENUM_IS(r, y);                                                                            \
        VM_CHECK(c, &res == &l, "assign-result", "an assignment operator does not return its left operand"); \
        E s = a;                                                                                  \
        s op## = s;                                                                               \
        ENUM_IS(s, x op x);                                                                       \
    } while (0)
    ENUM_ASSIGN(|);
    ENUM_ASSIGN(&);
    ENUM_ASSIGN(^);
    VM_COUNT("enum_pairs", 1);
}
template <typename E, typename I>
static void flag_ops(vm::Case& c, I x, I y) {
    typedef ke::Flags<E> F;
    VM_CHECK(c, (std::is_same<typename F::IntType, I>::value), "underlying-type", "IntType of Flags is not the underlying type");
    VM_CHECK(c, (std::is_same<typename ke::enum_integral_type<E>::type, I>::value), "underlying-type", "enum_integral_type is not the underlying type");
    const F a((E)x), b((E)y);
    const E e = (E)y;
#define FLAG_IS(expr, want)                                                                       \
    do {                                                                                          \
        I got_ = (expr).bits(), want_ = (I)(want);                                                \
        VM_CHECK(c, got_ == want_, #expr, #expr " with a=%" PRIx64 " b=%" PRIx64 " is %" PRIx64 ", expected %" PRIx64, \
                 (uint64_t)x, (uint64_t)y, (uint64_t)got_, (uint64_t)want_);                      \
        VM_CHECK(c, a.bits() == x && b.bits() == y, "operand-changed", #expr " changes an operand"); \
    } while (0)
    FLAG_IS(a, x);
    FLAG_IS(F(), 0);
    FLAG_IS(F(a), x);
    VM_CHECK(c, a.get() == (E)x, "get", "get() of %" PRIx64, (uint64_t)x);
    FLAG_IS(a + b, x | y);
    FLAG_IS(a - b, x & ~y);
    FLAG_IS(a | b, x | y);
    FLAG_IS(a & b, x & y);
    FLAG_IS(a ^ b, x ^ y);
    FLAG_IS(a + e, x | y);
    FLAG_IS(a - e, x & ~y);
    FLAG_IS(a | e, x | y);
    FLAG_IS(a & e, x & y);
    FLAG_IS(a ^ e, x ^ y);
    VM_CHECK(c, (a == b) == (x == y) && (a != b) == (x != y) && (a == e) == (x == y) && (a != e) == (x != y), "compare",
             "== and != of %" PRIx64 " and %" PRIx64, (uint64_t)x, (uint64_t)y);
    VM_CHECK(c, (bool)a == (x != 0) && !a == (x == 0), "bool", "bool or ! of %" PRIx64, (uint64_t)x);
#define FLAG_ASSIGN(op, want, wantself)                                                           \
    do {                                                                                          \
        F l(a), r(b);                                                                             \
        F& res = (l op r);                                                                        \
        FLAG_IS(l, want);                                                                         \
        FLAG_IS(r, y);                                                                            \
        VM_CHECK(c, &res == &l, "assign-result", "an assignment operator does not return its left operand"); \
        F l2(a);                                                                                  \
        l2 op e;                                                                                  \
        FLAG_IS(l2, want);                                                                        \
        F s(a);                                                                                   \
        F& s2 = s;                                                                                \
        s op s2;                                                                                  \
        FLAG_IS(s, wantself);                                                                     \
    } while (0)
    FLAG_ASSIGN(+=, x | y, x);
    FLAG_ASSIGN(-=, x & ~y, 0);
    FLAG_ASSIGN(|=, x | y, x);
    FLAG_ASSIGN(&=, x & y, x);
    FLAG_ASSIGN(^=, x ^ y, 0);
    FLAG_ASSIGN(=, y, x);
    VM_COUNT("flag_pairs", 1);
}
template <typename E, typename I>
static void comparators(vm::Case& c, I x, I y) {
    E a = (E)x;
    bool eq = x == y;
    VM_CHECK(c, (a == y) == eq && (y == a) == eq && (a != y) == !eq && (y != a) == !eq, "comparators",
             "comparison of enum %" PRIx64 " and integer %" PRIx64, (uint64_t)x, (uint64_t)y);
    VM_COUNT("comparisons", 1);
}
static void all_types(vm::Case& c, uint64_t x, uint64_t y) {
#define RUN(N, T)                     \
    enum_ops<E##N, T>(c, (T)x, (T)y); \
    flag_ops<P##N, T>(c, (T)x, (T)y); \
    flag_ops<E##N, T>(c, (T)x, (T)y);
    ENUMS(RUN)
    enum_ops<Plain, uint32_t>(c, (uint32_t)x, (uint32_t)y);
    flag_ops<Plain, uint32_t>(c, (uint32_t)x, (uint32_t)y);
    comparators<CmpU, uint16_t>(c, (uint16_t)x, (uint16_t)y);
    comparators<CmpU, uint16_t>(c, (uint16_t)x, (uint16_t)x);
    comparators<CmpS, int64_t>(c, (int64_t)x, (int64_t)y);
    comparators<CmpS, int64_t>(c, (int64_t)x, (int64_t)x);
    CmpW w = (CmpW)(int8_t)x;
    int v = (int)(int32_t)y;
    VM_CHECK(c, (w == v) == ((int8_t)x == v) && (v != w) == ((int8_t)x != v), "comparators", "comparison of int8_t enum %d with int %d", (int8_t)x, v);
}
// Every pair of 8-bit values (on all types), and every pair of single bits and their complements.
SCENARIO(all_bytes, 256, 256, 0) {
    for (uint64_t y = 0; y < 256; y++)
        all_types(c, c.index, y);
    c.sig(c.index);
    c.nontrivial();
    c.log("all pairs of 0x%" PRIx64 " and a byte", c.index);
}
SCENARIO(single_bits, 128, 128, 0) {
    uint64_t x = 1ull << (c.index % 64);
    if (c.index >= 64)
        x = ~x;
    for (unsigned j = 0; j < 64; j++) {
        all_types(c, x, 1ull << j);
        all_types(c, x, ~(1ull << j));
        all_types(c, x, 0 - (1ull << j));
    }
    c.sig(x);
    c.nontrivial();
}
SCENARIO(random_pairs, 1500, 60000, 0) {
    for (int i = 0; i < 30; i++) {
        uint64_t x = c.rng.coin() ? c.rng.next() : c.rng.wide(), y = c.rng.coin() ? c.rng.next() : c.rng.wide();
        all_types(c, x, y);
        all_types(c, x, x ^ (1ull << c.rng.below(64)));
        c.sig(x ^ vm::mix64(y));
    }
    c.nontrivial();
}
