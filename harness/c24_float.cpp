// C24: float classification and modulo against bit-level and exact integer references.
#include <amtl/am-float.h>

#include "vm.h"

typedef unsigned __int128 u128;

template <typename T>
struct Fmt;
template <>
struct Fmt<float> {
    typedef uint32_t U;
    static const int kMant = 23, kExp = 8;
};
template <>
struct Fmt<double> {
    typedef uint64_t U;
    static const int kMant = 52, kExp = 11;
};
template <typename T>
static typename Fmt<T>::U bits_of(T v) {
    typename Fmt<T>::U u;
    memcpy(&u, &v, sizeof(u));
    return u;
}
template <typename T>
static T from_bits(typename Fmt<T>::U u) {
    T v;
    memcpy(&v, &u, sizeof(v));
    return v;
}
template <typename T>
struct Parts {
    bool neg, nan, inf;
    uint64_t mant;  // value = mant * 2^exp
    int exp;
    explicit Parts(T v) {
        typedef Fmt<T> F;
        uint64_t u = bits_of(v);
        uint64_t m = u & ((1ull << F::kMant) - 1);
        int e = (int)(u >> F::kMant) & ((1 << F::kExp) - 1);
        neg = u >> (F::kMant + F::kExp) & 1;
        nan = e == (1 << F::kExp) - 1 && m;
        inf = e == (1 << F::kExp) - 1 && !m;
        int bias = (1 << (F::kExp - 1)) - 1 + F::kMant;
        if (e == 0) {
            mant = m;
            exp = 1 - bias;
        } else {
            mant = m | (1ull << F::kMant);
            exp = e - bias;
        }
    }
};
// Assembles mant * 2^exp, which must be representable.
template <typename T>
static T assemble(bool neg, uint64_t mant, int exp) {
    typedef Fmt<T> F;
    int bias = (1 << (F::kExp - 1)) - 1 + F::kMant;
    typename F::U u = 0;
    if (mant) {
        while (mant >> (F::kMant + 1)) {
            if (mant & 1)
                vm::fail("harness", "reference remainder is not representable");
            mant >>= 1;
            exp++;
        }
        while (!(mant >> F::kMant) && exp > 1 - bias) {
            mant <<= 1;
            exp--;
        }
        if (mant >> F::kMant)
            u = ((typename F::U)(exp + bias) << F::kMant) | (typename F::U)(mant & ((1ull << F::kMant) - 1));
        else
            u = (typename F::U)mant;
    }
    if (neg)
        u |= (typename F::U)1 << (F::kMant + F::kExp);
    return from_bits<T>(u);
}
template <typename T>
static T reference(T x, T y, bool* nan) {
    Parts<T> a(x), b(y);
    *nan = a.nan || b.nan || a.inf || (!b.inf && !b.mant);
    if (*nan)
        return T();
    if (b.inf || !a.mant)
        return x;
    if (a.exp >= b.exp) {
        uint64_t r = a.mant % b.mant;
        for (int i = a.exp - b.exp; i > 0 && r; i--)
            r = r * 2 % b.mant;
        return assemble<T>(a.neg, r, b.exp);
    }
    int d = b.exp - a.exp;
    if (d >= 64)
        return x;
    uint64_t r = (uint64_t)((u128)a.mant % ((u128)b.mant << d));
    return assemble<T>(a.neg, r, a.exp);
}
template <typename T>
static void classify(vm::Case& c, T v) {
    Parts<T> p(v);
    uint64_t u = bits_of(v);
    VM_CHECK(c, ke::IsNaN(v) == p.nan, "IsNaN", "IsNaN is %d for bits %" PRIx64, ke::IsNaN(v), u);
    VM_CHECK(c, ke::IsInfinite(v) == p.inf, "IsInfinite", "IsInfinite is %d for bits %" PRIx64, ke::IsInfinite(v), u);
    typedef ke::float_bits<T> FB;
    VM_CHECK(c, FB::to_layout(v).bits == u, "float_bits", "float_bits of %" PRIx64 " is %" PRIx64, u, (uint64_t)FB::to_layout(v).bits);
    VM_CHECK(c, bits_of((T)FB::to_layout(v).value) == u || p.nan, "float_bits", "the value of float_bits of %" PRIx64 " differs", u);
    VM_COUNT("classified", 1);
    if (p.nan)
        VM_COUNT("nans", 1);
}
template <typename T>
static void modulo(vm::Case& c, T x, T y) {
    bool nan;
    T want = reference(x, y, &nan);
    T got = ke::FloatModulo(x, y);
    if (nan)
        VM_CHECK(c, got != got, "FloatModulo-nan", "FloatModulo(%a, %a) is %a, not NaN", (double)x, (double)y, (double)got);
    else
        VM_CHECK(c, bits_of(got) == bits_of(want), "FloatModulo", "FloatModulo(%a, %a) is %a, expected %a", (double)x, (double)y, (double)got, (double)want);
    VM_COUNT("modulos", 1);
    if (nan)
        VM_COUNT("modulos_nan", 1);
}
template <typename T>
static T random_value(vm::Rng& r) {
    typedef Fmt<T> F;
    typedef typename F::U U;
    U sign = r.coin() ? (U)1 << (F::kMant + F::kExp) : 0;
    switch (r.below(8)) {
        case 0: return from_bits<T>((U)r.next());
        case 1: return from_bits<T>((U)r.next() & (((U)1 << F::kMant) - 1));  // denormal
        case 2: return (T)(int64_t)r.range(-1000, 1000);
        case 3: return from_bits<T>(sign | ((U)r.below(1 << F::kExp) << F::kMant));  // powers of two, 0, inf
        case 4: return from_bits<T>((sign | ((U)r.below(1 << F::kExp) << F::kMant)) ^ (U)r.below(4));
        case 5: return (T)(int64_t)r.wide();
        case 6: return (T)((double)r.range(-1000, 1000) / 8);
        default: {  // exponents near each other
            U e = (U)(((1 << F::kExp) / 2) + (int)r.below(40) - 20);
            return from_bits<T>(sign | e << F::kMant | ((U)r.next() & (((U)1 << F::kMant) - 1)));
        }
    }
}
template <typename T>
static std::vector<T> specials() {
    typedef Fmt<T> F;
    typedef typename F::U U;
    std::vector<T> v;
    U maxexp = ((U)1 << F::kExp) - 1, one = 1, sign = one << (F::kMant + F::kExp), mask = (one << F::kMant) - 1;
    U list[] = {0, 1, 2, 3, mask, mask - 1, mask + 1, mask + 2, maxexp << F::kMant, (maxexp << F::kMant) - 1, (maxexp << F::kMant) - 2,
                (maxexp << F::kMant) | 1, (maxexp << F::kMant) | (one << (F::kMant - 1)), (maxexp << F::kMant) | mask, (maxexp << F::kMant) | (one << (F::kMant - 1)) | 1,
                (maxexp << F::kMant) | (one << (F::kMant / 2)), (maxexp << F::kMant) | (one << (F::kMant - 4)), (maxexp << F::kMant) | (one << (F::kMant - 5))};
    for (U u : list) {
        v.push_back(from_bits<T>(u));
        v.push_back(from_bits<T>(u | sign));
    }
    double nums[] = {1, 2, 3, 0.1, 0.5, 1.5, 42, 1e10, 1e-10, 3.14159, 7, 16777216, 16777217, 9007199254740993.0, 1e30, 5.3, 0.3};
    for (double d : nums) {
        v.push_back((T)d);
        v.push_back((T)-d);
    }
    for (int e = 0; e < (1 << F::kExp); e += F::kExp == 8 ? 7 : 61)
        v.push_back(from_bits<T>((U)e << F::kMant));
    return v;
}
template <typename T>
static void special_pairs(vm::Case& c) {
    vm::NoCount nc;
    std::vector<T> v = specials<T>();
    T x = v[c.index % v.size()];
    classify(c, x);
    for (T y : v)
        modulo(c, x, y);
    c.sig(bits_of(x));
    c.nontrivial();
    c.log("special value %a against all special values", (double)x);
}
SCENARIO(specials_float, 110, 110, 0) { special_pairs<float>(c); }
SCENARIO(specials_double, 110, 110, 0) { special_pairs<double>(c); }

template <typename T>
static void random_case(vm::Case& c) {
    for (int i = 0; i < 300; i++) {
        T x = random_value<T>(c.rng), y = random_value<T>(c.rng);
        classify(c, x);
        modulo(c, x, y);
        if (y == y)
            modulo(c, (T)(y * (T)c.rng.range(-20, 20)), y);  // multiples and near-multiples
        c.sig(bits_of(x));
        if (c.tracing && i == 0)
            c.log("FloatModulo(%a, %a) ...", (double)x, (double)y);
    }
    c.nontrivial();
}
SCENARIO(random_float, 1500, 60000, 0) { random_case<float>(c); }
SCENARIO(random_double, 1500, 60000, 0) { random_case<double>(c); }

// Every exponent with chosen mantissas (all NaN and infinity patterns of one bit included).
template <typename T>
static void exponents(vm::Case& c) {
    typedef Fmt<T> F;
    typedef typename F::U U;
    for (U s = 0; s < 2; s++) {
        U base = s << (F::kMant + F::kExp) | ((U)c.index % ((U)1 << F::kExp)) << F::kMant;
        classify(c, from_bits<T>(base));
        for (int i = 0; i < F::kMant; i++) {
            classify(c, from_bits<T>(base | (U)1 << i));
            classify(c, from_bits<T>(base | (((U)1 << F::kMant) - 1) >> i));
            classify(c, from_bits<T>(base | ((U)c.rng.next() & (((U)1 << F::kMant) - 1))));
        }
    }
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(exponents_float, 256, 256, 0) { exponents<float>(c); }
SCENARIO(exponents_double, 2048, 2048, 0) { exponents<double>(c); }

// Thorough: every float.
SCENARIO(all_floats, 0, 4096, 0) {
    for (uint64_t k = 0; k < (1u << 20); k++)
        classify(c, from_bits<float>((uint32_t)((c.index << 20) + k)));
    c.sig(c.index);
    c.nontrivial();
}
