// C08: FixedArray against std::vector.
#include "hash_common.h"
#include <amtl/am-fixedarray.h>
using vm::BigObj;
using vm::MoveObj;
using vm::Obj;

static AllocLog* g_def_log;
struct DefPolicy : public LogPolicy {  // for the constructors that take no policy
    DefPolicy() : LogPolicy(g_def_log) {}
};

template <typename T>
struct V {
    static T make(int v) { return T(v); }
    static int get(const T& t) { return (int)t; }
    static const bool tracked = false;
};
template <>
struct V<std::string> {
    static std::string make(int v) { return v == 0 ? std::string() : "string number " + std::to_string(v); }
    static int get(const std::string& t) { return t.empty() ? 0 : atoi(t.c_str() + 14); }
    static const bool tracked = false;
};
template <size_t P>
struct V<vm::ObjT<true, P>> {
    typedef vm::ObjT<true, P> T;
    static T make(int v) { return T(v); }
    static int get(const T& t) { return t.get(); }
    static const bool tracked = true;
};
template <>
struct V<MoveObj> {
    static MoveObj make(int v) { return MoveObj(v); }
    static int get(const MoveObj& t) { return t.get(); }
    static const bool tracked = true;
};

template <typename T, typename AP, bool kCopy>
struct Fuzz {
    typedef ke::FixedArray<T, AP> Arr;
    vm::Case& c;
    AllocLog& log;
    struct Slot {
        std::unique_ptr<Arr> a;
        std::vector<int> m;
    };
    Slot s[4];
    int64_t live0 = vm::L.live;
    Fuzz(vm::Case& c_, AllocLog& l) : c(c_), log(l) {}

    void verify(const char* what) {
        size_t total = 0;
        for (auto& x : s) {
            Arr& a = *x.a;
            const Arr& ca = a;
            VM_CHECK(c, a.size() == x.m.size() && a.empty() == x.m.empty(), "size", "size()=%zu empty()=%d, expected %zu after %s", a.size(), a.empty(), x.m.size(), what);
            VM_CHECK(c, a.initialize(), "initialize", "initialize() is false after %s", what);
            VM_CHECK(c, (size_t)(a.end() - a.begin()) == x.m.size() && a.begin() == ca.begin() && a.end() == ca.end(), "iterators", "end()-begin() wrong after %s", what);
            VM_CHECK(c, x.m.empty() || (a.buffer() == a.begin() && &a[0] == a.begin()), "iterators", "buffer() is not begin() after %s", what);
            for (size_t i = 0; i < x.m.size(); i++) {
                VM_CHECK(c, V<T>::get(ca[i]) == x.m[i] && V<T>::get(a.at(i)) == x.m[i] && &ca.at(i) == &a[i] && &a[i] == a.begin() + i, "value",
                         "element %zu of %zu is %d, expected %d after %s", i, x.m.size(), V<T>::get(ca[i]), x.m[i], what);
            }
            if (!x.m.empty())
                VM_CHECK(c, V<T>::get(a.back()) == x.m.back() && &ca.back() == &a.back(), "value", "back() wrong after %s", what);
            size_t k = 0;
            for (auto& e : a)
                VM_CHECK(c, V<T>::get(e) == x.m[k++], "value", "iteration yields a wrong element after %s", what);
            total += x.m.size();
        }
        if (V<T>::tracked)
            VM_CHECK(c, vm::L.live - live0 == (int64_t)total, "payload-count", "%" PRId64 " elements live, %zu expected after %s", vm::L.live - live0, total, what);
        size_t blocks = 0;
        for (auto& x : s)
            blocks += !x.m.empty();
        VM_CHECK(c, log.blocks <= 4 && log.blocks >= (int64_t)blocks, "blocks", "%" PRId64 " blocks for %zu non-empty arrays after %s", log.blocks, blocks, what);
        VM_COUNT("verifications", 1);
    }
    Arr* sized(size_t n, std::integral_constant<bool, true>) { return new Arr(n, AP()); }

    template <bool B>
    typename std::enable_if<B>::type copy_op(unsigned op, Slot& x, Slot& y, const char** what) {
        if (op == 0) {
            *what = "copy construction";
            x.a.reset();
            if (&x == &y) {
                x.a.reset(new Arr());
                x.m.clear();
            } else {
                x.a.reset(new Arr(*y.a));
                x.m = y.m;
            }
        } else if (op == 1) {
            *what = &x == &y ? "self assignment" : "copy assignment";
            Arr& r = (*x.a = *y.a);
            VM_CHECK(c, &r == x.a.get(), "assign-result", "operator= does not return *this");
            x.m = y.m;
            VM_COUNT("self_assignments", &x == &y);
        } else if (op == 2) {
            *what = "construction from vector";
            std::vector<T> v;
            x.m.clear();
            for (size_t i = 0, n = (size_t)c.rng.below(30); i < n; i++) {
                x.m.push_back((int)c.rng.below(100) + 1);
                v.push_back(V<T>::make(x.m.back()));
            }
            x.a.reset();
            x.a.reset(new Arr(v));
            for (size_t i = 0; i < v.size(); i++)
                VM_CHECK(c, V<T>::get(v[i]) == x.m[i], "source-changed", "the source vector changed");
        } else {
            *what = "comparison";
            bool eq = x.m == y.m;
            VM_CHECK(c, (*x.a == *y.a) == eq && (*x.a != *y.a) == !eq, "equality", "== is %d for arrays that are %sequal (sizes %zu, %zu)", *x.a == *y.a, eq ? "" : "un", x.m.size(), y.m.size());
            VM_COUNT("comparisons_equal", eq);
            VM_COUNT("comparisons_unequal", !eq);
        }
    }
    template <bool B>
    typename std::enable_if<!B>::type copy_op(unsigned, Slot&, Slot&, const char**) {}

    void run() {
        for (auto& x : s)
            x.a.reset(new Arr());
        verify("default construction");
        int steps = (int)c.rng.range(10, 60);
        for (int k = 0; k < steps; k++) {
            Slot& x = s[c.rng.below(4)];
            Slot& y = s[c.rng.below(4)];
            unsigned op = (unsigned)c.rng.below(12);
            const char* what = "nothing";
            size_t n = c.rng.chance(1, 6) ? 0 : c.rng.chance(1, 10) ? (size_t)c.rng.below(600) : (size_t)c.rng.below(12);
            switch (op) {
                case 0: case 1: case 2: case 3:
                    copy_op<kCopy>(op, x, y, &what);
                    break;
                case 4: case 5: {
                    what = "sized construction";
                    x.a.reset();
                    x.a.reset(new Arr(n, AP()));
                    x.m.assign(n, 0);
                    break;
                }
                case 6: {
                    what = "move construction";
                    if (&x == &y)
                        break;
                    uint64_t copies = vm::L.copy;
                    x.a.reset(new Arr(std::move(*y.a)));
                    VM_CHECK(c, vm::L.copy == copies, "move-copied", "elements were copied by a move construction");
                    x.m = y.m;
                    y.m.clear();
                    break;
                }
                case 7: {
                    what = "move assignment";
                    if (&x == &y) {
                        Arr& alias = *x.a;
                        *x.a = std::move(alias);
                        if (x.a->size() == 0)
                            x.m.clear();  // unspecified for a move, but consistent
                        VM_COUNT("self_moves", 1);
                        what = "self move";
                    } else {
                        uint64_t copies = vm::L.copy;
                        *x.a = std::move(*y.a);
                        VM_CHECK(c, vm::L.copy == copies, "move-copied", "elements were copied by a move assignment");
                        x.m = y.m;
                        y.m.clear();
                    }
                    break;
                }
                case 8: {
                    what = "construction from rvalue vector";
                    std::vector<T> v;
                    x.m.clear();
                    for (size_t i = 0; i < n; i++) {
                        x.m.push_back((int)c.rng.below(100) + 1);
                        v.push_back(V<T>::make(x.m.back()));
                    }
                    x.a.reset();
                    uint64_t copies = vm::L.copy;
                    x.a.reset(new Arr(std::move(v)));
                    VM_CHECK(c, vm::L.copy == copies, "vector-copied", "elements of an rvalue vector were copied");
                    break;
                }
                default: {
                    what = "writing";
                    for (size_t i = 0; i < x.m.size(); i++) {
                        if (c.rng.coin())
                            continue;
                        int v = (int)c.rng.below(1000) + 1;
                        T t = V<T>::make(v);
                        switch (c.rng.below(5)) {
                            case 0: (*x.a)[i] = std::move(t); break;
                            case 1: x.a->at(i) = std::move(t); break;
                            case 2: x.a->begin()[i] = std::move(t); break;
                            case 3: x.a->buffer()[i] = std::move(t); break;
                            default: *(x.a->end() - (x.m.size() - i)) = std::move(t); break;
                        }
                        x.m[i] = v;
                    }
                    if (!x.m.empty() && c.rng.coin()) {
                        x.a->back() = V<T>::make(77);
                        x.m.back() = 77;
                    }
                }
            }
            c.log("%s x=%d y=%d n=%zu", what, (int)(&x - s), (int)(&y - s), n);
            c.sig(op * 64 + (&x - s) * 4 + (&y - s));
            c.sig(x.m.size());
            verify(what);
        }
        for (auto& x : s)
            x.a.reset();
        if (V<T>::tracked)
            VM_CHECK(c, vm::L.live == live0, "payload-leak", "%" PRId64 " elements left", vm::L.live - live0);
        VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left", log.blocks);
        VM_COUNT("steps", steps);
        c.nontrivial();
    }
};
template <typename T, bool kCopy>
static void fuzz(vm::Case& c) {
    AllocLog log;
    g_def_log = &log;
    Fuzz<T, DefPolicy, kCopy> f(c, log);
    f.run();
}
SCENARIO(arr_int, 600, 20000, 0) { fuzz<int, true>(c); }
SCENARIO(arr_char, 300, 10000, 0) { fuzz<unsigned short, true>(c); }
SCENARIO(arr_string, 600, 20000, 0) { fuzz<std::string, true>(c); }
SCENARIO(arr_obj, 1200, 40000, 0) { fuzz<Obj, true>(c); }
SCENARIO(arr_big, 300, 10000, 0) { fuzz<BigObj, true>(c); }
SCENARIO(arr_may_throw, 300, 10000, 0) { fuzz<vm::MayThrowObj, true>(c); }
SCENARIO(arr_move, 600, 20000, 0) { fuzz<MoveObj, false>(c); }

// The default policy, large arrays, nested arrays: heap balance and ASan watch.
SCENARIO(default_policy, 60, 600, 0) {
    size_t n = (size_t)c.rng.below(c.index % 10 == 0 ? 200000 : 300);
    ke::FixedArray<uint64_t> a(n);
    for (size_t i = 0; i < n; i++)
        VM_CHECK(c, a[i] == 0, "value-init", "element %zu is not value-initialised", i);
    for (size_t i = 0; i < n; i++)
        a[i] = i * 7;
    ke::FixedArray<uint64_t> b(a), d, e(n / 2);
    d = a;
    e = a;
    VM_CHECK(c, a == b && a == d && e == a && !(a != b), "equality", "copies are not equal");
    if (n) {
        b[n / 2]++;
        VM_CHECK(c, !(a == b) && a != b, "independence", "a copy shares elements with its source");
        d[n - 1]++;
        VM_CHECK(c, a != d, "independence", "an assigned copy shares its last element, or == ignores it");
        ke::FixedArray<uint64_t> shorter(n - 1);
        for (size_t i = 0; i + 1 < n; i++)
            shorter[i] = a[i];
        VM_CHECK(c, shorter != a && !(a == shorter), "equality", "== ignores the size");
    }
    ke::FixedArray<ke::FixedArray<std::string>> nest(n % 7);
    for (auto& x : nest) {
        VM_CHECK(c, x.size() == 0, "value-init", "nested array is not empty");
        x = ke::FixedArray<std::string>(3);
        x[1] = "a string that does not fit into the small buffer";
    }
    ke::FixedArray<ke::FixedArray<std::string>> nest2(nest);
    for (auto& x : nest2)
        VM_CHECK(c, x.size() == 3 && x[1].size() == 48, "value", "nested copy lost a value");
    std::vector<std::string> v(n % 50, "another string that does not fit in the small buffer");
    ke::FixedArray<std::string> fv(v), fm(std::move(v));
    VM_CHECK(c, fv == fm && fm.size() == n % 50, "value", "arrays from vectors differ");
    c.log("n=%zu", n);
    c.sig(n);
    c.nontrivial();
    VM_COUNT("default_policy_cases", 1);
}

// Elements whose equality is not that of their bytes.
struct Padded {
    char a;
    int b;
    bool operator==(const Padded& o) const { return a == o.a && b == o.b; }
    bool operator!=(const Padded& o) const { return !(*this == o); }
};
struct Loose {  // equal modulo 10
    int v;
    bool operator==(const Loose& o) const { return v % 10 == o.v % 10; }
    bool operator!=(const Loose& o) const { return !(*this == o); }
};
static void fill(vm::Case& c, double& d) {
    static const double kValues[] = {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), 0.0, -0.0};
    d = kValues[c.rng.below(9)];
}
static void fill(vm::Case& c, float& f) {
    double d;
    fill(c, d);
    f = (float)d;
}
static void fill(vm::Case& c, Padded& p) {
    memset(static_cast<void*>(&p), (int)c.rng.below(256), sizeof(p));
    p.a = (char)c.rng.below(2);
    p.b = (int)c.rng.below(2);
}
static void fill(vm::Case& c, Loose& l) { l.v = (int)c.rng.below(3) * 10 + (int)c.rng.below(2); }
static void fill(vm::Case& c, std::string& t) { t = std::string(c.rng.below(40), 'x') + (c.rng.coin() ? std::string("\0a", 2) : std::string("\0b", 2)); }
static void fill(vm::Case& c, const char*& p) {
    static const char a[] = "same text", b[] = "same text";
    p = c.rng.coin() ? a : b;
}
template <typename T>
static void equality(vm::Case& c) {
    for (int k = 0; k < 200; k++) {
        size_t n = (size_t)c.rng.below(5), m = c.rng.chance(1, 4) ? (size_t)c.rng.below(5) : n;
        ke::FixedArray<T> x(n), y(m);
        for (auto& e : x)
            fill(c, e);
        for (auto& e : y)
            fill(c, e);
        if (c.rng.coin())
            for (size_t i = 0; i < n && i < m; i++)
                y[i] = x[i];
        bool eq = n == m;
        for (size_t i = 0; eq && i < n; i++)
            eq = x[i] == y[i];
        const ke::FixedArray<T>&cx = x, &cy = y;
        VM_CHECK(c, (cx == cy) == eq && (cy == cx) == eq && (cx != cy) == !eq && (cy != cx) == !eq, "equality",
                 "== is %d for arrays of sizes %zu and %zu whose elements compare %sequal", cx == cy, n, m, eq ? "" : "un");
        VM_COUNT("element_equalities", 1);
        c.sig(n * 8 + m + eq * 64);
    }
    c.nontrivial();
}
SCENARIO(equal_double, 60, 2000, 0) { equality<double>(c); }
SCENARIO(equal_float, 30, 1000, 0) { equality<float>(c); }
SCENARIO(equal_padded, 60, 2000, 0) { equality<Padded>(c); }
SCENARIO(equal_loose, 60, 2000, 0) { equality<Loose>(c); }
SCENARIO(equal_string, 30, 1000, 0) { equality<std::string>(c); }
SCENARIO(equal_pointer, 30, 1000, 0) { equality<const char*>(c); }
