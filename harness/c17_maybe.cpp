// C17: Maybe against a model, with object lifetimes and alignment.
#include <amtl/am-maybe.h>
#include <new>

#include <memory>
#include <string>
#include <vector>

#include "vm.h"
using vm::BigObj;
using vm::MoveObj;
using vm::Obj;
typedef vm::ObjT<true, 0, 16> A16;
typedef vm::ObjT<true, 0, 32> A32;
typedef vm::ObjT<true, 0, 64> A64;

template <typename T>
struct V {
    static T make(int v) { return T(v); }
    static int get(const T& t) { return t.get(); }
    static const bool kTracked = true, kCopy = true;
};
template <>
struct V<MoveObj> {
    static MoveObj make(int v) { return MoveObj(v); }
    static int get(const MoveObj& t) { return t.get(); }
    static const bool kTracked = true, kCopy = false;
};
template <typename I>
struct VInt {
    static I make(int v) { return (I)v; }
    static int get(const I& t) { return (int)t; }
    static const bool kTracked = false, kCopy = true;
};
template <>
struct V<int> : VInt<int> {};
template <>
struct V<signed char> {
    static signed char make(int v) { return (signed char)(v % 100); }
    static int get(const signed char& t) { return t; }
    static const bool kTracked = false, kCopy = true;
};
template <>
struct V<long double> : VInt<long double> {};
template <>
struct V<std::string> {
    static std::string make(int v) { return v % 2 ? std::to_string(v) : "a string that needs the heap " + std::to_string(v); }
    static int get(const std::string& s) { return atoi(s.size() > 25 ? s.c_str() + 28 : s.c_str()); }
    static const bool kTracked = false, kCopy = true;
};
template <>
struct V<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); }
    static int get(const std::unique_ptr<int>& p) {
        if (!p)
            vm::fail("value", "a contained pointer is null");
        return *p;
    }
    static const bool kTracked = false, kCopy = false;
};
template <>
struct V<ke::Maybe<Obj>> {
    static ke::Maybe<Obj> make(int v) {
        if (v % 3 == 0)
            return ke::Maybe<Obj>();
        return ke::Some(Obj(v));
    }
    static int get(const ke::Maybe<Obj>& m) { return m.isValid() ? m.get().get() : 0; }
    static const bool kTracked = false, kCopy = true;
};
template <>
struct V<std::vector<int>> {
    static std::vector<int> make(int v) { return std::vector<int>((size_t)(v % 5 + 1), v); }
    static int get(const std::vector<int>& s) { return s.empty() ? -1 : s[0]; }
    static const bool kTracked = false, kCopy = true;
};
template <typename T>
static int norm(int v) {
    return V<T>::get(V<T>::make(v));
}
template <typename T, bool Copy>
struct Copying {
    typedef ke::Maybe<T> M;
    static void assign(M& a, const M& b) { a = b; }
    static void construct(void* p, const M& b) { new (p) M(b); }
    static void construct_nc(void* p, M& b) { new (p) M(b); }
    static void init(M& a, const T& t) { a.init(t); }
    static M some(const T& t) { return ke::Some(t); }
    static M some_nc(T& t) { return ke::Some(t); }
};
template <typename T>
struct Copying<T, false> {
    typedef ke::Maybe<T> M;
    static void assign(M& a, const M&) { a = M(); }
    static void construct(void* p, const M&) { new (p) M(); }
    static void construct_nc(void* p, M&) { new (p) M(); }
    static void init(M& a, const T& t) { a.init(V<T>::make(V<T>::get(t))); }
    static M some(const T& t) { return ke::Some(V<T>::make(V<T>::get(t))); }
    static M some_nc(T& t) { return ke::Some(V<T>::make(V<T>::get(t))); }
};
template <typename T>
static void history(vm::Case& c) {
    typedef ke::Maybe<T> M;
    typedef Copying<T, V<T>::kCopy> Cp;
    static const int kSlots = 4;
    struct Holder {
        char before;
        M m;
        char after;
    };
    VM_CHECK(c, alignof(M) >= alignof(T), "alignment", "a Maybe has alignment %zu, what it holds %zu", alignof(M), alignof(T));
    vm::L.reset();
    {
        Holder h[kSlots];
        bool has[kSlots] = {};
        int val[kSlots] = {};
        for (auto& x : h)
            x.before = 0x11, x.after = 0x22;
        int steps = (int)c.rng.range(3, 80);
        for (int s = 0; s < steps; s++) {
            int i = (int)c.rng.below(kSlots), j = (int)c.rng.below(kSlots);
            unsigned op = (unsigned)c.rng.below(14);
            int v = norm<T>((int)c.rng.range(1, 1000));
            M &a = h[i].m, &b = h[j].m;
            const char* what = "nothing";
            switch (op) {
                case 0: case 1: {
                    what = "init";
                    if (op == 0) {
                        a.init(V<T>::make(v));
                    } else {
                        T t = V<T>::make(v);
                        Cp::init(a, t);
                        VM_CHECK(c, V<T>::get(t) == v, "source-changed", "init() from an lvalue changes it");
                    }
                    has[i] = true;
                    val[i] = v;
                    break;
                }
                case 2: case 3: {
                    what = "Some";
                    T t = V<T>::make(v);
                    switch (c.rng.below(3)) {
                        case 0: a = ke::Some(std::move(t)); break;
                        case 1:
                            a = Cp::some(t);
                            VM_CHECK(c, V<T>::get(t) == v, "source-changed", "Some() of a const lvalue changes it");
                            break;
                        default:
                            a = Cp::some_nc(t);
                            VM_CHECK(c, V<T>::get(t) == v, "source-changed", "Some() of an lvalue changes it");
                            break;
                    }
                    has[i] = true;
                    val[i] = v;
                    break;
                }
                case 4: case 5:
                    what = "copy assignment";
                    Cp::assign(a, b);
                    has[i] = V<T>::kCopy && has[j];
                    val[i] = val[j];
                    if (i == j) {
                        VM_COUNT("self_assignments", 1);
                        if (!V<T>::kCopy)
                            what = "assignment of an empty temporary";
                    }
                    break;
                case 6: case 7:
                    what = "move assignment";
                    a = std::move(b);
                    if (i == j) {
                        // Only required to keep the value or drop it.
                        if (has[i] && !a.isValid())
                            has[i] = false;
                        VM_COUNT("self_moves", 1);
                    } else {
                        has[i] = has[j];
                        val[i] = val[j];
                        has[j] = false;
                    }
                    break;
                case 8: case 9:
                    if (i == j)
                        break;
                    what = "copy construction";
                    a.~M();
                    if (op == 8)
                        Cp::construct(&a, b);
                    else
                        Cp::construct_nc(&a, b);
                    has[i] = V<T>::kCopy && has[j];
                    val[i] = val[j];
                    break;
                case 10:
                    if (i == j)
                        break;
                    what = "move construction";
                    a.~M();
                    new (&a) M(std::move(b));
                    has[i] = has[j];
                    val[i] = val[j];
                    has[j] = false;
                    break;
                case 11:
                    what = "emptying";
                    switch (c.rng.below(3)) {
                        case 0: a = ke::Nothing(); break;
                        case 1: a = M(); break;
                        default:
                            a.~M();
                            if (c.rng.coin())
                                new (&a) M(ke::Nothing());
                            else
                                new (&a) M();
                            break;
                    }
                    has[i] = false;
                    break;
                case 12:
                    if (has[i]) {
                        what = "write through an accessor";
                        switch (c.rng.below(3)) {
                            case 0: a.get() = V<T>::make(v); break;
                            case 1: *a = V<T>::make(v); break;
                            default: *a.operator->() = V<T>::make(v); break;
                        }
                        val[i] = v;
                    }
                    break;
                default: {
                    what = "swap";
                    if (i == j)
                        break;
                    std::swap(a, b);
                    std::swap(has[i], has[j]);
                    std::swap(val[i], val[j]);
                    break;
                }
            }
            c.log("%s %d %d", what, i, j);
            c.sig(op * 100 + (unsigned)(i * 10 + j));
            int64_t live = 0;
            for (int k = 0; k < kSlots; k++) {
                const M& cm = h[k].m;
                M& m = h[k].m;
                live += has[k];
                VM_CHECK(c, m.isValid() == has[k] && (bool)cm == has[k], "validity", "Maybe %d is %s after %s", k, has[k] ? "empty but was given a value" : "valid but has none", what);
                VM_CHECK(c, h[k].before == 0x11 && h[k].after == 0x22, "overrun", "a Maybe writes outside of itself");
                if (has[k]) {
                    VM_CHECK(c, V<T>::get(m.get()) == val[k] && V<T>::get(cm.get()) == val[k] && V<T>::get(*m) == val[k] && V<T>::get(*cm) == val[k], "value",
                             "Maybe %d holds %d, expected %d, after %s", k, V<T>::get(m.get()), val[k], what);
                    VM_CHECK(c, m.operator->() == &m.get() && cm.operator->() == &cm.get() && &*m == &m.get() && (const void*)&cm.get() == (const void*)&m.get(), "accessor",
                             "the accessors name different objects");
                    VM_CHECK(c, (uintptr_t)&m.get() % alignof(T) == 0, "alignment", "an object of alignment %zu is stored at %p", alignof(T), (void*)&m.get());
                }
            }
            if (V<T>::kTracked)
                VM_CHECK(c, vm::L.live == live, "live", "%" PRId64 " objects are alive in %" PRId64 " valid Maybes after %s", vm::L.live, live, what);
            VM_COUNT("verifications", 1);
        }
        VM_COUNT("steps", steps);
    }
    VM_CHECK(c, vm::L.live == 0, "live", "%" PRId64 " objects outlive their Maybe", vm::L.live);
    c.nontrivial();
}
#define HIST(name, T) \
    SCENARIO(hist_##name, 500, 20000, 0) { history<T>(c); }
HIST(obj, Obj)
HIST(big, BigObj)
HIST(move_only, MoveObj)
HIST(align16, A16)
HIST(align32, A32)
HIST(align64, A64)
HIST(integer, int)
HIST(byte, signed char)
HIST(long_double, long double)
HIST(string, std::string)
HIST(unique, std::unique_ptr<int>)
HIST(nested, ke::Maybe<Obj>)
HIST(vector, std::vector<int>)

// init() with several arguments, references and none; operator-> on members.
struct Multi {
    int a;
    std::string b;
    std::unique_ptr<int> p;
    int* ref;
    Multi() : a(-1), ref(nullptr) {}
    Multi(int a_, const std::string& b_, std::unique_ptr<int> p_, int& r) : a(a_), b(b_), p(std::move(p_)), ref(&r) {}
};
SCENARIO(arguments, 100, 1000, 0) {
    int v = (int)c.rng.below(1000), x = 0;
    std::string s = "text " + std::to_string(v);
    ke::Maybe<Multi> m;
    m.init(v, s, std::unique_ptr<int>(new int(v)), x);
    VM_CHECK(c, m->a == v && m->b == s && *m->p == v && m->ref == &x && s.size() > 4, "init-arguments", "init() does not pass on its arguments");
    const ke::Maybe<Multi>& cm = m;
    VM_CHECK(c, cm->a == v && (*cm).ref == &x, "accessor", "const access");
    m.init();
    VM_CHECK(c, m->a == -1 && m->b.empty() && !m->p && !m->ref, "init-arguments", "init() without arguments");
    // Types for which T(a, b) and T{a, b} mean different things.
    int many = 1 + (int)c.rng.below(50);
    ke::Maybe<std::vector<int>> numbers;
    numbers.init(many, 7);
    VM_CHECK(c, *numbers == std::vector<int>(many, 7), "init-arguments", "init(%d, 7) of a vector makes one of %zu elements", many, numbers->size());
    numbers.init(many);
    VM_CHECK(c, *numbers == std::vector<int>(many), "init-arguments", "init(%d) of a vector makes one of %zu elements", many, numbers->size());
    ke::Maybe<std::string> text;
    text.init(many, 'x');
    VM_CHECK(c, *text == std::string(many, 'x'), "init-arguments", "init(%d, 'x') of a string makes \"%s\"", many, text->c_str());
    std::vector<ke::Maybe<std::string>> vec;
    for (int i = 0; i < 20; i++) {
        if (i % 3)
            vec.push_back(ke::Some(std::string("element with a long text ") + std::to_string(i)));
        else
            vec.push_back(ke::Nothing());
    }
    vec.erase(vec.begin() + 4);
    for (int i = 0; i < 19; i++) {
        int k = i < 4 ? i : i + 1;
        VM_CHECK(c, vec[i].isValid() == (k % 3 != 0), "validity", "element %d of a vector of Maybes", i);
        if (k % 3)
            VM_CHECK(c, *vec[i] == "element with a long text " + std::to_string(k), "value", "element %d of a vector of Maybes", i);
    }
    c.sig((uint64_t)v);
    c.nontrivial();
}
// Assigning to a Maybe another one that lives inside its value.
struct Link {
    ke::Maybe<std::unique_ptr<Link>> next;
    vm::Obj o;
    explicit Link(int v) : o(v) {}
};
struct Tree {
    std::shared_ptr<ke::Maybe<Tree>> next;
    vm::Obj o;
    explicit Tree(int v) : o(v) {}
};
SCENARIO(chains, 200, 2000, 0) {
    vm::L.reset();
    {
        int n = (int)c.rng.range(1, 20);
        ke::Maybe<std::unique_ptr<Link>> head;
        ke::Maybe<Tree> tree;
        for (int i = 0; i < n; i++) {
            std::unique_ptr<Link> l(new Link(i));
            l->next = std::move(head);
            head = ke::Some(std::move(l));
            Tree t(i);
            t.next = std::make_shared<ke::Maybe<Tree>>(tree);
            tree = ke::Some(t);
        }
        for (int i = n - 1; i >= 0; i--) {
            VM_CHECK(c, head.isValid() && (*head)->o.get() == i && tree.isValid() && tree->o.get() == i, "value", "element %d of a chain of Maybes", i);
            head = std::move((*head)->next);
            if (c.rng.coin())
                tree = *tree->next;
            else
                tree = std::move(*tree->next);
            VM_COUNT("chain_assignments", 1);
        }
        VM_CHECK(c, !head.isValid() && !tree.isValid(), "validity", "the end of a chain of Maybes is valid");
        c.sig((uint64_t)n);
    }
    VM_CHECK(c, vm::L.live == 0, "live", "%" PRId64 " objects outlive their Maybe", vm::L.live);
    c.nontrivial();
}

// What init() constructs is constructed in place, from its arguments, after the old value is gone: also for types that
// can be neither copied, moved nor assigned, and for those where assignment means something else.
struct Immovable {
    static int constructed, destroyed, alive;
    const int v;
    Immovable* self;
    explicit Immovable(int v) : v(v), self(this) { constructed++; alive++; }
    Immovable(const Immovable&) = delete;
    Immovable& operator=(const Immovable&) = delete;
    ~Immovable() { destroyed++; alive--; }
};
int Immovable::constructed, Immovable::destroyed, Immovable::alive;
struct Tally {
    static int built, copied, moved, assigned, destroyed;
    static void zero() { built = copied = moved = assigned = destroyed = 0; }
    const int v;
    explicit Tally(int v) : v(v) { built++; }
    Tally(const Tally& o) : v(o.v) { copied++; }
    Tally(Tally&& o) : v(o.v) { moved++; }
    // Does what an assignment can do here: nothing.
    Tally& operator=(const Tally&) { assigned++; return *this; }
    ~Tally() { destroyed++; }
};
int Tally::built, Tally::copied, Tally::moved, Tally::assigned, Tally::destroyed;
SCENARIO(in_place, 300, 3000, 0) {
    int n = (int)c.rng.range(1, 12);
    Immovable::constructed = Immovable::destroyed = Immovable::alive = 0;
    {
        ke::Maybe<Immovable> m;
        VM_CHECK(c, !m.isValid() && Immovable::constructed == 0, "validity", "an empty Maybe holds an object");
        for (int i = 0; i < n; i++) {
            int v = (int)c.rng.below(1000);
            m.init(v);
            VM_CHECK(c, m.isValid() && m->v == v && m->self == &*m, "value", "init() did not construct the value in place (%d, expected %d)", m->v, v);
            VM_CHECK(c, Immovable::alive == 1 && Immovable::constructed == i + 1 && Immovable::destroyed == i, "live", "%d alive, %d constructed, %d destroyed after %d times init()",
                     Immovable::alive, Immovable::constructed, Immovable::destroyed, i + 1);
            VM_COUNT("in_place_constructions", 1);
        }
        c.sig((uint64_t)n);
    }
    VM_CHECK(c, Immovable::alive == 0 && Immovable::destroyed == n, "live", "%d immovable objects outlive their Maybe", Immovable::alive);
    Tally::zero();
    {
        ke::Maybe<Tally> a, b;
        a.init(1);
        a.init(2);
        VM_CHECK(c, a->v == 2, "value", "after init(2) a Maybe holds %d", a->v);
        b.init(3);
        a = b;
        VM_CHECK(c, a->v == 3 && b->v == 3, "value", "copy assignment gives %d, expected 3", a->v);
        int copies = Tally::copied;
        b.init(4);
        a = std::move(b);
        VM_CHECK(c, a->v == 4 && !b.isValid(), "value", "move assignment gives %d, expected 4", a->v);
        ke::Maybe<Tally> d(std::move(a));
        VM_CHECK(c, d->v == 4 && !a.isValid(), "value", "move construction gives %d, expected 4", d->v);
        b = ke::Some(Tally(5));
        VM_CHECK(c, b->v == 5, "value", "Some() gives %d, expected 5", b->v);
        VM_CHECK(c, Tally::copied == copies, "copied", "moving Maybes around copied the value %d times", Tally::copied - copies);
        std::swap(b, d);
        VM_CHECK(c, b->v == 4 && d->v == 5, "value", "swapping gives %d and %d", b->v, d->v);
        int before = Tally::built + Tally::copied + Tally::moved - Tally::destroyed;
        VM_CHECK(c, before == 2, "live", "%d objects are alive in two valid Maybes", before);
        b = ke::Nothing();
        VM_CHECK(c, Tally::built + Tally::copied + Tally::moved - Tally::destroyed == 1, "live", "emptying a Maybe does not destroy its value");
    }
    VM_CHECK(c, Tally::built + Tally::copied + Tally::moved == Tally::destroyed, "live", "objects outlive their Maybe");
    c.nontrivial();
}
