// C29: vector and deque helpers edit exactly as specified, moving and never copying.
#include <amtl/am-deque.h>
#include "vm.h"

#include <amtl/am-vector.h>
#include <memory>

static uint64_t g_value_copies;  // of Counted
// A movable value whose copies are counted; a moved-from one says so.
struct Counted {
    int v;
    bool moved = false;
    Counted(int x) : v(x) {}
    Counted(const Counted& o) : v(o.v), moved(o.moved) { g_value_copies++; }
    Counted(Counted&& o) noexcept : v(o.v), moved(o.moved) { o.moved = true; o.v = -1; }
    Counted& operator=(const Counted& o) { v = o.v; moved = o.moved; g_value_copies++; return *this; }
    Counted& operator=(Counted&& o) noexcept {
        int nv = o.v;
        bool nm = o.moved;
        o.v = -1;
        o.moved = true;
        v = nv;
        moved = nm;
        return *this;
    }
};
// The same, but its move constructor is not noexcept.
struct MayThrow : Counted {
    MayThrow(int x) : Counted(x) {}
    MayThrow(const MayThrow& o) noexcept(false) : Counted(o) {}
    MayThrow(MayThrow&& o) noexcept(false) : Counted(std::move(o)) {}
    MayThrow& operator=(const MayThrow& o) { Counted::operator=(o); return *this; }
    MayThrow& operator=(MayThrow&& o) noexcept(false) { Counted::operator=(std::move(o)); return *this; }
};
// Traits: make, read, copies so far, whether it can be copied.
template <typename T> struct Tr;
template <> struct Tr<int> {
    static int make(int v) { return v; }
    static int get(const int& x) { return x; }
    static const bool copyable = true;
    static const char* name() { return "int"; }
};
template <> struct Tr<std::string> {
    static std::string make(int v) { return "a string that is too long for its own buffer " + std::to_string(v); }
    static int get(const std::string& x) { return x.size() > 45 ? atoi(x.c_str() + 45) : -2; }
    static const bool copyable = true;
    static const char* name() { return "string"; }
};
template <> struct Tr<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); }
    static int get(const std::unique_ptr<int>& x) { return x ? *x : -2; }
    static const bool copyable = false;
    static const char* name() { return "unique_ptr"; }
};
template <> struct Tr<vm::Obj> {
    static vm::Obj make(int v) { return vm::Obj(v); }
    static int get(const vm::Obj& x) { return x.get(); }
    static const bool copyable = true;
    static const char* name() { return "Obj"; }
};
template <> struct Tr<vm::BigObj> {
    static vm::BigObj make(int v) { return vm::BigObj(v); }
    static int get(const vm::BigObj& x) { return x.get(); }
    static const bool copyable = true;
    static const char* name() { return "BigObj"; }
};
template <> struct Tr<vm::MoveObj> {
    static vm::MoveObj make(int v) { return vm::MoveObj(v); }
    static int get(const vm::MoveObj& x) { return x.get(); }
    static const bool copyable = false;
    static const char* name() { return "MoveObj"; }
};
template <> struct Tr<Counted> {
    static Counted make(int v) { return Counted(v); }
    static int get(const Counted& x) { return x.moved ? -2 : x.v; }
    static const bool copyable = true;
    static const char* name() { return "Counted"; }
};
template <> struct Tr<MayThrow> {
    static MayThrow make(int v) { return MayThrow(v); }
    static int get(const MayThrow& x) { return x.moved ? -2 : x.v; }
    static const bool copyable = true;
    static const char* name() { return "MayThrow"; }
};
static uint64_t copies() { return vm::L.copy + vm::L.copy_assign + g_value_copies; }

// An allocator with an identity, so that moving between unequal ones moves the elements.
template <typename T>
struct Alloc {
    typedef T value_type;
    int id;
    explicit Alloc(int i = 0) : id(i) {}
    template <typename U> Alloc(const Alloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    bool operator==(const Alloc& o) const { return id == o.id; }
    bool operator!=(const Alloc& o) const { return id != o.id; }
};

typedef std::vector<int> Model;
template <typename C>
static void same(vm::Case& c, const char* op, const C& got, const Model& want) {
    typedef typename C::value_type T;
    VM_CHECK(c, got.size() == want.size(), "size", "%s on %s leaves %zu elements, expected %zu", op, Tr<T>::name(), got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        int g = Tr<T>::get(got[i]);
        VM_CHECK(c, g == want[i], "content", "%s on %s leaves %d at %zu, expected %d", op, Tr<T>::name(), g, i, want[i]);
    }
    VM_COUNT("verifications", 1);
}
#define NO_COPY(op, expr)                                                                          \
    do {                                                                                           \
        uint64_t before_ = copies();                                                               \
        expr;                                                                                      \
        VM_CHECK(c, copies() == before_, "copies", "%s on %s copies %d elements", op, Tr<T>::name(), \
                 (int)(copies() - before_));                                                       \
        VM_COUNT("copy_free", 1);                                                                  \
    } while (0)

template <typename T, typename V, bool Copyable = Tr<T>::copyable>
struct InsertConst {
    static void run(vm::Case& c, V& v, Model& m, size_t at, int val) {
        if (m.size() && c.rng.coin()) {  // an element of the vector itself
            size_t from = c.rng.below(m.size());
            val = m[from];
            const V& cv = v;
            ke::InsertAt(&v, at, cv[from]);
            VM_COUNT("insert_own_element", 1);
        } else if (c.rng.coin()) {
            T x = Tr<T>::make(val);
            ke::InsertAt(&v, at, x);
            VM_CHECK(c, Tr<T>::get(x) == val, "source", "InsertAt changes the lvalue it copies");
            VM_COUNT("insert_lvalue", 1);
        } else {
            const T x = Tr<T>::make(val);
            ke::InsertAt(&v, at, x);
            VM_CHECK(c, Tr<T>::get(x) == val, "source", "InsertAt changes the element it copies");
        }
        m.insert(m.begin() + at, val);
        same(c, "InsertAt(const T&)", v, m);
    }
};
template <typename T, typename V>
struct InsertConst<T, V, false> {
    static void run(vm::Case&, V&, Model&, size_t, int) {}
};
template <typename T, bool Copyable = Tr<T>::copyable>
struct EmplaceLvalue {
    static void run(vm::Case& c, std::vector<T>& v, size_t at, int val) {
        T x = Tr<T>::make(val);
        ke::EmplaceAt(&v, at, x);
        VM_CHECK(c, Tr<T>::get(x) == val, "source", "EmplaceAt changes the lvalue it copies");
        VM_COUNT("emplace_lvalue", 1);
    }
};
template <typename T>
struct EmplaceLvalue<T, false> {
    static void run(vm::Case&, std::vector<T>& v, size_t at, int val) { ke::EmplaceAt(&v, at, Tr<T>::make(val)); }
};
// EmplaceAt takes vectors with the default allocator only.
template <typename T, typename V>
struct Emplace {
    static void run(vm::Case&, V&, Model&, size_t, int) {}
};
template <typename T>
struct Emplace<T, std::vector<T>> {
    static void run(vm::Case& c, std::vector<T>& v, Model& m, size_t at, int val) {
        if (c.rng.chance(1, 3))
            EmplaceLvalue<T>::run(c, v, at, val);
        else
            NO_COPY("EmplaceAt", ke::EmplaceAt(&v, at, Tr<T>::make(val)));
        m.insert(m.begin() + at, val);
        same(c, "EmplaceAt", v, m);
        VM_COUNT("emplaced", 1);
    }
};
template <typename V>
static V fresh(const V& like, int) { return V(like.get_allocator()); }

template <typename V>
static void history(vm::Case& c, int alloc_a, int alloc_b) {
    typedef typename V::value_type T;
    typedef typename V::allocator_type A;
    (void)alloc_a;
    V v{A()}, w{A()};
    Model m, mw;
    int next = 1;
    unsigned n = 20 + (unsigned)c.rng.below(60);
    bool is_bool = std::is_same<T, bool>::value;
    for (unsigned i = 0; i < n; i++) {
        int val = is_bool ? (int)c.rng.below(2) : next++;
        unsigned op = (unsigned)c.rng.below(9);
        size_t at = c.rng.below(m.size() + 1);
        if (c.rng.chance(1, 4))
            at = c.rng.coin() ? 0 : m.size();
        c.sig(op * 100 + at);
        if (c.tracing)
            c.log("%s op %u at %zu of %zu", Tr<T>::name(), op, at, m.size());
        switch (op) {
            case 0: case 1: {
                T x = Tr<T>::make(val);
                NO_COPY("InsertAt(T&&)", ke::InsertAt(&v, at, std::move(x)));
                m.insert(m.begin() + at, val);
                same(c, "InsertAt(T&&)", v, m);
                VM_COUNT("inserted", 1);
                break;
            }
            case 2: InsertConst<T, V>::run(c, v, m, at, val); break;
            case 3: Emplace<T, V>::run(c, v, m, at, val); break;
            case 4:
                if (at < m.size()) {
                    NO_COPY("RemoveAt", ke::RemoveAt(&v, at));
                    m.erase(m.begin() + at);
                    same(c, "RemoveAt", v, m);
                    VM_COUNT("removed", 1);
                }
                break;
            case 5:
                if (m.size()) {
                    uint64_t before = copies();
                    T x = ke::PopBack(&v);
                    VM_CHECK(c, copies() == before, "copies", "PopBack on %s copies", Tr<T>::name());
                    VM_CHECK(c, Tr<T>::get(x) == m.back(), "popped", "PopBack returns %d, expected %d", Tr<T>::get(x), m.back());
                    m.pop_back();
                    same(c, "PopBack", v, m);
                    VM_COUNT("popped", 1);
                }
                break;
            case 6: {
                int mod = 1 + (int)c.rng.below(4), r = (int)c.rng.below(4);
                size_t calls = 0;
                NO_COPY("EraseIf", ke::EraseIf(&v, [&](const T& x) { calls++; return Tr<T>::get(x) % mod == r; }));
                size_t was = m.size();
                Model left;
                for (int x : m)
                    if (x % mod != r)
                        left.push_back(x);
                VM_CHECK(c, calls == was, "predicate-calls", "EraseIf calls its predicate %zu times on %zu elements", calls, was);
                m = left;
                same(c, "EraseIf", v, m);
                VM_COUNT("erased", was - m.size());
                VM_COUNT("erase_ifs", 1);
                break;
            }
            case 7: {
                NO_COPY("MoveExtend", ke::MoveExtend(&v, &w));
                m.insert(m.end(), mw.begin(), mw.end());
                mw.clear();
                same(c, "MoveExtend", v, m);
                same(c, "MoveExtend (source)", w, mw);
                VM_COUNT("extended", 1);
                if (c.rng.chance(1, 3)) {
                    NO_COPY("MoveExtend", ke::MoveExtend(&w, &v));
                    mw.swap(m);
                    same(c, "MoveExtend", w, mw);
                    same(c, "MoveExtend (source)", v, m);
                }
                break;
            }
            default:
                for (unsigned k = (unsigned)c.rng.below(6); k > 0; k--) {
                    int x = is_bool ? (int)c.rng.below(2) : next++;
                    w.push_back(Tr<T>::make(x));
                    mw.push_back(x);
                }
                break;
        }
    }
    (void)alloc_b;
    c.nontrivial();
}
// Two vectors whose allocators differ: elements have to be moved one by one.
template <typename T>
static void unequal(vm::Case& c) {
    typedef std::vector<T, Alloc<T>> V;
    for (size_t a = 0; a < 5; a++) {
        for (size_t b = 0; b < 5; b++) {
            V v{Alloc<T>(1)}, w{Alloc<T>(c.rng.coin() ? 1 : 2)};
            Model m, mw;
            int next = 1;
            for (size_t i = 0; i < a; i++) v.push_back(Tr<T>::make(next)), m.push_back(next++);
            for (size_t i = 0; i < b; i++) w.push_back(Tr<T>::make(next)), mw.push_back(next++);
            NO_COPY("MoveExtend", ke::MoveExtend(&v, &w));
            m.insert(m.end(), mw.begin(), mw.end());
            same(c, "MoveExtend", v, m);
            VM_CHECK(c, w.empty(), "source", "MoveExtend leaves %zu elements in its source", w.size());
            if (!m.empty()) {
                T x = ke::PopBack(&v);
                VM_CHECK(c, Tr<T>::get(x) == m.back(), "popped", "PopBack returns a wrong element");
                m.pop_back();
            }
            T x = Tr<T>::make(next);
            ke::InsertAt(&v, m.size() / 2, std::move(x));
            m.insert(m.begin() + m.size() / 2, next);
            same(c, "InsertAt", v, m);
            ke::EraseIf(&v, [](const T& e) { return Tr<T>::get(e) & 1; });
            Model left;
            for (int e : m) if (!(e & 1)) left.push_back(e);
            same(c, "EraseIf", v, left);
            if (!left.empty()) {
                ke::RemoveAt(&v, left.size() - 1);
                left.pop_back();
                same(c, "RemoveAt", v, left);
            }
            VM_COUNT("custom_allocators", 1);
        }
    }
    c.nontrivial();
}

template <typename T, typename D>
static void deque_history(vm::Case& c) {
    D d;
    std::deque<int> m;
    int next = 1;
    unsigned n = 30 + (unsigned)c.rng.below(400);
    for (unsigned i = 0; i < n; i++) {
        unsigned op = (unsigned)c.rng.below(c.rng.chance(1, 3) ? 4 : 2) + (i > n / 2 ? 2 : 0);
        c.sig(op);
        uint64_t before = copies();
        if (op == 0) {
            d.push_back(Tr<T>::make(next));
            m.push_back(std::is_same<T, bool>::value ? next & 1 : next);
            next++;
        } else if (op == 1) {
            d.push_front(Tr<T>::make(next));
            m.push_front(std::is_same<T, bool>::value ? next & 1 : next);
            next++;
        } else if (!m.empty()) {
            bool back = op & 1;
            T x = back ? ke::PopBack(&d) : ke::PopFront(&d);
            int want = back ? m.back() : m.front();
            if (back) m.pop_back(); else m.pop_front();
            VM_CHECK(c, Tr<T>::get(x) == want, "popped", "%s returns %d, expected %d", back ? "PopBack(deque)" : "PopFront", Tr<T>::get(x), want);
            VM_CHECK(c, copies() == before, "copies", "%s on %s copies", back ? "PopBack(deque)" : "PopFront", Tr<T>::name());
            VM_COUNT("deque_pops", 1);
            VM_CHECK(c, d.size() == m.size(), "size", "popping a deque leaves %zu elements, expected %zu", d.size(), m.size());
            if (!m.empty()) {
                VM_CHECK(c, Tr<T>::get(d.front()) == m.front() && Tr<T>::get(d.back()) == m.back(), "content", "popping a deque changes its ends");
            }
        }
    }
    for (size_t i = 0; i < m.size(); i++)
        VM_CHECK(c, Tr<T>::get(d[i]) == m[i], "content", "deque element %zu is %d, expected %d", i, Tr<T>::get(d[i]), m[i]);
    c.nontrivial();
}

SCENARIO(vectors, 8000, 200000, 0) {
    switch (c.index % 7) {
        case 0: history<std::vector<int>>(c, 0, 0); break;
        case 1: history<std::vector<std::string>>(c, 0, 0); break;
        case 2: history<std::vector<std::unique_ptr<int>>>(c, 0, 0); break;
        case 3: history<std::vector<vm::Obj>>(c, 0, 0); break;
        case 4: history<std::vector<vm::BigObj>>(c, 0, 0); break;
        case 5: history<std::vector<vm::MoveObj>>(c, 0, 0); break;
        default: history<std::vector<Counted>>(c, 0, 0); break;
    }
}
SCENARIO(allocators, 600, 10000, 0) {
    switch (c.index % 6) {
        case 0: history<std::vector<vm::Obj, Alloc<vm::Obj>>>(c, 1, 2); break;
        case 1: history<std::vector<Counted, Alloc<Counted>>>(c, 1, 2); break;
        case 2: unequal<vm::Obj>(c); break;
        case 3: unequal<Counted>(c); break;
        case 4: unequal<std::unique_ptr<int>>(c); break;
        default: unequal<vm::MoveObj>(c); break;
    }
    c.sig(c.index);
}
// Elements whose move constructor may throw: a vector that grows would copy them, but taking one out does not.
static void may_throw(vm::Case& c) {
    typedef MayThrow T;
    deque_history<T, std::deque<T>>(c);
    for (size_t size = 1; size < 8; size++) {
        std::vector<T> v;
        Model m;
        v.reserve(size + 8);
        for (size_t i = 0; i < size; i++) v.push_back(Tr<T>::make((int)i + 1)), m.push_back((int)i + 1);
        uint64_t before = copies();
        T x = ke::PopBack(&v);
        VM_CHECK(c, copies() == before, "copies", "PopBack copies an element whose move may throw");
        VM_CHECK(c, Tr<T>::get(x) == m.back(), "popped", "PopBack returns %d, expected %d", Tr<T>::get(x), m.back());
        m.pop_back();
        same(c, "PopBack", v, m);
        size_t at = c.rng.below(m.size() + 1);
        NO_COPY("InsertAt", ke::InsertAt(&v, at, std::move(x)));
        m.insert(m.begin() + at, (int)size);
        same(c, "InsertAt", v, m);
        NO_COPY("EmplaceAt", ke::EmplaceAt(&v, at, 100));
        m.insert(m.begin() + at, 100);
        same(c, "EmplaceAt", v, m);
        NO_COPY("EraseIf", ke::EraseIf(&v, [](const T& e) { return Tr<T>::get(e) % 2 == 0; }));
        Model left;
        for (int e : m) if (e % 2) left.push_back(e);
        same(c, "EraseIf", v, left);
        std::vector<T> w;
        w.reserve(32);
        w.push_back(Tr<T>::make(500));
        left.insert(left.begin(), 500);
        NO_COPY("MoveExtend", ke::MoveExtend(&w, &v));
        same(c, "MoveExtend", w, left);
        NO_COPY("RemoveAt", ke::RemoveAt(&w, 0));
        left.erase(left.begin());
        same(c, "RemoveAt", w, left);
        VM_COUNT("may_throw", 1);
    }
}
SCENARIO(deques, 3000, 60000, 0) {
    switch (c.index % 8) {
        case 7: may_throw(c); break;
        case 0: deque_history<int, std::deque<int>>(c); break;
        case 1: deque_history<std::string, std::deque<std::string>>(c); break;
        case 2: deque_history<std::unique_ptr<int>, std::deque<std::unique_ptr<int>>>(c); break;
        case 3: deque_history<vm::Obj, std::deque<vm::Obj>>(c); break;
        case 4: deque_history<vm::BigObj, std::deque<vm::BigObj, Alloc<vm::BigObj>>>(c); break;
        case 5: deque_history<vm::MoveObj, std::deque<vm::MoveObj>>(c); break;
        default: deque_history<Counted, std::deque<Counted>>(c); break;
    }
}
// Every size up to 9, every position, with and without spare capacity.
template <typename T>
static void every_position(vm::Case& c) {
    for (size_t size = 0; size < 10; size++) {
        for (size_t at = 0; at <= size; at++) {
            for (int spare = 0; spare < 2; spare++) {
                for (int op = 0; op < 5; op++) {
                    std::vector<T> v;
                    Model m;
                    v.reserve(size + (spare ? 3 : 0));
                    for (size_t i = 0; i < size; i++) v.push_back(Tr<T>::make((int)i + 1)), m.push_back((int)i + 1);
                    if (op == 0) {
                        T x = Tr<T>::make(77);
                        NO_COPY("InsertAt", ke::InsertAt(&v, at, std::move(x)));
                        m.insert(m.begin() + at, 77);
                    } else if (op == 1) {
                        NO_COPY("EmplaceAt", ke::EmplaceAt(&v, at, Tr<T>::make(78)));
                        m.insert(m.begin() + at, 78);
                    } else if (op == 2) {
                        if (at == size)
                            continue;
                        NO_COPY("RemoveAt", ke::RemoveAt(&v, at));
                        m.erase(m.begin() + at);
                    } else if (op == 3) {
                        NO_COPY("EraseIf", ke::EraseIf(&v, [&](const T& e) { return Tr<T>::get(e) == (int)at; }));
                        if (at > 0)
                            m.erase(m.begin() + at - 1);
                    } else {
                        std::vector<T> w;
                        for (size_t i = 0; i < at; i++) w.push_back(Tr<T>::make(100 + (int)i)), m.push_back(100 + (int)i);
                        NO_COPY("MoveExtend", ke::MoveExtend(&v, &w));
                        VM_CHECK(c, w.empty(), "source", "MoveExtend leaves %zu elements in its source", w.size());
                    }
                    same(c, "a helper", v, m);
                    VM_COUNT("positions", 1);
                }
            }
        }
    }
}
template <typename T>
static void own_elements(vm::Case& c) {
    for (size_t size = 1; size < 9; size++)
        for (size_t at = 0; at <= size; at++)
            for (size_t from = 0; from < size; from++)
                for (int spare = 0; spare < 2; spare++) {
                    std::vector<T> v;
                    Model m;
                    v.reserve(size + (spare ? 3 : 0));
                    for (size_t i = 0; i < size; i++) v.push_back(Tr<T>::make((int)i + 1)), m.push_back((int)i + 1);
                    const std::vector<T>& cv = v;
                    ke::InsertAt(&v, at, cv[from]);
                    m.insert(m.begin() + at, (int)from + 1);
                    same(c, "InsertAt of an own element", v, m);
                    // constructed from an element of the vector
                    std::vector<T> v2;
                    Model m2;
                    v2.reserve(size + (spare ? 3 : 0));
                    for (size_t i = 0; i < size; i++) v2.push_back(Tr<T>::make((int)i + 1)), m2.push_back((int)i + 1);
                    ke::EmplaceAt(&v2, at, v2[from]);
                    m2.insert(m2.begin() + at, (int)from + 1);
                    same(c, "EmplaceAt of an own element", v2, m2);
                    VM_COUNT("insert_own_element", 1);
                }
}
SCENARIO(positions, 7, 7, 0) {
    switch (c.index) {
        case 0: every_position<int>(c); own_elements<int>(c); break;
        case 1: every_position<std::string>(c); own_elements<std::string>(c); break;
        case 2: every_position<std::unique_ptr<int>>(c); break;
        case 3: every_position<vm::Obj>(c); own_elements<vm::Obj>(c); break;
        case 4: every_position<vm::BigObj>(c); own_elements<vm::BigObj>(c); break;
        case 5: every_position<vm::MoveObj>(c); break;
        default: every_position<Counted>(c); own_elements<Counted>(c); break;
    }
    c.sig(c.index);
    c.nontrivial();
}
// More elements than 16 bits count.
SCENARIO(long_vectors, 3, 30, 0) {
    size_t n = (size_t)c.rng.range(66000, 140000), k = (size_t)c.rng.range(66000, 90000);
    std::vector<std::unique_ptr<int>> v, w;
    Model m, mw;
    for (size_t i = 0; i < n; i++) v.emplace_back(new int((int)i)), m.push_back((int)i);
    for (size_t i = 0; i < k; i++) w.emplace_back(new int((int)(n + i))), mw.push_back((int)(n + i));
    ke::MoveExtend(&v, &w);
    m.insert(m.end(), mw.begin(), mw.end());
    mw.clear();
    same(c, "MoveExtend", v, m);
    same(c, "MoveExtend (source)", w, mw);
    for (size_t at : {(size_t)65535, (size_t)65536, (size_t)65537, (size_t)0, m.size() / 2}) {
        ke::RemoveAt(&v, at);
        m.erase(m.begin() + at);
        ke::InsertAt(&v, at + 1, std::unique_ptr<int>(new int(7)));
        m.insert(m.begin() + at + 1, 7);
        ke::EmplaceAt(&v, at, new int(9));
        m.insert(m.begin() + at, 9);
    }
    same(c, "RemoveAt, InsertAt and EmplaceAt", v, m);
    std::unique_ptr<int> last = ke::PopBack(&v);
    VM_CHECK(c, *last == m.back(), "popped", "PopBack returns %d, expected %d", *last, m.back());
    m.pop_back();
    ke::EraseIf(&v, [](const std::unique_ptr<int>& x) { return *x % 5 == 0; });
    m.erase(std::remove_if(m.begin(), m.end(), [](int x) { return x % 5 == 0; }), m.end());
    same(c, "EraseIf", v, m);
    std::deque<int> d;
    for (size_t i = 0; i < n; i++) d.push_back((int)i);
    for (size_t i = 0; i < n; i++) {
        int x = ke::PopFront(&d);
        VM_CHECK(c, x == (int)i && d.size() == n - i - 1, "popped", "PopFront returns %d, expected %zu", x, i);
    }
    VM_COUNT("long_vectors", 1);
    c.sig(n);
    c.nontrivial();
}
