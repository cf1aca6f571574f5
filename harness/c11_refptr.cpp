// C11: RefPtr, AlreadyRefed and AdoptRef against a model of the reference graph.
#include <amtl/am-refcounting.h>
#include <assert.h>

#include <map>
#include <memory>
#include <set>

#include "vm.h"

struct Ledger {
    std::set<int> alive;
    std::vector<int> destroyed;
    int next_id = 0;
} Lg;

struct Tracked {
    int id;
    Tracked() : id(Lg.next_id++) { Lg.alive.insert(id); }
    ~Tracked() {
        if (!Lg.alive.erase(id))
            vm::fail("destroyed-twice", "object %d is destroyed twice", id);
        Lg.destroyed.push_back(id);
    }
};
struct Offset {
    virtual ~Offset() {}
    uint64_t guard = 0x1234;
};
// Family 1: Refcounted<T> with a virtual destructor.
struct PlainNode : public ke::Refcounted<PlainNode> {
    Tracked t;
    ke::RefPtr<PlainNode> next, other;
    virtual ~PlainNode() {}
    int64_t count() { return -1; }
};
struct PlainDerived : public Offset, public PlainNode {};
// Family 2: VirtualRefcounted.
struct VirtNode : public ke::VirtualRefcounted {
    Tracked t;
    ke::RefPtr<VirtNode> next, other;
    int64_t count() { return -1; }
};
struct VirtDerived : public Offset, public VirtNode {};
// Family 3: user-defined counting.
struct UserNode {
    Tracked t;
    ke::RefPtr<UserNode> next, other;
    int64_t refs = 0;
    uint64_t adds = 0, releases = 0;
    virtual ~UserNode() {}
    void AddRef() {
        refs++;
        adds++;
    }
    void Release() {
        if (refs <= 0)
            vm::fail("released-too-often", "object %d is released without a reference", t.id);
        releases++;
        if (--refs == 0)
            delete this;
    }
    int64_t count() { return refs; }
};
struct UserDerived : public Offset, public UserNode {};
// Family 4: an interface implemented with KE_IMPL_REFCOUNTING.
struct INode {
    Tracked t;
    ke::RefPtr<INode> next, other;
    virtual void AddRef() = 0;
    virtual void Release() = 0;
    virtual ~INode() {}
    int64_t count() { return -1; }
};
struct ImplNode : public Offset, public INode, public ke::Refcounted<ImplNode> {
    KE_IMPL_REFCOUNTING(ImplNode)
};
struct ImplDerived : public INode, public ke::Refcounted<ImplDerived> {
    uint64_t more[3];
    KE_IMPL_REFCOUNTING(ImplDerived)
};

template <typename N, typename Made, typename Derived>
struct World {
    typedef ke::RefPtr<N> Ref;
    typedef ke::RefPtr<Derived> DRef;
    vm::Case& c;
    static const int kSlots = 5;
    std::unique_ptr<Ref> s[kSlots];
    int m[kSlots];  // object of each slot, -1 for null
    std::unique_ptr<DRef> ds;
    int dm = -1;
    struct Node {
        N* p;
        int refs = 0, next = -1, other = -1, extra = 0;
        bool derived = false;
    };
    std::map<int, Node> g;
    explicit World(vm::Case& c_) : c(c_) {
        Lg = Ledger();
        for (int i = 0; i < kSlots; i++)
            s[i].reset(new Ref()), m[i] = -1;
        ds.reset(new DRef());
    }
    // Model ---------------------------------------------------------------------------------
    int made(N* p, bool derived) {
        int id = p->t.id;
        Node n;
        n.p = p;
        n.derived = derived;
        g[id] = n;
        VM_COUNT("objects", 1);
        return id;
    }
    void add(int id) {
        if (id >= 0)
            g[id].refs++;
    }
    void drop(int id) {
        if (id < 0)
            return;
        Node& n = g[id];
        if (--n.refs == 0) {
            int a = n.next, b = n.other;
            g.erase(id);
            drop(a);
            drop(b);
            VM_COUNT("destructions", 1);
        }
    }
    void set(int& where, int id) {  // assignment of id
        add(id);
        int old = where;
        where = id;
        drop(old);
    }
    N* raw(int id) { return id < 0 ? nullptr : g[id].p; }
    void verify(const char* what) {
        for (int id : Lg.alive)
            VM_CHECK(c, g.count(id), "not-destroyed", "object %d is still alive without references after %s", id, what);
        for (auto& kv : g)
            VM_CHECK(c, Lg.alive.count(kv.first), "destroyed-early", "object %d is destroyed although it has %d references after %s", kv.first, kv.second.refs, what);
        for (auto& kv : g) {
            Node& n = kv.second;
            N* p = n.p;
            VM_CHECK(c, p->t.id == kv.first, "object", "object %d is another one", kv.first);
            VM_CHECK(c, p->count() < 0 || p->count() == n.refs, "count", "object %d records %" PRId64 " references, %d exist, after %s", kv.first, p->count(), n.refs, what);
            VM_CHECK(c, p->next.get() == raw(n.next) && p->other.get() == raw(n.other), "field", "a reference inside object %d is wrong after %s", kv.first, what);
        }
        for (int i = 0; i < kSlots; i++) {
            const Ref& r = *s[i];
            N* want = raw(m[i]);
            VM_CHECK(c, r.get() == want && *r == want && r.operator->() == want && (N*)r == want && *r.byref_const() == want && !r == !want && (bool)r == !!want, "target",
                     "reference %d points to %p, expected %p, after %s", i, (void*)r.get(), (void*)want, what);
        }
        VM_CHECK(c, (N*)ds->get() == raw(dm), "target", "the derived reference is wrong after %s", what);
        VM_COUNT("verifications", 1);
    }
    // Operations ------------------------------------------------------------------------------
    N* create(bool derived, int* id) {
        N* p = derived ? static_cast<N*>(new Derived()) : static_cast<N*>(new Made());
        *id = made(p, derived);
        return p;
    }
    void step() {
        int i = (int)c.rng.below(kSlots), j = (int)c.rng.below(kSlots), id = -1;
        unsigned op = (unsigned)c.rng.below(34);
        Ref &a = *s[i], &b = *s[j];
        const char* what = "nothing";
        switch (op) {
            case 0: case 1: case 2: {
                what = "assignment of a new object";
                N* p = create(c.rng.coin(), &id);
                a = p;
                set(m[i], id);
                break;
            }
            case 3: {
                what = "construction from a new object";
                N* p = create(c.rng.coin(), &id);
                s[i].reset(new Ref(p));
                set(m[i], id);
                break;
            }
            case 4: {
                what = "adoption of a new object";
                N* p = create(c.rng.coin(), &id);
                p->AddRef();
                if (c.rng.coin())
                    a = ke::AdoptRef(p);
                else
                    s[i].reset(new Ref(ke::AdoptRef(p)));
                set(m[i], id);
                break;
            }
            case 5: case 6:
                what = "copy assignment";
                a = (const Ref&)b;
                set(m[i], m[j]);
                if (i == j && m[i] >= 0)
                    VM_COUNT("self_assignments", 1);
                break;
            case 7:
                what = "copy assignment from a non-const reference";
                a = b;
                set(m[i], m[j]);
                break;
            case 8: {
                what = "assignment of a raw pointer";
                a = b.get();
                set(m[i], m[j]);
                if (i == j && m[i] >= 0)
                    VM_COUNT("self_assignments", 1);
                break;
            }
            case 9: case 10:
                what = "move assignment";
                a = std::move(b);
                if (i != j) {
                    int old = m[i];
                    m[i] = m[j];
                    m[j] = -1;
                    drop(old);
                } else if (!a && m[i] >= 0) {  // self-move may drop the reference, but cleanly
                    int old = m[i];
                    m[i] = -1;
                    drop(old);
                }
                break;
            case 11:
                if (i == j)
                    break;
                what = "copy construction";
                s[i].reset(new Ref(b));
                set(m[i], m[j]);
                break;
            case 12:
                if (i == j)
                    break;
                what = "move construction";
                s[i].reset(new Ref(std::move(b)));
                {
                    int old = m[i];
                    m[i] = m[j];
                    m[j] = -1;
                    drop(old);
                }
                break;
            case 13:
                what = "null assignment";
                if (c.rng.coin())
                    a = nullptr;
                else if (c.rng.coin())
                    a = Ref();
                else
                    a = ke::AlreadyRefed<N>(nullptr);
                set(m[i], -1);
                break;
            case 14: case 15: {  // links from newer to older objects only: no cycles
                if (m[i] < 0 || m[j] < 0 || m[i] <= m[j])
                    break;
                what = "linking";
                Node& n = g[m[i]];
                if (c.rng.coin()) {
                    a->next = b;
                    set(n.next, m[j]);
                } else {
                    a->other = b.get();
                    set(n.other, m[j]);
                }
                VM_COUNT("links", 1);
                break;
            }
            case 16: case 17: {
                if (m[i] < 0)
                    break;
                what = "assignment from a reference inside the released object";
                int t = g[m[i]].next;
                a = a->next;
                set(m[i], t);
                VM_COUNT("inner_assignments", 1);
                break;
            }
            case 18: {
                if (m[i] < 0)
                    break;
                what = "move assignment from a reference inside the released object";
                Node& n = g[m[i]];
                int t = n.next;
                a = std::move(a->next);
                n.next = -1;
                {
                    int old = m[i];
                    m[i] = t;
                    drop(old);
                }
                VM_COUNT("inner_assignments", 1);
                break;
            }
            case 19: {
                if (m[i] < 0)
                    break;
                what = "raw assignment from a reference inside the released object";
                int t = g[m[i]].other;
                a = a->other.get();
                set(m[i], t);
                VM_COUNT("inner_assignments", 1);
                break;
            }
            case 20: {
                if (m[i] < 0)
                    break;
                what = "assignment of a reference taken from inside the released object";
                Node& n = g[m[i]];
                int t = n.other;
                a = c.rng.coin() ? a->other.take() : a->other.forget();
                n.other = -1;
                {
                    int old = m[i];
                    m[i] = t;
                    drop(old);
                }
                VM_COUNT("inner_assignments", 1);
                break;
            }
            case 21: {
                if (m[i] < 0)
                    break;
                what = "dropping an inner reference";
                Node& n = g[m[i]];
                a->next = nullptr;
                set(n.next, -1);
                break;
            }
            case 22: {
                what = "take or forget";
                int64_t before = m[j] >= 0 ? b->count() : 0;
                if (c.rng.coin()) {
                    ke::AlreadyRefed<N> t(c.rng.coin() ? b.take() : b.forget());
                    VM_CHECK(c, !b.get() && t == raw(m[j]) && !(t != raw(m[j])) && t.operator->() == raw(m[j]) && !t == (m[j] < 0), "take", "take() or forget() hands over something else");
                    VM_CHECK(c, m[j] < 0 || t->count() == before, "count", "take() or forget() changes the count");
                    s[i].reset();  // may be the same slot
                    if (i != j) {
                        int old = m[i];
                        m[i] = -1;
                        drop(old);
                    }
                    s[i].reset(new Ref(t));
                    VM_CHECK(c, !t, "take", "an AlreadyRefed that was taken from is not null");
                } else if (c.rng.chance(1, 3)) {  // taken by nobody: released
                    switch (c.rng.below(3)) {
                        case 0: b.forget(); break;
                        case 1: b.take(); break;
                        default: {
                            ke::AlreadyRefed<N> t(b.forget()), u(t), v2(std::move(t)), w(nullptr), x(w), y(std::move(w));
                            VM_CHECK(c, !t && u == raw(m[j]) && v2 == raw(m[j]) && !w && !x && !y, "take", "copies and moves of an AlreadyRefed");
                            break;
                        }
                    }
                    VM_CHECK(c, !b.get(), "take", "a reference is left by take() or forget()");
                    VM_COUNT("dropped_transfers", 1);
                    set(m[j], -1);
                    break;
                } else {
                    a = b.forget();
                    if (i == j)
                        break;
                }
                if (i != j) {
                    int old = m[i];
                    m[i] = m[j];
                    m[j] = -1;
                    drop(old);
                }
                break;
            }
            case 23: {
                what = "AlreadyRefed copies and moves";
                if (m[j] < 0)
                    break;
                b->AddRef();
                {
                    ke::AlreadyRefed<N> x = ke::AdoptRef(b.get());
                    ke::AlreadyRefed<N> y(x);
                    VM_CHECK(c, b->count() < 0 || b->count() == g[m[j]].refs + 2, "count", "a copy of an AlreadyRefed does not hold a reference of its own");
                    ke::AlreadyRefed<N> z(std::move(x));
                    VM_CHECK(c, !x && z == b.get() && y == b.get(), "take", "a moved-from AlreadyRefed is not null");
                    VM_CHECK(c, b->count() < 0 || b->count() == g[m[j]].refs + 2, "count", "moving an AlreadyRefed changes the count");
                    N* p = y.take();
                    VM_CHECK(c, !y && p == b.get() && y.take() == nullptr, "take", "take() of an AlreadyRefed");
                    p->Release();
                    VM_CHECK(c, b->count() < 0 || b->count() == g[m[j]].refs + 1, "count", "take() of an AlreadyRefed changes the count");
                    Ref r(z);
                    VM_CHECK(c, !z && r.get() == b.get(), "take", "a RefPtr made from an AlreadyRefed");
                }
                break;
            }
            case 24: {
                if (m[i] < 0)
                    break;
                what = "explicit AddRef";
                a->AddRef();
                g[m[i]].refs++;
                g[m[i]].extra++;
                break;
            }
            case 25: {
                std::vector<int> ids;
                for (auto& kv : g)
                    if (kv.second.extra)
                        ids.push_back(kv.first);
                if (ids.empty())
                    break;
                what = "explicit Release";
                id = ids[c.rng.below(ids.size())];
                g[id].extra--;
                N* p = g[id].p;
                p->Release();
                drop(id);
                VM_COUNT("explicit_releases", 1);
                break;
            }
            case 26: {
                what = "assignment to the derived reference";
                Derived* d = new Derived();
                id = made(d, true);
                if (c.rng.coin())
                    *ds = d;
                else
                    ds.reset(new DRef(d));
                set(dm, id);
                break;
            }
            case 27:
                what = "conversion by copy";
                switch (c.rng.below(4)) {
                    case 0: a = *ds; break;
                    case 1: s[i].reset(new Ref(*ds)); break;
                    case 2: a = ds->get(); break;
                    default: a = Ref(*ds); break;
                }
                set(m[i], dm);
                VM_COUNT("conversions", 1);
                break;
            case 28: {
                what = "conversion by move";
                switch (c.rng.below(6)) {
                    case 0: a = std::move(*ds); break;
                    case 1: s[i].reset(new Ref(std::move(*ds))); break;
                    case 2: a = ds->forget(); break;
                    case 3: s[i].reset(new Ref(ds->take())); break;
                    case 4: {
                        ke::AlreadyRefed<Derived> held(ds->take());
                        s[i].reset(new Ref(held));
                        VM_CHECK(c, !held, "take", "an AlreadyRefed that a RefPtr of a base was made from is not null");
                        break;
                    }
                    default: {
                        ke::AlreadyRefed<Derived> held(ds->forget());
                        a = held;
                        VM_CHECK(c, !held, "take", "an AlreadyRefed that was assigned to a RefPtr of a base is not null");
                        break;
                    }
                }
                VM_CHECK(c, !*ds, "moved-from", "a reference moved from by conversion is not null");
                int old = m[i];
                m[i] = dm;
                dm = -1;
                drop(old);
                VM_COUNT("conversions", 1);
                break;
            }
            case 29: {
                what = "out parameter";
                // Looking at the pointer changes nothing.
                VM_CHECK(c, *a.byref() == raw(m[i]) && *reinterpret_cast<N**>(a.address()) == raw(m[i]) && a.get() == raw(m[i]), "target", "byref() or address() shows something else than what is held");
                set(m[i], -1);
                a = nullptr;
                N* p = create(false, &id);
                p->AddRef();
                if (c.rng.coin())
                    *a.byref() = p;
                else
                    *reinterpret_cast<N**>(a.address()) = p;
                g[id].refs++;
                m[i] = id;
                break;
            }
            case 30: {
                what = "swap";
                std::swap(a, b);
                if (i != j) {
                    std::swap(m[i], m[j]);
                } else if (!a && m[i] >= 0) {
                    int old = m[i];
                    m[i] = -1;
                    drop(old);
                }
                break;
            }
            case 31: {
                what = "passing by value";
                auto pass = [](Ref r) -> Ref { return r; };
                Ref t = pass(b);
                VM_CHECK(c, t.get() == b.get(), "target", "a reference passed by value");
                a = t;
                set(m[i], m[j]);
                break;
            }
            case 32: {
                what = "vector of references";
                std::vector<Ref> v;
                for (int k = 0; k < kSlots; k++)
                    v.push_back(*s[k]);
                v.insert(v.begin() + 2, *s[0]);
                v.erase(v.begin());
                break;
            }
            default:
                what = "destruction";
                s[i].reset(new Ref());
                set(m[i], -1);
                break;
        }
        c.log("%s %d %d", what, i, j);
        c.sig(op * 100 + (unsigned)(i * 10 + j));
        verify(what);
    }
};
template <typename N, typename Made, typename Derived>
static void history(vm::Case& c) {
    World<N, Made, Derived> w(c);
    int steps = (int)c.rng.range(5, 150);
    for (int i = 0; i < steps; i++)
        w.step();
    for (int i = 0; i < w.kSlots; i++) {
        w.s[i].reset();
        w.set(w.m[i], -1);
    }
    w.ds.reset();
    w.set(w.dm, -1);
    std::vector<int> extra;
    for (auto& kv : w.g)
        if (kv.second.extra)
            extra.push_back(kv.first);
    for (int id : extra) {
        while (w.g.count(id) && w.g[id].extra > 0) {
            w.g[id].extra--;
            w.g[id].p->Release();
            w.drop(id);
        }
    }
    VM_CHECK(c, w.g.empty(), "harness", "the model keeps objects");
    VM_CHECK(c, Lg.alive.empty(), "not-destroyed", "%zu objects outlive all references", Lg.alive.size());
    VM_CHECK(c, (int)Lg.destroyed.size() == Lg.next_id, "destroyed-twice", "%zu destructions of %d objects", Lg.destroyed.size(), Lg.next_id);
    c.nontrivial();
    VM_COUNT("steps", steps);
    vm::NoCount nc;
    Lg = Ledger();
}
SCENARIO(refcounted, 1500, 60000, vm::kNoLeakCheck) { history<PlainNode, PlainNode, PlainDerived>(c); }
SCENARIO(virtual_refcounted, 1500, 60000, vm::kNoLeakCheck) { history<VirtNode, VirtNode, VirtDerived>(c); }
SCENARIO(user_defined, 1500, 60000, vm::kNoLeakCheck) { history<UserNode, UserNode, UserDerived>(c); }
SCENARIO(impl_macro, 1500, 60000, vm::kNoLeakCheck) { history<INode, ImplNode, ImplDerived>(c); }
// Walking chains: the reference that is assigned from dies with the object it replaces.
SCENARIO(chains, 300, 3000, vm::kNoLeakCheck) {
    Lg = Ledger();
    int n = (int)c.rng.range(1, 200);
    ke::RefPtr<UserNode> head;
    for (int i = 0; i < n; i++) {
        ke::RefPtr<UserNode> node = new UserNode();
        node->next = c.rng.coin() ? head : std::move(head);
        head = node;
    }
    int left = n;
    for (; head; left--) {
        VM_CHECK(c, (int)Lg.alive.size() == left, "chain", "%zu objects of a chain are alive, expected %d", Lg.alive.size(), left);
        VM_CHECK(c, head->refs == 1, "count", "the head of a chain records %" PRId64 " references", head->refs);
        switch (c.rng.below(4)) {
            case 0: head = head->next; break;
            case 1: head = std::move(head->next); break;
            case 2: head = head->next.get(); break;
            default: head = head->next.forget(); break;
        }
        VM_COUNT("chain_steps", 1);
    }
    VM_CHECK(c, left == 0 && Lg.alive.empty(), "chain", "%zu objects are left of a chain", Lg.alive.size());
    c.sig((uint64_t)n);
    c.nontrivial();
    vm::NoCount nc;
    Lg = Ledger();
}
// Many references to one object: the count must not be narrower than the number of references can be.
template <typename N, typename Made>
static void many(vm::Case& c) {
    Lg = Ledger();
    static const uint64_t kEdges[] = {127, 128, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 131071, 131072};
    uint64_t n = kEdges[c.index % 12] + c.rng.below(3);
    uint64_t smart = c.rng.chance(1, 3) ? n : c.rng.below(n < 3000 ? n : 3000) + 1;
    {
        ke::RefPtr<N> p(new Made());
        std::vector<ke::RefPtr<N>> v;
        for (uint64_t i = 0; i < smart; i++)
            v.push_back(p);
        for (uint64_t i = smart; i < n; i++)
            p->AddRef();
        VM_CHECK(c, Lg.alive.size() == 1, "destroyed-early", "the object is destroyed while %" PRIu64 " references are added", n);
        bool explicit_first = c.rng.coin();
        for (int k = 0; k < 2; k++) {
            if ((k == 0) == explicit_first) {
                for (uint64_t i = smart; i < n; i++) {
                    p->Release();
                    VM_CHECK(c, Lg.alive.size() == 1, "destroyed-early", "the object is destroyed by release %" PRIu64 " of %" PRIu64, i - smart + 1, n + 1);
                }
            } else {
                while (!v.empty()) {
                    v.pop_back();
                    VM_CHECK(c, Lg.alive.size() == 1, "destroyed-early", "the object is destroyed with %zu references left", v.size() + 1);
                }
            }
        }
        p = nullptr;
        VM_CHECK(c, Lg.alive.empty(), "not-destroyed", "the object outlives all %" PRIu64 " references", n + 1);
    }
    c.log("%" PRIu64 " references, %" PRIu64 " of them smart", n, smart);
    c.sig(n);
    c.sig(smart);
    c.nontrivial();
    VM_COUNT("many_references", n);
    vm::NoCount nc;
    Lg = Ledger();
}
SCENARIO(many_refcounted, 36, 120, vm::kNoLeakCheck) { many<PlainNode, PlainNode>(c); }
SCENARIO(many_virtual, 36, 120, vm::kNoLeakCheck) { many<VirtNode, VirtNode>(c); }
SCENARIO(many_impl, 36, 120, vm::kNoLeakCheck) { many<INode, ImplNode>(c); }
// More than 2^32 references (thorough only, in optimised builds: minutes).
template <typename N>
static void huge(vm::Case& c) {
#if !defined(__OPTIMIZE__) || defined(VM_MEMCHECK)
    return;  // hours
#endif
    Lg = Ledger();
    const uint64_t n = (uint64_t(1) << 32) + 5;
    ke::RefPtr<N> p(new N());
    N* q = *p;
    for (uint64_t i = 0; i < n; i++)
        q->AddRef();
    for (uint64_t i = 0; i < 100; i++) {
        q->Release();
        VM_CHECK(c, Lg.alive.size() == 1, "destroyed-early", "the object is destroyed by release %" PRIu64 " of 2^32+6", i + 1);
    }
    for (uint64_t i = 100; i < n; i++)
        q->Release();
    VM_CHECK(c, Lg.alive.size() == 1, "destroyed-early", "the object is destroyed with a reference left");
    p = nullptr;
    VM_CHECK(c, Lg.alive.empty(), "not-destroyed", "the object outlives all references");
    c.sig(n);
    c.nontrivial();
    VM_COUNT("many_references", n);
    vm::NoCount nc;
    Lg = Ledger();
}
SCENARIO(huge_refcounted, 0, 1, vm::kNoLeakCheck) { huge<PlainNode>(c); }
SCENARIO(huge_virtual, 0, 1, vm::kNoLeakCheck) { huge<VirtNode>(c); }
