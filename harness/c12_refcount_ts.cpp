// C12: thread-safe reference counts under many schedules.
#include <amtl/am-refcounting-threadsafe.h>
#include <assert.h>

#include <mutex>

#include "conc.h"

static const int kMaxT = 5;
static const int kMaxO = 4;

// What the monitor knows of each object of a run. Relaxed atomics: the monitor orders nothing.
struct ObjLedger {
    std::atomic<int> held, destroyed, false_returns, writes[kMaxT];
    void reset() {
        held.store(0, std::memory_order_relaxed);
        destroyed.store(0, std::memory_order_relaxed);
        false_returns.store(0, std::memory_order_relaxed);
        for (auto& w : writes)
            w.store(0, std::memory_order_relaxed);
    }
};
static ObjLedger Lg[kMaxO];
static thread_local int t_destroyed;  // objects destroyed by this thread so far

static const std::memory_order rlx = std::memory_order_relaxed;

struct Body {  // the part the objects of all families share
    int id;
    uint32_t magic = 0xfeedbeef;
    int slot[kMaxT] = {};
    explicit Body(int id) : id(id) {}
    void on_destroy() {
        int got[kMaxT];
        for (int i = 0; i < kMaxT; i++)
            got[i] = slot[i];  // a race here: a thread's writes are not visible to the destructor
        uint32_t m = magic;
        magic = 0xdeaddead;
        sched::Quiet q;
        if (m != 0xfeedbeef)
            vm::fail("destroyed-twice", "object %d is destroyed although it is not alive", id);
        if (Lg[id].destroyed.fetch_add(1, rlx))
            vm::fail("destroyed-twice", "object %d is destroyed twice", id);
        int held = Lg[id].held.load(rlx);
        if (held != 0)
            vm::fail("destroyed-while-held", "object %d is destroyed while %d references to it are held", id, held);
        for (int i = 0; i < kMaxT; i++) {
            if (got[i] != Lg[id].writes[i].load(rlx))
                vm::fail("writes-not-visible", "destructor of object %d sees %d, thread %d wrote %d", id, got[i], i, Lg[id].writes[i].load(rlx));
        }
        t_destroyed++;
        VM_COUNT("destructions", 1);
    }
};

// Family 1
struct Plain : public ke::RefcountedThreadsafe<Plain> {
    Body body;
    ke::RefPtr<Plain> next;
    explicit Plain(int id) : body(id) {}
    ~Plain() { body.on_destroy(); }
    static const bool kReturns = true;
    bool rel() { return Release(); }
};
// Family 2
struct Virt : public ke::VirtualRefcountedThreadsafe {
    Body body;
    ke::RefPtr<Virt> next;
    explicit Virt(int id) : body(id) {}
    ~Virt() override { body.on_destroy(); }
    static const bool kReturns = false;
    bool rel() { Release(); return true; }
};
// Family 3: an interface, implemented by forwarding to the counted base.
struct Iface {
    uint64_t lead[2];
    Body body;
    ke::RefPtr<Iface> next;
    explicit Iface(int id) : body(id) {}
    virtual void AddRef() = 0;
    virtual void Release() = 0;
    static const bool kReturns = false;
    bool rel() { Release(); return true; }
  protected:
    virtual ~Iface() {}
};
struct Impl : public Iface, public ke::RefcountedThreadsafe<Impl> {
    explicit Impl(int id) : Iface(id) {}
    ~Impl() { body.on_destroy(); }
    KE_IMPL_REFCOUNTING_TS(Impl)
};
template <typename T> struct Maker { static T* make(int id) { return new T(id); } };
template <> struct Maker<Iface> { static Iface* make(int id) { return new Impl(id); } };

// A program: per thread, a list of operations on its local references.
enum Op { kCopy, kMove, kDrop, kRawPair, kRawAdd, kWrite, kRead, kSend, kReceive, kAssign, kRewrap, kOps };
struct Instr { int op, a, b; };

template <typename T>
struct World {
    static const int kSlots = 4;
    struct Mail {
        std::mutex m;
        T* p = nullptr;  // owns a reference
        int id = -1;
    };
    int nt, no;
    std::vector<Instr> prog[kMaxT];
    int start[kMaxT][kSlots];  // object or -1
    bool chain;
    Mail* mail;
    T* root[kMaxO];
    conc::Gate* gate;

    static void hold(int id, int d) { Lg[id].held.fetch_add(d, rlx); }
    static int id_of(T* p) { return p ? p->body.id : -1; }

    // Drops a raw reference and checks what Release() says.
    static void release(T* p, int id) {
        hold(id, -1);
        int before = t_destroyed;
        bool rv = p->rel();
        sched::Quiet q;
        if (T::kReturns) {
            bool gone = t_destroyed != before;
            if (!rv && Lg[id].false_returns.fetch_add(1, rlx))
                vm::fail("release-result", "Release() of object %d returned false twice", id);
            if (rv == gone)
                vm::fail("release-result", "Release() of object %d returned %s in a call that %s it", id, rv ? "true" : "false", gone ? "destroyed" : "did not destroy");
        }
        VM_COUNT("explicit_releases", 1);
    }

    void thread(int me) {
        ke::RefPtr<T> r[kSlots];
        int held[kSlots];
        for (int i = 0; i < kSlots; i++) {
            held[i] = start[me][i];
            if (held[i] >= 0)
                r[i] = ke::AdoptRef(root[held[i]]);  // a reference prepared by the main thread
        }
        gate->arrive(nt);
        auto drop = [&](int i) {
            if (held[i] >= 0)
                hold(held[i], -1);
            held[i] = -1;
            r[i] = nullptr;
        };
        for (const Instr& in : prog[me]) {
            int a = in.a, b = in.b;
            switch (in.op) {
                case kCopy:
                    if (a == b) break;
                    if (held[b] >= 0) hold(held[b], -1);
                    r[b] = r[a];
                    held[b] = held[a];
                    if (held[b] >= 0) hold(held[b], 1);
                    break;
                case kMove:
                    if (a == b) break;
                    if (held[b] >= 0) hold(held[b], -1);
                    r[b] = std::move(r[a]);
                    held[b] = held[a];
                    held[a] = -1;
                    break;
                case kDrop: drop(a); break;
                case kRawPair:
                    if (held[a] < 0) break;
                    r[a]->AddRef();
                    hold(held[a], 1);
                    release(r[a].get(), held[a]);
                    break;
                case kRawAdd: {  // takes a raw reference, drops the smart one, then the raw one
                    if (held[a] < 0) break;
                    T* p = r[a].get();
                    int id = held[a];
                    p->AddRef();
                    hold(id, 1);
                    drop(a);
                    release(p, id);
                    break;
                }
                case kWrite:
                    if (held[a] < 0) break;
                    r[a]->body.slot[me]++;
                    Lg[held[a]].writes[me].fetch_add(1, rlx);
                    break;
                case kRead:
                    if (held[a] < 0) break;
                    {
                        int id = r[a]->body.id;
                        uint32_t m = r[a]->body.magic;
                        if (id != held[a] || m != 0xfeedbeef)
                            vm::fail("dead-object", "a held reference leads to a dead object");
                    }
                    break;
                case kSend: {
                    Mail& box = mail[b];
                    T* old;
                    int oldid;
                    {
                        std::lock_guard<std::mutex> g(box.m);
                        old = box.p;
                        oldid = box.id;
                        box.p = r[a].forget().take();
                        box.id = held[a];
                        held[a] = -1;
                    }
                    if (old)
                        release(old, oldid);
                    break;
                }
                case kReceive: {
                    drop(a);
                    Mail& box = mail[b];
                    std::lock_guard<std::mutex> g(box.m);
                    r[a] = ke::AdoptRef(box.p);
                    held[a] = box.id;
                    box.p = nullptr;
                    box.id = -1;
                    break;
                }
                case kAssign:  // through a raw pointer
                    if (held[a] < 0) break;
                    hold(held[a], 1);
                    if (held[b] >= 0) hold(held[b], -1);
                    {
                        int id = held[a];
                        r[b] = r[a].get();
                        held[b] = id;
                    }
                    break;
                case kRewrap: {
                    if (held[a] < 0) break;
                    ke::RefPtr<T> copy(r[a].get());
                    ke::RefPtr<T> again(copy.forget());
                    r[a] = std::move(again);
                    break;
                }
            }
        }
        for (int i = 0; i < kSlots; i++)
            drop(i);
    }

    void run() {
        Mail boxes[2];
        mail = boxes;
        conc::Gate gt;
        gate = &gt;
        int refs[kMaxO] = {};
        for (int t = 0; t < nt; t++) {
            for (int i = 0; i < kSlots; i++) {
                if (start[t][i] >= 0)
                    refs[start[t][i]]++;
            }
        }
        for (int o = 0; o < no; o++) {
            root[o] = Maker<T>::make(o);
            if (chain && o > 0) {
                root[o]->next = root[o - 1];  // an extra reference, dropped by the destructor
            }
        }
        for (int o = 0; o < no; o++) {
            // chained references are not counted by the ledger: destructors drop them
            for (int k = 0; k < refs[o]; k++) {
                root[o]->AddRef();
                hold(o, 1);
            }
            if (!refs[o]) {
                root[o]->AddRef();
                hold(o, 1);
                release(root[o], o);
            }
        }
        if (nt == 1)
            thread(0);
        else
            conc::threads(nt, [this](int i) { thread(i); });
        for (auto& b : boxes) {
            if (b.p)
                release(b.p, b.id);
        }
    }
};

template <typename T>
static void program(vm::Case& c, int nt, int len, unsigned schedules) {
    World<T> w;
    w.nt = nt;
    w.no = 1 + (int)c.rng.below(c.rng.coin() ? 1 : kMaxO);
    w.chain = c.rng.chance(1, 3);
    for (int t = 0; t < nt; t++) {
        for (int i = 0; i < World<T>::kSlots; i++)
            w.start[t][i] = i == 0 || c.rng.chance(1, 3) ? (int)c.rng.below(w.no) : -1;
        int n = (int)c.rng.below(len + 1);
        for (int i = 0; i < n; i++) {
            Instr in{(int)c.rng.below(kOps), (int)c.rng.below(c.rng.coin() ? 2 : World<T>::kSlots), (int)c.rng.below(2)};
            if (in.op != kSend && in.op != kReceive)
                in.b = (int)c.rng.below(World<T>::kSlots);
            w.prog[t].push_back(in);
            c.sig(in.op * 64 + in.a * 8 + in.b);
            c.log("T%d op %d %d %d", t, in.op, in.a, in.b);
        }
    }
    conc::Explorer ex(c, schedules);
    ex([&](unsigned) { for (auto& l : Lg) l.reset(); }, [&] { w.run(); },
       [&] {
           for (int o = 0; o < w.no; o++) {
               VM_CHECK(c, Lg[o].destroyed.load(rlx) == 1, "never-destroyed", "object %d was destroyed %d times, expected once", o, Lg[o].destroyed.load(rlx));
               VM_CHECK(c, Lg[o].held.load(rlx) == 0, "harness", "ledger");
           }
           VM_COUNT("objects", w.no);
       });
    c.nontrivial();
}

SCENARIO(plain_programs, 260, 20000, 0) { program<Plain>(c, 2 + (int)c.rng.below(3), 10, 40); }
SCENARIO(virtual_programs, 200, 15000, 0) { program<Virt>(c, 2 + (int)c.rng.below(3), 10, 40); }
SCENARIO(impl_programs, 200, 15000, 0) { program<Iface>(c, 2 + (int)c.rng.below(3), 10, 40); }
SCENARIO(single_thread, 60, 3000, 0) {
    program<Plain>(c, 1, 60, 2);
    program<Virt>(c, 1, 60, 2);
    program<Iface>(c, 1, 60, 2);
}
// Two or three threads that drop their last references at once: the window every bug needs.
template <typename T>
static void last_drop(vm::Case& c) {
    World<T> w;
    w.nt = 2 + (int)(c.index % 3);
    w.no = 1;
    w.chain = false;
    for (int t = 0; t < w.nt; t++) {
        for (int i = 0; i < World<T>::kSlots; i++)
            w.start[t][i] = i == 0 ? 0 : -1;
        if (c.rng.coin()) w.prog[t].push_back(Instr{kWrite, 0, 0});
        if (c.rng.coin()) w.prog[t].push_back(Instr{kCopy, 0, 1});
        if (c.rng.coin()) w.prog[t].push_back(Instr{c.rng.coin() ? kRawAdd : kRawPair, 0, 0});
    }
    conc::Explorer ex(c, 60);
    ex([&](unsigned) { for (auto& l : Lg) l.reset(); }, [&] { w.run(); },
       [&] {
           VM_CHECK(c, Lg[0].destroyed.load(rlx) == 1, "never-destroyed", "the object was destroyed %d times, expected once", Lg[0].destroyed.load(rlx));
           VM_COUNT("last_drops", 1);
       });
    c.nontrivial();
}
SCENARIO(last_drops, 150, 8000, 0) {
    switch (c.index / 3 % 3) {
        case 0: last_drop<Plain>(c); break;
        case 1: last_drop<Virt>(c); break;
        default: last_drop<Iface>(c); break;
    }
}
// Two or three threads that take the first references to a fresh object at once.
template <typename T>
static void first_reference(vm::Case& c) {
    int nt = 2 + (int)(c.index % 2), each = 1 + (int)c.rng.below(2);
    bool smart = c.rng.coin();
    conc::Explorer ex(c, 60);
    ex([&](unsigned) { for (auto& l : Lg) l.reset(); },
       [&] {
           T* obj = Maker<T>::make(0);
           ke::RefPtr<T> kept[kMaxT][2];
           conc::Gate gate;
           for (int i = 0; i < nt * each; i++)
               Lg[0].held.fetch_add(1, rlx);
           conc::threads(nt, [&](int me) {
               gate.arrive(nt);
               for (int k = 0; k < each; k++) {
                   if (smart)
                       kept[me][k] = obj;
                   else
                       obj->AddRef();
               }
           });
           for (int me = 0; me < nt; me++) {
               for (int k = 0; k < each; k++) {
                   Lg[0].held.fetch_sub(1, rlx);
                   if (smart)
                       kept[me][k] = nullptr;
                   else
                       obj->Release();
                   bool last = me == nt - 1 && k == each - 1;
                   sched::Quiet q;
                   if (Lg[0].destroyed.load(rlx) != (last ? 1 : 0))
                       vm::fail("first-references", "the object is destroyed %d times when %d of %d references taken at once are dropped",
                                Lg[0].destroyed.load(rlx), me * each + k + 1, nt * each);
               }
           }
       },
       [&] { VM_COUNT("first_references", 1); });
    c.sig(nt * 4 + each * 2 + smart);
    c.nontrivial();
}
SCENARIO(first_references, 36, 1500, 0) {
    switch (c.index / 2 % 3) {
        case 0: first_reference<Plain>(c); break;
        case 1: first_reference<Virt>(c); break;
        default: first_reference<Iface>(c); break;
    }
}
#if !defined(VM_SCHED)
// Long-running contention on real threads.
template <typename T>
static void stress(vm::Case& c) {
    for (int round = 0; round < 6; round++) {
        for (auto& l : Lg) l.reset();
        T* obj = Maker<T>::make(0);
        obj->AddRef();
        Lg[0].held.fetch_add(1, rlx);
        ke::RefPtr<T> root = ke::AdoptRef(obj);
        conc::Gate gate;
        std::vector<std::thread> ts;
        for (int i = 0; i < 4; i++) {
            Lg[0].held.fetch_add(1, rlx);
            ts.emplace_back([&gate, i](ke::RefPtr<T> mine) {
                gate.arrive(4);
                for (int k = 0; k < 3000; k++) {
                    ke::RefPtr<T> copy(mine);
                    if (k % 16 == i) copy->body.slot[i]++, Lg[0].writes[i].fetch_add(1, rlx);
                    ke::RefPtr<T> other(std::move(copy));
                }
                Lg[0].held.fetch_sub(1, rlx);
            }, root);
        }
        Lg[0].held.fetch_sub(1, rlx);
        root = nullptr;
        for (auto& t : ts)
            t.join();
        ts.clear();
        VM_CHECK(c, Lg[0].destroyed.load(rlx) == 1, "never-destroyed", "destroyed %d times", Lg[0].destroyed.load(rlx));
        VM_COUNT("stress_operations", 4 * 3000);
    }
    c.nontrivial();
}
// The count must not be narrower than the number of references can be.
template <typename T>
static void many(vm::Case& c) {
    static const unsigned kEdges[] = {128, 256, 32768, 65536, 131072};
    unsigned n = kEdges[c.index / 3 % 5] + (unsigned)c.rng.below(3);
    for (auto& l : Lg) l.reset();
    T* obj = Maker<T>::make(0);
    obj->AddRef();
    Lg[0].held.fetch_add(1, rlx);
    ke::RefPtr<T> root = ke::AdoptRef(obj);
    auto add = [n](T* t) { for (unsigned i = 0; i < n; i++) t->AddRef(); };
    auto drop = [n](T* t) { for (unsigned i = 0; i < n; i++) t->Release(); };
    std::thread a(add, *root), b(add, *root);
    a.join();
    b.join();
    std::thread d(drop, *root), e(drop, *root);
    d.join();
    e.join();
    VM_CHECK(c, Lg[0].destroyed.load(rlx) == 0, "destroyed-early", "the object is destroyed after %u references were added and dropped", 2 * n);
    Lg[0].held.fetch_sub(1, rlx);
    root = nullptr;
    VM_CHECK(c, Lg[0].destroyed.load(rlx) == 1, "never-destroyed", "destroyed %d times", Lg[0].destroyed.load(rlx));
    VM_COUNT("many_references", 2 * n);
    c.sig(n);
    c.nontrivial();
}
SCENARIO(many_references, 15, 300, 0) {
    switch (c.index % 3) {
        case 0: many<Plain>(c); break;
        case 1: many<Virt>(c); break;
        default: many<Iface>(c); break;
    }
}
SCENARIO(stress_real, 24, 2000, 0) {
    switch (c.index % 3) {
        case 0: stress<Plain>(c); break;
        case 1: stress<Virt>(c); break;
        default: stress<Iface>(c); break;
    }
}
#endif
