// C13: AtomicRef as a linearizable reference cell.
#include <amtl/am-refcounting-threadsafe.h>
#include <assert.h>

#include <map>
#include <mutex>

#include "conc.h"

static const std::memory_order rlx = std::memory_order_relaxed;
static const int kMaxT = 5, kMaxSerial = 4096;

// Ledger of the objects of a run, by serial number (0 stands for null).
static std::atomic<int> g_serial;
static std::atomic<int> g_state[kMaxSerial];  // 0 unborn, 1 alive, 2 destroyed
static std::atomic<int> g_local[kMaxSerial];  // references held by threads
static std::atomic<uint64_t> g_clock;
static std::atomic<int> g_reused;

struct Event {
    int cell, kind, value;  // kind: 0 get, 1 assignment
    uint64_t call, ret;
};
static std::vector<Event>* g_events;  // per thread

// Storage that is handed out again at once, so that a new object is where an old one was. In
// scheduled runs this also shows accesses to dead objects, as the memory is never unmapped.
struct Pool {
    std::mutex m;
    void* slot[64];
    int n;
    size_t size;
    int kept;
    void* arena[256];
    int narena;
};
static Pool* g_pool;
static bool g_use_pool;
static void* pool_get(size_t n) {
    if (!g_use_pool)
        return ::operator new(n);
    std::lock_guard<std::mutex> g(g_pool->m);
    if (g_pool->n) {
        g_reused.fetch_add(1, rlx);
        return g_pool->slot[--g_pool->n];
    }
    void* p;
    {
        sched::Quiet q;
        p = malloc(n);
        if (g_pool->narena == 256)
            vm::fail("harness", "arena");
        g_pool->arena[g_pool->narena++] = p;
    }
    return p;
}
static void pool_put(void* p) {
    if (!g_use_pool) {
        ::operator delete(p);
        return;
    }
    std::lock_guard<std::mutex> g(g_pool->m);
    g_pool->slot[g_pool->n++] = p;
}

struct Data {
    int serial;
    uint32_t magic;
    int payload[2];
    Data() {
        serial = g_serial.fetch_add(1, rlx) + 1;
        if (serial >= kMaxSerial)
            vm::fail("harness", "too many objects");
        magic = 0xc0ffee00u;
        payload[0] = serial * 3;
        payload[1] = serial * 5;
        g_state[serial].store(1, rlx);
    }
    ~Data() {
        if (magic != 0xc0ffee00u || g_state[serial].exchange(2, rlx) != 1)
            vm::fail("destroyed-twice", "object %d is destroyed twice", serial);
        if (int n = g_local[serial].load(rlx))
            vm::fail("destroyed-while-held", "object %d is destroyed while %d references from get() are held", serial, n);
        magic = 0xdeadbeefu;
        payload[0] = payload[1] = -1;
    }
    void check() const {
        if (magic != 0xc0ffee00u || payload[0] != serial * 3 || payload[1] != serial * 5)
            vm::fail("dead-object", "get() led to an object that is not alive (serial %d, magic %08x)", serial, magic);
        if (g_state[serial].load(rlx) != 1)
            vm::fail("dead-object", "get() led to object %d, which has been destroyed", serial);
    }
};

struct Plain;
struct Hook {  // run by destructors
    static void (*fn)();
};
void (*Hook::fn)();

struct Plain : public ke::RefcountedThreadsafe<Plain> {
    Data d;
    ~Plain() {
        if (Hook::fn)
            Hook::fn();
    }
    static void* operator new(size_t n) { return pool_get(n); }
    static void operator delete(void* p) { pool_put(p); }
    long count() { return -1; }
};
struct Virt : public ke::VirtualRefcountedThreadsafe {
    Data d;
    ~Virt() override {
        if (Hook::fn)
            Hook::fn();
    }
    static void* operator new(size_t n) { return pool_get(n); }
    static void operator delete(void* p) { pool_put(p); }
    long count() { return -1; }
};
// Counts its references itself, visibly.
struct Visible {
    std::atomic<long> refs{0};
    Data d;
    void AddRef() {
        if (refs.fetch_add(1) < 0)
            vm::fail("counts", "AddRef on a dead object");
    }
    void Release() {
        long n = refs.fetch_sub(1);
        if (n <= 0)
            vm::fail("released-too-often", "object %d is released without a reference", d.serial);
        if (n == 1)
            delete this;
    }
    ~Visible() {
        if (Hook::fn)
            Hook::fn();
    }
    static void* operator new(size_t n) { return pool_get(n); }
    static void operator delete(void* p) { pool_put(p); }
    long count() { return refs.load(); }
};

// Is there an order of the events, consistent with real time, in which every get returns what was
// last assigned? Events of one cell, at most 24.
struct Linearizer {
    std::vector<Event> ev;
    std::map<std::pair<uint32_t, int>, bool> memo;
    uint64_t visited = 0;
    bool go(uint32_t done, int value) {
        if (done == (1u << ev.size()) - 1)
            return true;
        auto key = std::make_pair(done, value);
        if (memo.count(key))
            return false;
        visited++;
        uint64_t first_ret = ~0ull;
        for (size_t i = 0; i < ev.size(); i++) {
            if (!(done >> i & 1) && ev[i].ret < first_ret)
                first_ret = ev[i].ret;
        }
        for (size_t i = 0; i < ev.size(); i++) {
            if ((done >> i & 1) || ev[i].call > first_ret)
                continue;
            if (ev[i].kind == 0 && ev[i].value != value)
                continue;
            if (go(done | 1u << i, ev[i].kind ? ev[i].value : value))
                return true;
        }
        memo[key] = true;
        return false;
    }
};

// A cell in memory that held something else before; without an object it is default-constructed.
template <typename T>
struct Cell {
    alignas(ke::AtomicRef<T>) unsigned char mem[sizeof(ke::AtomicRef<T>)];
    ke::AtomicRef<T>* p;
    Cell(T* init, bool plain) {  // an empty one by either constructor
#if !defined(VM_MEMCHECK)
        memset(mem, 0x58, sizeof(mem));
        asm volatile("" : : "r"(mem) : "memory");
#endif
        p = init || !plain ? new (mem) ke::AtomicRef<T>(init) : new (mem) ke::AtomicRef<T>();
    }
    ~Cell() { p->~AtomicRef(); }
};

enum Op { kGet, kGetDrop, kNew, kNull, kAssignHeld, kDropSlot, kRead, kOps };
struct Instr { int op, cell, slot; };

template <typename T>
struct World {
    static const int kSlots = 2;
    int nt, ncells;
    bool initial[2], hook;
    std::vector<Instr> prog[kMaxT];
    ke::AtomicRef<T>* cell[2];
    conc::Gate* gate;
    static World* cur;

    static uint64_t now() { return g_clock.fetch_add(1, rlx) + 1; }
    static int serial(T* p) { return p ? p->d.serial : 0; }
    static void record(int t, const Event& e) {
        sched::Quiet q;
        vm::NoCount nc;
        g_events[t].push_back(e);
    }
    ke::RefPtr<T> get(int t, int ci) {
        Event e{ci, 0, 0, now(), 0};
        ke::RefPtr<T> r = cell[ci]->get();
        e.ret = now();
        if (r) {
            r->d.check();
            g_local[r->d.serial].fetch_add(1, rlx);
        }
        e.value = serial(r.get());
        record(t, e);
        return r;
    }
    static void drop(ke::RefPtr<T>& r) {
        if (r)
            g_local[r->d.serial].fetch_sub(1, rlx);
        r = nullptr;
    }
    void assign(int t, int ci, T* p) {
        Event e{ci, 1, serial(p), now(), 0};
        *cell[ci] = p;
        e.ret = now();
        record(t, e);
    }
    static void hook_fn();

    void thread(int me) {
        ke::RefPtr<T> r[kSlots];
        gate->arrive(nt);
        for (const Instr& in : prog[me]) {
            ke::RefPtr<T>& s = r[in.slot];
            switch (in.op) {
                case kGet: {
                    ke::RefPtr<T> x = get(me, in.cell);
                    drop(s);
                    s = std::move(x);
                    break;
                }
                case kGetDrop: {
                    ke::RefPtr<T> x = get(me, in.cell);
                    drop(x);
                    break;
                }
                case kNew: assign(me, in.cell, new T()); break;
                case kNull: assign(me, in.cell, nullptr); break;
                case kAssignHeld: assign(me, in.cell, s.get()); break;
                case kDropSlot: drop(s); break;
                case kRead:
                    if (s)
                        s->d.check();
                    break;
            }
        }
        for (auto& s : r)
            drop(s);
    }
    void run() {
        cur = this;
        conc::Gate gt;
        gate = &gt;
        {
            T* init[2] = {initial[0] ? new T() : nullptr, initial[1] ? new T() : nullptr};
            Cell<T> a(init[0], hook), b(init[1], !hook);
            cell[0] = a.p;
            cell[1] = b.p;
            {
                sched::Quiet q;
                for (int i = 0; i < 2; i++)
                    g_events[0].push_back(Event{i, 1, serial(init[i]), 0, 0});
            }
            conc::threads(nt, [this](int i) { thread(i + 1); });
            Hook::fn = nullptr;
            for (int i = 0; i < 2; i++) {
                ke::RefPtr<T> last = get(0, i);
                if (last) {
                    long n = last->count();
                    T* other = nullptr;
                    int self = 1;
                    {
                        ke::RefPtr<T> o = cell[1 - i]->get();
                        other = o.get();
                        if (other == last.get())
                            self = 2;
                    }
                    if (n != -1 && n != self + 1)
                        vm::fail("counts", "at rest the value of the cell has %ld references, expected %d (the cells) and the observer's", n, self);
                    drop(last);
                }
            }
        }
        cur = nullptr;
    }
};
template <typename T> World<T>* World<T>::cur;
static thread_local int t_depth;
template <typename T>
void World<T>::hook_fn() {
    if (!cur || t_depth)
        return;
    t_depth++;
    {
        ke::RefPtr<T> r = cur->cell[0]->get();
        if (r)
            r->d.check();
    }
    t_depth--;
}

template <typename T>
static void program(vm::Case& c, int nt, int len, unsigned schedules, bool pool) {
    World<T> w;
    w.nt = nt;
    w.ncells = c.rng.chance(1, 4) ? 2 : 1;
    w.hook = c.rng.chance(1, 4);
    w.initial[0] = c.rng.coin();
    w.initial[1] = c.rng.coin();
    c.log("threads %d cells %d hook %d pool %d initial %d %d", nt, w.ncells, w.hook, pool, w.initial[0], w.initial[1]);
    bool writes = c.rng.chance(1, 3);  // mostly writers
    for (int t = 1; t <= nt; t++) {
        int n = 1 + (int)c.rng.below(len);
        for (int i = 0; i < n; i++) {
            Instr in{(int)c.rng.below(kOps), (int)c.rng.below(w.ncells), (int)c.rng.below(World<T>::kSlots)};
            if (writes && c.rng.coin())
                in.op = kNew;
            w.prog[t].push_back(in);
            c.sig(in.op * 16 + in.cell * 4 + in.slot);
            c.log("T%d op %d cell %d slot %d", t, in.op, in.cell, in.slot);
        }
    }
    conc::Explorer ex(c, schedules);
    vm::NoCount nc;
    std::vector<Event> events[kMaxT + 1];
    Pool pl;
    pl.n = pl.narena = 0;
    g_pool = &pl;
    g_use_pool = pool;
    ex([&](unsigned) {
           for (auto& e : events) e.clear();
           for (int i = 0; i <= g_serial.load(rlx); i++) {
               g_state[i].store(0, rlx);
               g_local[i].store(0, rlx);
           }
           g_serial.store(0, rlx);
           g_clock.store(1, rlx);
           g_events = events;
           Hook::fn = w.hook ? World<T>::hook_fn : nullptr;
       },
       [&] { w.run(); },
       [&] {
           int n = g_serial.load(rlx);
           for (int i = 1; i <= n; i++)
               VM_CHECK(c, g_state[i].load(rlx) == 2, "never-destroyed", "object %d of %d is not destroyed although the cells and all references are gone", i, n);
           VM_COUNT("objects", n);
           for (int ci = 0; ci < 2; ci++) {
               Linearizer lin;
               for (auto& v : events) {
                   for (auto& e : v) {
                       if (e.cell == ci)
                           lin.ev.push_back(e);
                   }
               }
               if (lin.ev.size() > 28)
                   continue;
               if (!lin.go(0, 0)) {
                   std::string h;
                   for (auto& e : lin.ev) {
                       char b[80];
                       snprintf(b, sizeof(b), " %s %d [%d,%d]", e.kind ? "assign" : "get", e.value, (int)e.call, (int)e.ret);
                       h += b;
                   }
                   vm::fail("not-linearizable", "no sequential order explains cell %d:%s", ci, h.c_str());
               }
               VM_COUNT("histories_linearized", 1);
               VM_COUNT("history_events", lin.ev.size());
               VM_COUNT("linearizer_states", lin.visited);
           }
           for (auto& v : events) {
               for (auto& e : v)
                   if (e.kind == 0) VM_COUNT("gets", 1); else VM_COUNT("assignments", 1);
           }
       });
    VM_COUNT("addresses_reused", g_reused.exchange(0, rlx));
    for (int i = 0; i < pl.narena; i++)
        free(pl.arena[i]);
    c.nontrivial();
}

SCENARIO(programs_plain, 220, 16000, 0) { program<Plain>(c, 2 + (int)c.rng.below(3), 4, 40, false); }
SCENARIO(programs_virtual, 120, 8000, 0) { program<Virt>(c, 2 + (int)c.rng.below(3), 4, 40, false); }
SCENARIO(programs_visible, 160, 12000, 0) { program<Visible>(c, 2 + (int)c.rng.below(3), 4, 40, false); }
// Objects are created where destroyed ones were.
SCENARIO(address_reuse, 200, 16000, 0) {
    switch (c.index % 3) {
        case 0: program<Plain>(c, 2 + (int)c.rng.below(3), 5, 50, true); break;
        case 1: program<Virt>(c, 2 + (int)c.rng.below(3), 5, 50, true); break;
        default: program<Visible>(c, 2 + (int)c.rng.below(3), 5, 50, true); break;
    }
}
SCENARIO(two_ops, 120, 6000, 0) {  // the smallest programs, many schedules each
    if (c.index & 1)
        program<Plain>(c, 2, 2, 100, c.rng.coin());
    else
        program<Visible>(c, 2, 2, 100, c.rng.coin());
}
#if !defined(VM_SCHED)
// Versions seen by readers never go backwards per writer; nothing dead is ever seen.
template <typename T>
static void stress(vm::Case& c) {
    g_use_pool = false;
    Hook::fn = nullptr;
    for (int i = 0; i < kMaxSerial; i++) {
        g_state[i].store(0, rlx);
        g_local[i].store(0, rlx);
    }
    g_serial.store(0, rlx);
    const int writers = 2, readers = 2, per = 1500;
    {
        ke::AtomicRef<T> cell(new T());
        conc::Gate gate;
        std::atomic<int> last[writers];
        std::vector<std::thread> ts;
        for (int w = 0; w < writers; w++) {
            last[w] = 0;
            ts.emplace_back([&cell, &gate, &last, w] {
                gate.arrive(writers + readers);
                for (int i = 0; i < per; i++) {
                    T* p = new T();
                    last[w].store(p->d.serial, rlx);
                    cell = p;
                }
            });
        }
        for (int r = 0; r < readers; r++) {
            ts.emplace_back([&cell, &gate] {
                gate.arrive(writers + readers);
                for (int i = 0; i < per; i++) {
                    ke::RefPtr<T> p = cell.get();
                    if (!p)
                        vm::fail("not-linearizable", "get() returned null from a cell that never held it");
                    g_local[p->d.serial].fetch_add(1, rlx);
                    p->d.check();
                    ke::RefPtr<T> q = cell.get();
                    q->d.check();
                    g_local[p->d.serial].fetch_sub(1, rlx);
                }
            });
        }
        for (auto& t : ts)
            t.join();
        ke::RefPtr<T> end = cell.get();
        bool ok = false;
        for (auto& l : last)
            ok |= l.load() == end->d.serial;
        VM_CHECK(c, ok, "not-linearizable", "the cell ends with a value nobody assigned last");
    }
    for (int i = 1; i <= g_serial.load(); i++)
        VM_CHECK(c, g_state[i].load() == 2, "never-destroyed", "object %d is not destroyed", i);
    VM_COUNT("stress_operations", (writers + 2 * readers) * per);
    c.nontrivial();
}
SCENARIO(stress_real, 16, 1500, 0) {
    switch (c.index % 3) {
        case 0: stress<Plain>(c); break;
        case 1: stress<Virt>(c); break;
        default: stress<Visible>(c); break;
    }
}
#endif
