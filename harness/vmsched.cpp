// vmsched.cpp - see vmsched.h. Compiled without instrumentation.
#define VM_SCHED 1
#include "vmsched.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <new>

namespace {

const int kMaxThreads = 12;
typedef uint32_t Clk;
struct VC {
    Clk c[kMaxThreads];
    void clear() { memset(c, 0, sizeof(c)); }
    void join(const VC& o) {
        for (int i = 0; i < kMaxThreads; i++) {
            if (o.c[i] > c[i])
                c[i] = o.c[i];
        }
    }
};

enum State { kFree, kRunnable, kOnMutex, kOnCond, kOnJoin, kOnFlag, kFinished };

struct Th {
    int id;
    State state;
    VC c, acq, rel;  // clock; what an acquire fence would acquire; what a release fence released
    bool has_rel;
    const void* on;
    int join_on;
    bool timed, signaled;
    uint64_t prio;
    std::atomic<int> sem;
    pthread_t real;
    bool real_set, joined;
    void* (*fn)(void*);
    void* arg;
    int quiet;
};

// One granule of eight bytes.
struct ByteState {
    Clk wc;
    int8_t wt;
    Clk r[kMaxThreads], aw[kMaxThreads], ar[kMaxThreads];
};
struct Cell {
    uintptr_t g;
    uint32_t run;
    bool freed;
    ByteState b[8];
};
const size_t kCells = 1 << 13;
Cell* g_cells;

struct SyncVar {
    uintptr_t a;
    uint32_t run;
    VC c;
    int8_t rel_tid;
    int owner;      // mutexes: thread, or -1
    int count;      // recursive mutexes
    int progress;   // once, guards
};
const size_t kSyncs = 1 << 11;
SyncVar* g_syncs;

struct Block {
    void* p;
    uint32_t run;
    bool live;
    size_t n;
};
const size_t kBlocks = 1 << 14;
Block* g_blocks;
void* g_deferred[1 << 15];
size_t g_ndeferred;
std::atomic_flag g_defer_lock = ATOMIC_FLAG_INIT;

Th g_th[kMaxThreads];
int g_nth;
uint32_t g_run;
std::atomic<bool> g_active;
sched::Options g_opt;
sched::Result g_res;
uint64_t g_rng;
uint64_t g_low_prio;
uint64_t g_change[16];
int64_t g_live;
void (*g_fail)(const char*, const char*);

thread_local Th* t_self __attribute__((tls_model("initial-exec")));

struct Event {
    int t;
    const char* what;
    const void* a;
    const void* pc;
};
Event g_ev[64];
uint64_t g_nev;

uint64_t rnd() {
    g_rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

template <typename F>
F real(const char* name, const char* ver = nullptr) {
    void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
    if (!p)
        p = dlsym(RTLD_NEXT, name);
    return (F)p;
}
#define REAL(name) (real_##name ? real_##name : (real_##name = real<decltype(real_##name)>(#name)))
#define DECL_REAL(ret, name, ...) ret (*real_##name)(__VA_ARGS__)
DECL_REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
DECL_REAL(int, pthread_join, pthread_t, void**);
DECL_REAL(int, pthread_mutex_lock, pthread_mutex_t*);
DECL_REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
DECL_REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
DECL_REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
DECL_REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
DECL_REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
DECL_REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
DECL_REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
DECL_REAL(int, pthread_cond_signal, pthread_cond_t*);
DECL_REAL(int, pthread_cond_broadcast, pthread_cond_t*);
DECL_REAL(int, pthread_once, pthread_once_t*, void (*)());
DECL_REAL(int, pthread_key_create, pthread_key_t*, void (*)(void*));
DECL_REAL(int, pthread_key_delete, pthread_key_t);
DECL_REAL(void*, pthread_getspecific, pthread_key_t);
DECL_REAL(int, pthread_setspecific, pthread_key_t, const void*);
DECL_REAL(int, pthread_spin_lock, pthread_spinlock_t*);
DECL_REAL(int, pthread_spin_trylock, pthread_spinlock_t*);
DECL_REAL(int, pthread_spin_unlock, pthread_spinlock_t*);
DECL_REAL(int, sched_yield, void);
DECL_REAL(int, nanosleep, const struct timespec*, struct timespec*);
DECL_REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
DECL_REAL(int, usleep, useconds_t);

void put_pc(char* buf, size_t n, const void* pc) {
    Dl_info di;
    if (pc && dladdr((void*)pc, &di) && di.dli_sname) {
        int st = 0;
        char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        snprintf(buf, n, "%.110s", d ? d : di.dli_sname);
        free(d);
    } else if (pc && dladdr((void*)pc, &di)) {
        snprintf(buf, n, "bin+0x%zx", (size_t)((const char*)pc - (const char*)di.dli_fbase));
    } else {
        snprintf(buf, n, "%p", pc);
    }
}

[[noreturn]] void report(const char* key, const char* fmt, ...) {
    t_self = nullptr;
    char msg[1400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(msg, sizeof(msg), fmt, ap);
    va_end(ap);
    n += snprintf(msg + n, sizeof(msg) - n, " | last events:");
    uint64_t from = g_nev > 14 ? g_nev - 14 : 0;
    for (uint64_t i = from; i < g_nev && n < (int)sizeof(msg) - 200; i++) {
        Event& e = g_ev[i % 64];
        n += snprintf(msg + n, sizeof(msg) - n, " T%d:%s", e.t, e.what);
    }
    if (g_fail)
        g_fail(key, msg);
    fprintf(stderr, "%s: %s\n", key, msg);
    _exit(70);
}

void futex_wait(std::atomic<int>* a, int v) {
    syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void futex_wake(std::atomic<int>* a) {
    syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void post(Th* t) {
    t->sem.store(1, std::memory_order_release);
    futex_wake(&t->sem);
}
void wait(Th* t) {
    for (int i = 0; i < 60; i++) {
        if (t->sem.load(std::memory_order_acquire))
            break;
        __builtin_ia32_pause();
    }
    while (t->sem.load(std::memory_order_acquire) == 0)
        futex_wait(&t->sem, 0);
    t->sem.store(0, std::memory_order_relaxed);
}

SyncVar* sync_of(const void* p) {
    uintptr_t a = (uintptr_t)p;
    size_t i = mix(a) & (kSyncs - 1);
    for (size_t k = 0; k < kSyncs; k++, i = (i + 1) & (kSyncs - 1)) {
        SyncVar& s = g_syncs[i];
        if (s.run == g_run && s.a == a)
            return &s;
        if (s.run != g_run) {
            s.run = g_run;
            s.a = a;
            s.c.clear();
            s.rel_tid = -1;
            s.owner = -1;
            s.count = 0;
            s.progress = 0;
            return &s;
        }
    }
    report("harness", "too many synchronisation variables");
}
Cell* cell_of(uintptr_t g, bool make) {
    size_t i = mix(g) & (kCells - 1);
    for (size_t k = 0; k < kCells; k++, i = (i + 1) & (kCells - 1)) {
        Cell& s = g_cells[i];
        if (s.run == g_run && s.g == g)
            return &s;
        if (s.run != g_run) {
            if (!make)
                return nullptr;
            memset(&s, 0, sizeof(s));
            s.run = g_run;
            s.g = g;
            for (int b = 0; b < 8; b++)
                s.b[b].wt = -1;
            return &s;
        }
    }
    report("harness", "shadow memory exhausted");
}
Block* block_of(void* p, bool make) {
    size_t i = mix((uintptr_t)p) & (kBlocks - 1);
    for (size_t k = 0; k < kBlocks; k++, i = (i + 1) & (kBlocks - 1)) {
        Block& s = g_blocks[i];
        if (s.run == g_run && s.p == p)
            return &s;
        if (s.run != g_run) {
            if (!make)
                return nullptr;
            s.run = g_run;
            s.p = p;
            s.live = false;
            s.n = 0;
            return &s;
        }
    }
    report("harness", "block table exhausted");
}

void event(const char* what, const void* a, const void* pc) {
    Event& e = g_ev[g_nev++ % 64];
    e.t = t_self->id;
    e.what = what;
    e.a = a;
    e.pc = pc;
    if (g_opt.trace) {
        char f[128];
        put_pc(f, sizeof(f), pc);
        printf("TRACE T%d %s %p in %s\n", e.t, what, a, f);
        fflush(stdout);
    }
}

bool enabled(Th* t) {
    switch (t->state) {
        case kRunnable: return true;
        case kOnMutex: return sync_of(t->on)->owner == -1 || t->timed;
        case kOnCond: return t->signaled || t->timed;
        case kOnJoin: return g_th[t->join_on].state == kFinished;
        case kOnFlag: return sync_of(t->on)->progress != 1;
        default: return false;
    }
}

Th* choose(Th* cur, bool yielding) {
    Th* en[kMaxThreads];
    int n = 0;
    bool cur_en = false;
    for (int i = 0; i < g_nth; i++) {
        if (!enabled(&g_th[i]))
            continue;
        if (&g_th[i] == cur) {
            cur_en = true;
            if (yielding)
                continue;
        }
        en[n++] = &g_th[i];
    }
    if (n == 0)
        return cur_en ? cur : nullptr;
    bool tail = g_res.steps > 4000;  // fair from here on
    if (g_opt.strategy == sched::kPct && !tail) {
        if (yielding && cur)
            cur->prio = g_low_prio--;
        for (unsigned i = 0; i < g_opt.depth && i < 16; i++) {
            if (g_change[i] == g_res.steps && cur)
                cur->prio = g_low_prio--;
        }
        Th* best = nullptr;
        for (int i = 0; i < n; i++) {
            if (!best || en[i]->prio > best->prio)
                best = en[i];
        }
        return best;
    }
    if (cur_en && !yielding && !tail) {
        unsigned den = g_opt.strategy == sched::kLazy ? 1u << g_opt.depth : 2;
        if (rnd() % den)
            return cur;
    }
    return en[rnd() % n];
}

void hand_over(Th* cur, Th* next) {
    if (next == cur)
        return;
    g_res.switches++;
    post(next);
    wait(cur);
}

// Called with the baton held; the current thread's state says whether it can go on.
void reschedule(bool yielding) {
    Th* me = t_self;
    Th* next = choose(me, yielding);
    if (!next) {
        char msg[300];
        int k = 0;
        for (int i = 0; i < g_nth; i++)
            k += snprintf(msg + k, sizeof(msg) - k, " T%d:%s", i,
                          g_th[i].state == kOnMutex ? "mutex" : g_th[i].state == kOnCond ? "condition"
                          : g_th[i].state == kOnJoin ? "join" : g_th[i].state == kOnFlag ? "once"
                          : g_th[i].state == kFinished ? "finished" : "?");
        report("deadlock", "no thread can go on:%s", msg);
    }
    hand_over(me, next);
}

void step(const char* what, const void* a, const void* pc, bool yielding = false) {
    Th* me = t_self;
    g_res.steps++;
    if (g_res.steps > 60000)
        report("no-progress", "the threads are still running after 60000 steps of a fair schedule");
    reschedule(yielding);
    event(what, a, pc);
    g_res.sig = mix(g_res.sig ^ ((uint64_t)me->id << 8) ^ (uint64_t)(unsigned char)what[0] * 131 ^ (unsigned char)what[1]);
}

inline Th* on() {
    Th* t = t_self;
    return t && !t->quiet ? t : nullptr;
}

[[noreturn]] void race(const char* mine, const char* theirs, int other, uintptr_t a, const void* pc) {
    char f[128];
    put_pc(f, sizeof(f), pc);
    report("data-race", "%s by T%d in %s races with an earlier %s by T%d (address %p)", mine,
           t_self ? t_self->id : -1, f, theirs, other, (void*)a);
}

void access_bytes(Th* t, uintptr_t a, size_t n, bool write, bool atomic, const void* pc) {
    if (n > 4096)
        n = 4096;
    g_res.accesses++;
    Cell* c = nullptr;
    for (size_t k = 0; k < n; k++, a++) {
        if (!c || (a & 7) == 0) {
            c = cell_of(a >> 3, true);
            if (c->freed) {
                char f[128];
                put_pc(f, sizeof(f), pc);
                report("use-after-free", "T%d accesses freed memory in %s", t->id, f);
            }
        }
        ByteState& b = c->b[a & 7];
        if (b.wt >= 0 && b.wt != t->id && b.wc > t->c.c[b.wt])
            race(write ? "write" : "read", "write", b.wt, a, pc);
        for (int i = 0; i < g_nth; i++) {
            if (i == t->id)
                continue;
            if (write && b.r[i] > t->c.c[i])
                race(atomic ? "atomic write" : "write", "read", i, a, pc);
            if (!atomic) {
                if (b.aw[i] > t->c.c[i])
                    race(write ? "write" : "read", "atomic write", i, a, pc);
                if (write && b.ar[i] > t->c.c[i])
                    race("write", "atomic read", i, a, pc);
            }
        }
        Clk now = t->c.c[t->id];
        if (atomic)
            (write ? b.aw : b.ar)[t->id] = now;
        else if (write)
            b.wc = now, b.wt = (int8_t)t->id;
        else
            b.r[t->id] = now;
    }
}

void plain(const void* p, size_t n, bool write, const void* pc) {
    Th* t = on();
    if (!t)
        return;
    if (g_opt.plain && rnd() % g_opt.plain == 0)
        step(write ? "write" : "read", p, pc);
    access_bytes(t, (uintptr_t)p, n, write, false, pc);
}

void acquire(Th* t, SyncVar* s) { t->c.join(s->c); }
void release(Th* t, SyncVar* s, bool rmw) {
    if (!rmw)
        s->c.clear();
    s->c.join(t->c);
    s->rel_tid = (int8_t)t->id;
    t->c.c[t->id]++;
}
bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void at_load(Th* t, const void* p, size_t n, int mo, const void* pc) {
    access_bytes(t, (uintptr_t)p, n, false, true, pc);
    SyncVar* s = sync_of(p);
    if (is_acq(mo))
        acquire(t, s);
    else
        t->acq.join(s->c);
}
void at_store(Th* t, const void* p, size_t n, int mo, const void* pc) {
    access_bytes(t, (uintptr_t)p, n, true, true, pc);
    SyncVar* s = sync_of(p);
    if (is_rel(mo)) {
        release(t, s, false);
    } else {
        if (s->rel_tid != t->id)
            s->c.clear();  // ends the release sequence
        if (t->has_rel)
            s->c.join(t->rel);
    }
}
void at_rmw(Th* t, const void* p, size_t n, int mo, const void* pc) {
    access_bytes(t, (uintptr_t)p, n, true, true, pc);
    SyncVar* s = sync_of(p);
    if (is_acq(mo))
        acquire(t, s);
    else
        t->acq.join(s->c);
    if (is_rel(mo))
        release(t, s, true);
    else if (t->has_rel)
        s->c.join(t->rel);
}

void free_now(void* p) {
    while (g_defer_lock.test_and_set(std::memory_order_acquire)) {
    }
    if (g_ndeferred < sizeof(g_deferred) / sizeof(g_deferred[0])) {
        g_deferred[g_ndeferred++] = p;
        p = nullptr;
    }
    g_defer_lock.clear(std::memory_order_release);
    (void)p;  // beyond that: lost
}

void* alloc(size_t n, size_t align, bool nothrow) {
    void* p = nullptr;
    if (align <= 16)
        p = malloc(n ? n : 1);
    else if (posix_memalign(&p, align, n ? n : 1) != 0)
        p = nullptr;
    if (!p) {
        if (nothrow)
            return nullptr;
        throw std::bad_alloc();
    }
    if (on()) {
        Block* b = block_of(p, true);
        b->live = true;
        b->n = n;
        g_live++;
    }
    return p;
}
void dealloc(void* p, const void* pc) {
    if (!p)
        return;
    Th* t = t_self;
    if (!t) {
        if (g_active.load(std::memory_order_relaxed))
            free_now(p);
        else
            free(p);
        return;
    }
    Block* b = block_of(p, false);
    if (!b && t->quiet) {
        free_now(p);
        return;
    }
    size_t n = b ? b->n : malloc_usable_size(p);
    if (b && !b->live) {
        char f[128];
        put_pc(f, sizeof(f), pc);
        report("double-free", "T%d frees a block again in %s", t->id, f);
    }
    if (!b) {
        b = block_of(p, true);
        b->n = n;
    } else {
        g_live--;
    }
    b->live = false;
    if (!t->quiet)
        access_bytes(t, (uintptr_t)p, n, true, false, pc);
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + (n ? n - 1 : 0)) >> 3 && n && g < ((uintptr_t)p >> 3) + 512; g++)
        cell_of(g, true)->freed = true;
    free_now(p);
}

void lock_blocking(Th* t, const void* m, const void* pc) {
    step("lock", m, pc);
    SyncVar* s = sync_of(m);
    while (s->owner != -1) {
        t->state = kOnMutex;
        t->on = m;
        t->timed = false;
        reschedule(false);
        t->state = kRunnable;
    }
    s->owner = t->id;
    acquire(t, s);
}

bool cond_wait(Th* t, const void* cond, const void* m, bool timed, const void* pc) {
    SyncVar* s = sync_of(m);
    if (s->owner != t->id)
        report("lock-misuse", "T%d waits on a condition without holding the mutex", t->id);
    step("wait", cond, pc);
    s->owner = -1;
    release(t, s, true);
    t->state = kOnCond;
    t->on = cond;
    t->timed = timed || rnd() % 8 == 0;  // spurious wakeups happen
    t->signaled = false;
    reschedule(true);
    bool signaled = t->signaled;
    t->state = kRunnable;
    t->signaled = false;
    lock_blocking(t, m, pc);
    return signaled;
}
void cond_wake(Th* t, const void* cond, bool all, const void* pc) {
    step(all ? "broadcast" : "signal", cond, pc);
    int w[kMaxThreads], n = 0;
    for (int i = 0; i < g_nth; i++) {
        if (g_th[i].state == kOnCond && g_th[i].on == cond && !g_th[i].signaled)
            w[n++] = i;
    }
    if (!n)
        return;
    if (all) {
        for (int i = 0; i < n; i++)
            g_th[w[i]].signaled = true;
    } else {
        g_th[w[rnd() % n]].signaled = true;
    }
    (void)t;
}

void* thread_main(void* arg) {
    Th* t = (Th*)arg;
    wait(t);
    t_self = t;
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        // The stack may have been another thread's: the memory is new to the program.
        void* lo;
        size_t n;
        pthread_attr_getstack(&at, &lo, &n);
        pthread_attr_destroy(&at);
        uintptr_t a = (uintptr_t)lo >> 3, b = ((uintptr_t)lo + n) >> 3;
        for (size_t i = 0; i < kCells; i++) {
            Cell& c = g_cells[i];
            if (c.run == g_run && c.g >= a && c.g < b) {
                memset(c.b, 0, sizeof(c.b));
                for (int k = 0; k < 8; k++)
                    c.b[k].wt = -1;
            }
        }
    }
    event("start", nullptr, nullptr);
    void* rv = t->fn(t->arg);
    event("exit", nullptr, nullptr);
    t->state = kFinished;
    g_res.steps++;
    Th* next = choose(nullptr, false);
    if (!next)
        report("deadlock", "T%d ended and no other thread can go on", t->id);
    t_self = nullptr;
    g_res.switches++;
    post(next);
    return rv;
}

}  // namespace

namespace sched {

void fail_handler(void (*fn)(const char*, const char*)) { g_fail = fn; }
void quiet_begin() {
    if (t_self)
        t_self->quiet++;
}
void quiet_end() {
    if (t_self)
        t_self->quiet--;
}
void point() {
    if (on())
        step("point", nullptr, __builtin_return_address(0));
}
int self() { return t_self ? t_self->id : -1; }
bool running() { return t_self != nullptr; }

static void init_thread(int id) {
    Th* t = &g_th[id];
    t->id = id;
    t->state = kRunnable;
    t->c.clear();
    t->acq.clear();
    t->rel.clear();
    t->has_rel = false;
    t->timed = t->signaled = false;
    t->prio = 1000000 + rnd() % 1000000;
    t->sem = 0;
    t->real_set = t->joined = false;
    t->quiet = 0;
    t->on = nullptr;
}

Result run(const Options& o, const std::function<void()>& body) {
    if (!g_cells) {
        g_cells = (Cell*)calloc(kCells, sizeof(Cell));
        g_syncs = (SyncVar*)calloc(kSyncs, sizeof(SyncVar));
        g_blocks = (Block*)calloc(kBlocks, sizeof(Block));
    }
    g_run++;
    g_opt = o;
    g_res = Result();
    g_rng = mix(o.seed);
    g_nev = 0;
    g_live = 0;
    g_low_prio = 900000;
    g_nth = 1;
    init_thread(0);
    g_th[0].c.c[0] = 1;
    for (unsigned i = 0; i < 16; i++)
        g_change[i] = 1 + rnd() % (o.length ? o.length : 1);
    g_active = true;
    t_self = &g_th[0];
    body();
    // Threads that were detached run to their end.
    for (int i = 1; i < g_nth; i++) {
        if (g_th[i].state != kFinished) {
            g_th[0].state = kOnJoin;
            g_th[0].join_on = i;
            reschedule(false);
            g_th[0].state = kRunnable;
        }
    }
    t_self = nullptr;
    g_active = false;
    g_res.threads = g_nth;
    g_res.leaked = g_live;
    while (g_defer_lock.test_and_set(std::memory_order_acquire)) {
    }
    for (size_t i = 0; i < g_ndeferred; i++)
        free(g_deferred[i]);
    g_ndeferred = 0;
    g_defer_lock.clear(std::memory_order_release);
    return g_res;
}

}  // namespace sched

// -------------------------------------------------------------------------------------------------
// Allocation.
void* operator new(size_t n) { return alloc(n, 16, false); }
void* operator new[](size_t n) { return alloc(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a, false); }
void operator delete(void* p) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p, __builtin_return_address(0)); }

extern "C" {

// -------------------------------------------------------------------------------------------------
// Threads, locks, keys.
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_create)(out, attr, fn, arg);
    step("create", nullptr, __builtin_return_address(0));
    if (g_nth == kMaxThreads)
        report("harness", "more than %d threads in a run", kMaxThreads);
    Th* n = &g_th[g_nth];
    sched::init_thread(g_nth);
    n->state = kFree;
    n->fn = fn;
    n->arg = arg;
    n->c = t->c;
    n->c.c[n->id] = 1;
    t->c.c[t->id]++;
    int rv = REAL(pthread_create)(out, attr, thread_main, n);
    if (rv != 0)
        return rv;
    n->real = *out;
    n->real_set = true;
    n->state = kRunnable;
    g_nth++;
    step("created", nullptr, __builtin_return_address(0));
    return 0;
}
int pthread_join(pthread_t p, void** rv) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_join)(p, rv);
    for (int i = 1; i < g_nth; i++) {
        Th* o = &g_th[i];
        if (o->real_set && !o->joined && pthread_equal(o->real, p)) {
            step("join", nullptr, __builtin_return_address(0));
            if (o->state != kFinished) {
                t->state = kOnJoin;
                t->join_on = i;
                reschedule(false);
                t->state = kRunnable;
            }
            o->joined = true;
            t->c.join(o->c);
            break;
        }
    }
    return REAL(pthread_join)(p, rv);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_mutex_lock)(m);
    SyncVar* s = sync_of(m);
    if (s->owner == t->id) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            s->count++;
            return 0;
        }
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK)
            return EDEADLK;
        report("deadlock", "T%d locks a mutex it holds", t->id);
    }
    lock_blocking(t, m, __builtin_return_address(0));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_mutex_trylock)(m);
    step("trylock", m, __builtin_return_address(0));
    SyncVar* s = sync_of(m);
    if (s->owner != -1) {
        if (s->owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            s->count++;
            return 0;
        }
        return EBUSY;
    }
    s->owner = t->id;
    acquire(t, s);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!t_self)
        return REAL(pthread_mutex_timedlock)(m, ts);
    return pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    if (!t_self)
        return REAL(pthread_mutex_clocklock)(m, c, ts);
    return pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_mutex_unlock)(m);
    step("unlock", m, __builtin_return_address(0));
    SyncVar* s = sync_of(m);
    if (s->owner != t->id)
        report("lock-misuse", "T%d unlocks a mutex %s", t->id, s->owner == -1 ? "nobody holds" : "of another thread");
    if (s->count) {
        s->count--;
        return 0;
    }
    s->owner = -1;
    release(t, s, true);
    if (!t->quiet)
        step("unlocked", m, __builtin_return_address(0));
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!t_self)
        return (real_pthread_cond_wait ? real_pthread_cond_wait : (real_pthread_cond_wait = real<decltype(real_pthread_cond_wait)>("pthread_cond_wait", "GLIBC_2.3.2")))(c, m);
    cond_wait(t_self, c, m, false, __builtin_return_address(0));
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!t_self)
        return (real_pthread_cond_timedwait ? real_pthread_cond_timedwait : (real_pthread_cond_timedwait = real<decltype(real_pthread_cond_timedwait)>("pthread_cond_timedwait", "GLIBC_2.3.2")))(c, m, ts);
    return cond_wait(t_self, c, m, true, __builtin_return_address(0)) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (!t_self)
        return REAL(pthread_cond_clockwait)(c, m, k, ts);
    return cond_wait(t_self, c, m, true, __builtin_return_address(0)) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!t_self)
        return (real_pthread_cond_signal ? real_pthread_cond_signal : (real_pthread_cond_signal = real<decltype(real_pthread_cond_signal)>("pthread_cond_signal", "GLIBC_2.3.2")))(c);
    cond_wake(t_self, c, false, __builtin_return_address(0));
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!t_self)
        return (real_pthread_cond_broadcast ? real_pthread_cond_broadcast : (real_pthread_cond_broadcast = real<decltype(real_pthread_cond_broadcast)>("pthread_cond_broadcast", "GLIBC_2.3.2")))(c);
    cond_wake(t_self, c, true, __builtin_return_address(0));
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_once)(o, fn);
    step("once", o, __builtin_return_address(0));
    SyncVar* s = sync_of(o);
    while (s->progress == 1) {
        t->state = kOnFlag;
        t->on = o;
        reschedule(false);
        t->state = kRunnable;
    }
    if (s->progress != 2 && (*o & 2) == 0) {
        s->progress = 1;
        fn();
        s->progress = 2;
        *o = 2;
        release(t, s, true);
    } else {
        acquire(t, s);
    }
    return 0;
}
int __cxa_guard_acquire(int64_t* g) {
    unsigned char* b = (unsigned char*)g;
    Th* t = t_self;
    if (!t) {
        for (;;) {
            if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE))
                return 0;
            unsigned char zero = 0;
            if (__atomic_compare_exchange_n(&b[1], &zero, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_RELAXED)) {
                if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) {
                    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
                    return 0;
                }
                return 1;
            }
            REAL(sched_yield)();
        }
    }
    if (t->quiet) {
        if (b[0])
            return 0;
        b[1] = 1;
        return 1;
    }
    step("guard", g, __builtin_return_address(0));
    SyncVar* s = sync_of(g);
    while (s->progress == 1) {
        t->state = kOnFlag;
        t->on = g;
        reschedule(false);
        t->state = kRunnable;
    }
    acquire(t, s);
    if (b[0])
        return 0;
    s->progress = 1;
    return 1;
}
void __cxa_guard_release(int64_t* g) {
    unsigned char* b = (unsigned char*)g;
    Th* t = t_self;
    if (t && !t->quiet) {
        SyncVar* s = sync_of(g);
        s->progress = 2;
        release(t, s, true);
    }
    __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(int64_t* g) {
    unsigned char* b = (unsigned char*)g;
    Th* t = t_self;
    if (t && !t->quiet)
        sync_of(g)->progress = 0;
    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    Th* t = on();
    if (t) {
        step("key_create", k, __builtin_return_address(0));
        pthread_key_t tmp;
        int rv = REAL(pthread_key_create)(&tmp, d);
        if (rv == 0) {
            access_bytes(t, (uintptr_t)k, sizeof(*k), true, false, __builtin_return_address(0));
            *k = tmp;
            step("key_created", k, __builtin_return_address(0));
        }
        return rv;
    }
    return REAL(pthread_key_create)(k, d);
}
int pthread_key_delete(pthread_key_t k) {
    if (on())
        step("key_delete", nullptr, __builtin_return_address(0));
    return REAL(pthread_key_delete)(k);
}
void* pthread_getspecific(pthread_key_t k) {
    if (on())
        step("getspecific", nullptr, __builtin_return_address(0));
    return REAL(pthread_getspecific)(k);
}
int pthread_setspecific(pthread_key_t k, const void* v) {
    if (on())
        step("setspecific", nullptr, __builtin_return_address(0));
    return REAL(pthread_setspecific)(k, v);
}
int pthread_spin_lock(pthread_spinlock_t* l) {
    if (!t_self)
        return REAL(pthread_spin_lock)(l);
    lock_blocking(t_self, (const void*)l, __builtin_return_address(0));
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
    if (!t_self)
        return REAL(pthread_spin_trylock)(l);
    return pthread_mutex_trylock((pthread_mutex_t*)l);
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
    Th* t = t_self;
    if (!t)
        return REAL(pthread_spin_unlock)(l);
    step("unlock", (const void*)l, __builtin_return_address(0));
    SyncVar* s = sync_of((const void*)l);
    s->owner = -1;
    release(t, s, true);
    return 0;
}
int sched_yield(void) {
    if (!on())
        return REAL(sched_yield)();
    step("yield", nullptr, __builtin_return_address(0), true);
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!on())
        return REAL(nanosleep)(a, b);
    step("sleep", nullptr, __builtin_return_address(0), true);
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
    if (!on())
        return REAL(clock_nanosleep)(c, f, a, b);
    step("sleep", nullptr, __builtin_return_address(0), true);
    return 0;
}
int usleep(useconds_t u) {
    if (!on())
        return REAL(usleep)(u);
    step("sleep", nullptr, __builtin_return_address(0), true);
    return 0;
}

// -------------------------------------------------------------------------------------------------
// What the instrumentation calls.
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v)
        plain(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { plain(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { plain(p, n, true, PC); }
#define RW(n)                                                                    \
    void __tsan_read##n(void* p) { plain(p, n, false, PC); }                     \
    void __tsan_write##n(void* p) { plain(p, n, true, PC); }                     \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC); }           \
    void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC); }           \
    void __tsan_volatile_read##n(void* p) { plain(p, n, false, PC); }            \
    void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC); }            \
    void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false, PC); }  \
    void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true, PC); }  \
    void __tsan_read_write##n(void* p) { plain(p, n, false, PC); plain(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { plain(p, n, false, PC); plain(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) {
        plain(s, n, false, PC);
        plain(d, n, true, PC);
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) {
        plain(s, n, false, PC);
        plain(d, n, true, PC);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
    if (n)
        plain(d, n, true, PC);
    return memset(d, v, n);
}

#define ATOMICS(bits, T)                                                                           \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                    \
        if (Th* t = on()) {                                                                        \
            step("load", (const void*)p, PC);                                                      \
            at_load(t, (const void*)p, sizeof(T), mo, PC);                                         \
        }                                                                                          \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                               \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                 \
        if (Th* t = on()) {                                                                        \
            step("store", (const void*)p, PC);                                                     \
            at_store(t, (const void*)p, sizeof(T), mo, PC);                                        \
        }                                                                                          \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    ATOMIC_RMW(bits, T, exchange, __atomic_exchange_n)                                             \
    ATOMIC_RMW(bits, T, fetch_add, __atomic_fetch_add)                                             \
    ATOMIC_RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                             \
    ATOMIC_RMW(bits, T, fetch_and, __atomic_fetch_and)                                             \
    ATOMIC_RMW(bits, T, fetch_or, __atomic_fetch_or)                                               \
    ATOMIC_RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                             \
    ATOMIC_RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                           \
    static int cas##bits(volatile T* p, T* e, T v, int mo, int fmo, bool weak, const void* pc) {   \
        Th* t = on();                                                                              \
        if (t) {                                                                                   \
            step("cas", (const void*)p, pc);                                                       \
            if (weak && rnd() % 8 == 0) {                                                          \
                at_load(t, (const void*)p, sizeof(T), fmo, pc);                                    \
                *e = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                         \
                return 0;                                                                          \
            }                                                                                      \
        }                                                                                          \
        bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (t) {                                                                                   \
            if (ok)                                                                                \
                at_rmw(t, (const void*)p, sizeof(T), mo, pc);                                      \
            else                                                                                   \
                at_load(t, (const void*)p, sizeof(T), fmo, pc);                                    \
        }                                                                                          \
        return ok;                                                                                 \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
        return cas##bits(p, e, v, mo, fmo, false, PC);                                             \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {   \
        return cas##bits(p, e, v, mo, fmo, true, PC);                                              \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {       \
        cas##bits(p, &e, v, mo, fmo, false, PC);                                                   \
        return e;                                                                                  \
    }
#define ATOMIC_RMW(bits, T, op, fn)                                  \
    T __tsan_atomic##bits##_##op(volatile T* p, T v, int mo) {       \
        if (Th* t = on()) {                                          \
            step(#op, (const void*)p, PC);                           \
            at_rmw(t, (const void*)p, sizeof(T), mo, PC);            \
        }                                                            \
        return fn(p, v, __ATOMIC_SEQ_CST);                           \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    Th* t = on();
    if (!t)
        return;
    step("fence", nullptr, PC);
    if (is_acq(mo))
        t->c.join(t->acq);
    if (is_rel(mo)) {
        t->rel = t->c;
        t->has_rel = true;
        t->c.c[t->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
