// vm.h - the monitoring runtime every harness is built on.
//
// A harness is one translation unit holding SCENARIOs. A scenario is a function that builds one
// case (a workload plus its oracle) from a case seed; the case seed is a pure function of
// (VERIF_SEED, scenario name, case index), so every case can be replayed alone.
//
// The runtime gives a case:
//   c.rng                  deterministic randomness
//   c.log(...)             trace line (recorded for samples and for replays only)
//   c.sig(x)               mixes an observed fact into the signature of the case
//   c.nontrivial()         the case reached what the scenario is about
//   VM_COUNT(name, n)      counts an observed event, reported in the evidence
//   VM_CHECK(c, cond, key, fmt, ...)   oracle; failing ends the process with status 70
// and it watches: heap blocks left behind by a case, cases that never end, and (through the
// driver) sanitizer reports and crashes, which are attributed to the running case.
#ifndef VM_H_
#define VM_H_

#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <assert.h>
#include <limits.h>
#include <math.h>
#include <stddef.h>

#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <tuple>
#include <type_traits>
#include <utility>
#include <atomic>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#    define VM_ASAN 1
#elif defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VM_ASAN 1
#    endif
#endif
#if defined(VM_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif

#define VM_NOINLINE __attribute__((noinline))

namespace vm {

// ---------------------------------------------------------------------------------------------
// Randomness.
static inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint64_t hash_str(const char* s) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (; *s; s++)
        h = (h ^ (unsigned char)*s) * 0x100000001b3ull;
    return mix64(h);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() & 1; }
    // A number with a roughly uniform bit length: reaches small, large and boundary values.
    uint64_t wide() {
        unsigned bits = (unsigned)below(65);
        uint64_t v = bits == 0 ? 0 : bits == 64 ? next() : next() & ((1ull << bits) - 1);
        switch (below(6)) {
            case 0: return bits == 0 ? 0 : 1ull << (bits - 1);
            case 1: return bits == 0 ? 0 : (1ull << (bits - 1)) - 1;
            case 2: return bits == 0 ? 0 : (1ull << (bits - 1)) + 1;
            default: return v;
        }
    }
};

// ---------------------------------------------------------------------------------------------
// Process-wide state.
struct Progress {  // lives in a shared mapping: survives the crash of this process
    char scenario[96];
    volatile uint64_t index;
    volatile uint64_t done;
};
struct Counter {
    const char* name;
    uint64_t n;
    Counter* next;
    bool listed;
};
struct Case;
struct Scenario {
    const char* name;
    void (*fn)(Case&);
    uint64_t quick;
    uint64_t thorough;
    unsigned flags;
    Scenario* next;
    uint64_t cases, nontrivial, known;
};
enum { kNoLeakCheck = 1, kSingle = 2 };

struct Global {
    Scenario* scenarios = nullptr;
    uint64_t seed = 1;
    bool thorough = false;
    bool replay = false;
    Progress* progress = nullptr;
    Progress local_progress;
    std::vector<std::string> known;
    double cpu_limit = 20;
    double wall_limit = 120;
    const char* config = "?";
};
// A function-local static would need guards in every TU; a harness is one TU.
static Global& G() {
    static Global* g = new Global();
    return *g;
}

// Heap accounting -----------------------------------------------------------------------------
static std::atomic<int64_t> g_live_blocks;
static std::atomic<uint64_t> g_allocs;
static std::atomic<uint64_t> g_frees;
static thread_local int t_nocount;
static std::atomic<int> g_hooks_on;

struct NoCount {  // allocations of the monitor itself
    NoCount() { t_nocount++; }
    ~NoCount() { t_nocount--; }
};
static void on_malloc(const volatile void* p, size_t) {
    if (t_nocount || !p)
        return;
    g_live_blocks.fetch_add(1, std::memory_order_relaxed);
    g_allocs.fetch_add(1, std::memory_order_relaxed);
}
static void on_free(const volatile void* p) {
    if (t_nocount || !p)
        return;
    g_live_blocks.fetch_sub(1, std::memory_order_relaxed);
    g_frees.fetch_add(1, std::memory_order_relaxed);
}
static inline uint64_t allocs() { return g_allocs.load(std::memory_order_relaxed); }

// The case ------------------------------------------------------------------------------------
struct Case {
    Rng rng;
    uint64_t index;
    const Scenario* scenario;
    uint64_t sig_;
    bool nontrivial_;
    bool tracing;
    std::string* trace;

    void sig(uint64_t x) { sig_ = mix64(sig_ ^ (x + 0x9E3779B97F4A7C15ull)); }
    void nontrivial() { nontrivial_ = true; }
    bool thorough() const { return G().thorough; }
    __attribute__((format(printf, 2, 3))) void log(const char* fmt, ...) {
        if (!tracing)
            return;
        NoCount nc;
        char buf[600];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        if (G().replay) {
            fputs("TRACE ", stdout);
            fputs(buf, stdout);
            fputc('\n', stdout);
            fflush(stdout);
        }
        if (trace->size() < 6000) {
            trace->append(buf);
            trace->append("; ");
        }
    }
};
static std::atomic<Case*> g_case;

static VM_NOINLINE void emit(const char* what, const char* key, const char* msg) {
    NoCount nc;
    char buf[2000];
    Progress* p = G().progress;
    int n = snprintf(buf, sizeof(buf), "\n%s key=%s scenario=%s index=%" PRIu64 " config=%s :: %s\n",
                     what, key, p->scenario, (uint64_t)p->index, G().config, msg);
    if (n > (int)sizeof(buf) - 1)
        n = sizeof(buf) - 1;
    ssize_t rv = write(1, buf, n);
    (void)rv;
}

static VM_NOINLINE __attribute__((noreturn, format(printf, 2, 3))) void
fail(const char* key, const char* fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    fflush(stdout);
    emit("FAIL", key, buf);
    _exit(70);
}

static std::atomic<uint64_t> g_known_hits;
// For a finding listed in known-findings.txt: records that it was observed and goes on.
static VM_NOINLINE __attribute__((unused, format(printf, 2, 3))) void
known_or_fail(const char* key, const char* fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    NoCount nc;
    for (auto& k : G().known) {
        if (k == key) {
            if (g_known_hits.fetch_add(1) == 0 || G().replay)
                emit("KNOWN", key, buf);
            return;
        }
    }
    fflush(stdout);
    emit("FAIL", key, buf);
    _exit(70);
}

#define VM_CHECK(c, cond, key, ...)        \
    do {                                   \
        if (__builtin_expect(!(cond), 0))  \
            ::vm::fail(key, __VA_ARGS__);  \
    } while (0)

// Counters are constant-initialised and join a lock-free list the first time they count. None of
// it is instrumented: counting is no event for the race detector or the scheduler, so it neither
// races with nor orders the threads that are watched.
#if defined(__clang__)
#define VM_UNSEEN VM_NOINLINE __attribute__((disable_sanitizer_instrumentation))
#else
#define VM_UNSEEN VM_NOINLINE __attribute__((no_sanitize("thread")))
#endif
static Counter* g_counters;
static VM_UNSEEN __attribute__((unused)) void count(Counter* c, uint64_t k) {
    if (!__atomic_load_n(&c->listed, __ATOMIC_RELAXED) &&
        !__atomic_exchange_n(&c->listed, true, __ATOMIC_RELAXED))
    {
        Counter* head = __atomic_load_n(&g_counters, __ATOMIC_RELAXED);
        do {
            __atomic_store_n(&c->next, head, __ATOMIC_RELAXED);
        } while (!__atomic_compare_exchange_n(&g_counters, &head, c, true, __ATOMIC_RELEASE,
                                              __ATOMIC_RELAXED));
    }
    __atomic_fetch_add(&c->n, k, __ATOMIC_RELAXED);
}
#define VM_COUNT(cname, k)                                       \
    do {                                                         \
        static ::vm::Counter vm_cs_ = {cname, 0, nullptr, false}; \
        ::vm::count(&vm_cs_, (uint64_t)(k));                     \
    } while (0)

struct ScenarioReg {
    ScenarioReg(const char* name, void (*fn)(Case&), uint64_t quick, uint64_t thorough,
                unsigned flags) {
        Scenario* s = new Scenario{name, fn, quick, thorough, flags, nullptr, 0, 0, 0};
        Scenario** p = &G().scenarios;
        while (*p)
            p = &(*p)->next;
        *p = s;
    }
};
// SCENARIO(name, quick cases, thorough cases, flags)
#define SCENARIO(sname, quick, thorough, flags)                                              \
    static void scn_##sname(::vm::Case& c);                                                  \
    static ::vm::ScenarioReg scnreg_##sname(#sname, scn_##sname, quick, thorough, flags);    \
    static void scn_##sname(::vm::Case& c)

// Runs fn in a child; returns the wait status. Used for outcomes that end a process.
template <typename F>
static int in_child(F fn, bool quiet = true, unsigned seconds = 40) {
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
        }
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGABRT, SIG_DFL);
        struct itimerval it;
        memset(&it, 0, sizeof(it));
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        alarm(seconds);
        fn();
        _exit(0);
    }
    if (pid < 0)
        return -1;
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    return st;
}

// ---------------------------------------------------------------------------------------------
// Tracked payloads: every construction, copy, move and destruction is an observed event.
struct Life {
    int64_t live = 0;
    uint64_t ctor = 0, copy = 0, move = 0, copy_assign = 0, move_assign = 0, dtor = 0;
    void reset() { *this = Life(); }
};
static Life L;

enum : uint32_t { kAlive = 0xA11FE5A7u, kMoved = 0x30FED000u, kDead = 0xDEADDEADu };

template <bool Copyable, size_t Pad = 0, size_t Align = 8>
struct alignas(Align) ObjT {
    uint32_t magic;
    uint32_t pad0;
    const ObjT* self;
    int* heap;  // so that ASan and the leak accounting see a wrong lifetime as well
    unsigned char pad[Pad + 1];

    void check(const char* what) const {
        if ((magic != kAlive && magic != kMoved) || self != this)
            fail("payload-lifetime", "%s of an object that is not a live object (magic=%08x %s)",
                 what, magic, self == this ? "" : "bitwise moved");
        if (((uintptr_t)this) % Align)
            fail("payload-alignment", "object at %p lacks alignment %zu", (const void*)this,
                 (size_t)Align);
    }
    void begin() {
        magic = kAlive;
        self = this;
        L.live++;
        if (((uintptr_t)this) % Align)
            fail("payload-alignment", "object at %p lacks alignment %zu", (const void*)this,
                 (size_t)Align);
        memset(pad, 0x5c, sizeof(pad));
    }
    ObjT() {
        begin();
        heap = new int(0);
        L.ctor++;
    }
    ObjT(int v) {
        begin();
        heap = new int(v);
        L.ctor++;
    }
    template <bool C = Copyable>
    ObjT(typename std::enable_if<C, const ObjT&>::type o) = delete;
    ObjT(const ObjT& o) {
        static_assert(Copyable, "copying a move-only payload");
        o.check("copy");
        begin();
        heap = o.magic == kAlive ? new int(*o.heap) : nullptr;
        if (o.magic != kAlive)
            magic = kMoved;
        L.copy++;
    }
    ObjT(ObjT&& o) noexcept(Pad != 24) {  // (MayThrowObj: it could throw, for all one can tell)
        o.check("move");
        begin();
        heap = o.heap;
        magic = o.magic;
        o.heap = nullptr;
        o.magic = kMoved;
        L.move++;
    }
    ObjT& operator=(const ObjT& o) {
        static_assert(Copyable, "copying a move-only payload");
        check("copy assignment");
        o.check("copy assignment from");
        L.copy_assign++;
        if (this == &o)
            return *this;
        delete heap;
        heap = o.magic == kAlive ? new int(*o.heap) : nullptr;
        magic = o.magic;
        return *this;
    }
    ObjT& operator=(ObjT&& o) noexcept(Pad != 24) {
        check("move assignment");
        o.check("move assignment from");
        L.move_assign++;
        if (this == &o)
            return *this;
        delete heap;
        heap = o.heap;
        magic = o.magic;
        o.heap = nullptr;
        o.magic = kMoved;
        return *this;
    }
    ~ObjT() {
        check("destruction");
        for (size_t i = 0; i < sizeof(pad); i++) {
            if (pad[i] != 0x5c)
                fail("payload-overwritten", "padding byte %zu of a payload was overwritten", i);
        }
        delete heap;
        magic = kDead;
        self = nullptr;
        L.live--;
        L.dtor++;
    }
    bool moved() const {
        check("query");
        return magic == kMoved;
    }
    int get() const {
        check("read");
        if (magic == kMoved)
            fail("payload-moved-from", "read of a moved-from payload");
        return *heap;
    }
    bool operator==(const ObjT& o) const { return get() == o.get(); }
    bool operator!=(const ObjT& o) const { return get() != o.get(); }
    bool operator<(const ObjT& o) const { return get() < o.get(); }
};
// Move-only variant: the copy operations are truly absent.
template <size_t Pad = 0, size_t Align = 8>
struct MoveObjT : public ObjT<true, Pad, Align> {
    typedef ObjT<true, Pad, Align> Base;
    MoveObjT() : Base() {}
    MoveObjT(int v) : Base(v) {}
    MoveObjT(MoveObjT&& o) noexcept : Base(std::move(o)) {}
    MoveObjT& operator=(MoveObjT&& o) noexcept {
        Base::operator=(std::move(o));
        return *this;
    }
    MoveObjT(const MoveObjT&) = delete;
    MoveObjT& operator=(const MoveObjT&) = delete;
};
typedef ObjT<true> Obj;
typedef ObjT<true, 200> BigObj;
typedef ObjT<true, 24> MayThrowObj;
typedef MoveObjT<> MoveObj;

// ---------------------------------------------------------------------------------------------
// Main.
static void on_vtalrm(int) {
    static const char msg[] = "\nHANG cpu limit for one case exceeded\n";
    ssize_t rv = write(1, msg, sizeof(msg) - 1);
    (void)rv;
    emit("HANG", "nontermination", "the case used up its CPU limit");
    _exit(71);
}
static double now_s() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static std::atomic<uint64_t> g_heartbeat;
#if !defined(VM_NO_WATCHDOG)
static std::atomic<int> g_watchdog_up;
static void* watchdog(void*) {
    t_nocount++;
    g_watchdog_up = 1;
    uint64_t last = g_heartbeat.load();
    double since = now_s();
    for (;;) {
        usleep(200000);
        uint64_t cur = g_heartbeat.load();
        if (cur == ~0ull)
            return nullptr;
        if (cur != last) {
            last = cur;
            since = now_s();
        } else if (now_s() - since > G().wall_limit) {
            emit("HANG", "nontermination", "the case made no progress within its wall limit");
            _exit(71);
        }
    }
}
#endif

static void arm_cpu(double s) {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = (time_t)s;
    it.it_value.tv_usec = (suseconds_t)((s - (time_t)s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Results {
    std::unordered_set<uint64_t> sigs;
    std::vector<std::string> samples;
};

static void run_one(Scenario* s, uint64_t index, Results& res, bool want_trace) {
    Global& g = G();
    snprintf(g.progress->scenario, sizeof(g.progress->scenario), "%s", s->name);
    g.progress->index = index;
    g_heartbeat.fetch_add(1);
    if ((g.progress->done & 15) == 0 || g.replay)
        arm_cpu(g.cpu_limit);

    std::string* trace;
    {
        NoCount nc;
        trace = new std::string();
    }
    Case c;
    int64_t balance = 0;
    for (int attempt = 0; attempt < 3; attempt++) {
        c.rng = Rng(mix64(g.seed * 0x9E3779B97F4A7C15ull ^ hash_str(s->name)) ^ mix64(index));
        c.index = index;
        c.scenario = s;
        c.sig_ = 0;
        c.nontrivial_ = false;
        c.tracing = want_trace || g.replay;
        c.trace = trace;
        trace->clear();
        g_case.store(&c);
        int64_t live0 = L.live;
        int64_t before = g_live_blocks.load();
        s->fn(c);
        balance = g_live_blocks.load() - before;
        g_case.store(nullptr);
        if (L.live != live0)
            fail("payload-leak", "%" PRId64 " payload objects more than before the case",
                 L.live - live0);
        if (!g_hooks_on.load() || (s->flags & kNoLeakCheck) || balance <= 0)
            break;
        // Blocks left: may be one-time state of the C++ library. A leak repeats.
    }
    if (g_hooks_on.load() && !(s->flags & kNoLeakCheck) && balance > 0)
        fail("heap-leak", "%" PRId64 " heap blocks left behind by the case, on every repetition",
             balance);
    NoCount nc;
    s->cases++;
    g.progress->done = g.progress->done + 1;
    if (c.nontrivial_) {
        s->nontrivial++;
        if (res.sigs.size() < 3000000)
            res.sigs.insert(mix64(c.sig_ ^ hash_str(s->name)));
    }
    if (want_trace && c.nontrivial_ && res.samples.size() < 60) {
        char head[200];
        snprintf(head, sizeof(head), "%s#%" PRIu64 ": ", s->name, index);
        res.samples.push_back(std::string(head) + *trace);
    }
    delete trace;
}

static void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            fprintf(f, "\\%c", ch);
        else if (ch < 32 || ch > 126)
            fprintf(f, "\\u%04x", ch);
        else
            fputc(ch, f);
    }
    fputc('"', f);
}

static int run_main(int argc, char** argv) {
    Global& g = G();
    g.progress = &g.local_progress;
    memset(&g.local_progress, 0, sizeof(g.local_progress));
    unsigned shard = 0, shards = 1;
    const char* out = nullptr;
    const char* sigfile = nullptr;
    std::string only;
    std::vector<std::string> filter;
    double budget = 1e9;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") g.seed = strtoull(val(), nullptr, 10);
        else if (a == "--thorough") g.thorough = true;
        else if (a == "--shard") sscanf(val(), "%u/%u", &shard, &shards);
        else if (a == "--out") out = val();
        else if (a == "--sigs") sigfile = val();
        else if (a == "--config") g.config = val();
        else if (a == "--replay") { only = val(); g.replay = true; }
        else if (a == "--scenario") filter.push_back(val());
        else if (a == "--known") g.known.push_back(val());
        else if (a == "--budget") budget = atof(val());
        else if (a == "--cpu") g.cpu_limit = atof(val());
        else if (a == "--wall") g.wall_limit = atof(val());
        else if (a == "--progress") {
            int fd = open(val(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
                void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    g.progress = (Progress*)p;
                memset(g.progress, 0, sizeof(Progress));
            }
            if (fd >= 0)
                close(fd);
        }
        else if (a == "--list") {
            for (Scenario* s = g.scenarios; s; s = s->next)
                printf("%s %" PRIu64 " %" PRIu64 "\n", s->name, s->quick, s->thorough);
            return 0;
        }
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGVTALRM, on_vtalrm);
#if defined(VM_ASAN)
    if (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0) {
        g_hooks_on = 1;
        void* volatile probe = malloc(8);
        uint64_t n = allocs();
        free(probe);
        if (n == 0)
            g_hooks_on = 0;
    }
#endif
#if !defined(VM_NO_WATCHDOG)
    pthread_t wd;
    // What a starting thread allocates must not be counted to a case.
    if (pthread_create(&wd, nullptr, watchdog, nullptr) == 0) {
        pthread_detach(wd);
        while (!g_watchdog_up)
            usleep(100);
    }
#endif
    double start = now_s();
    bool truncated = false;
    Results* res = new Results();
    for (Scenario* s = g.scenarios; s; s = s->next) {
        if (!filter.empty()) {
            bool ok = false;
            for (auto& f : filter)
                ok |= f == s->name;
            if (!ok)
                continue;
        }
        if (!only.empty()) {
            size_t colon = only.rfind(':');
            if (only.substr(0, colon) != s->name)
                continue;
            run_one(s, strtoull(only.c_str() + colon + 1, nullptr, 10), *res, true);
            continue;
        }
        uint64_t n = g.thorough ? s->thorough : s->quick;
        uint64_t step = shards, first = shard;
        if (s->flags & kSingle)  // spread over the shards by name, not by index
            step = 1, first = hash_str(s->name) % shards == shard ? 0 : n;
        unsigned traced = 0;
        for (uint64_t i = first; i < n; i += step) {
            bool want = traced < 4 && shard == 0;
            uint64_t nt = s->nontrivial;
            run_one(s, i, *res, want);
            if (want && s->nontrivial > nt)
                traced++;
            if ((i & 31) == 0 && now_s() - start > budget) {
                truncated = true;
                break;
            }
        }
    }
    arm_cpu(0);
    g_heartbeat.store(~0ull);
    fflush(stdout);
    if (out) {
        FILE* f = fopen(out, "w");
        if (!f)
            return 3;
        fprintf(f, "{\"truncated\":%s,\"heap_accounting\":%s,\"allocs\":%" PRIu64
                   ",\"known_hits\":%" PRIu64 ",\"scenarios\":{",
                truncated ? "true" : "false", g_hooks_on.load() ? "true" : "false", allocs(),
                g_known_hits.load());
        bool comma = false;
        for (Scenario* s = g.scenarios; s; s = s->next) {
            fprintf(f, "%s\"%s\":[%" PRIu64 ",%" PRIu64 "]", comma ? "," : "", s->name, s->cases,
                    s->nontrivial);
            comma = true;
        }
        fprintf(f, "},\"counters\":{");
        comma = false;
        for (Counter* k = g_counters; k; k = k->next) {
            uint64_t sum = 0;  // a counter named in a template has one cell per instantiation
            bool first = true;
            for (Counter* j = g_counters; j; j = j->next) {
                if (strcmp(j->name, k->name) == 0)
                    sum += j->n;
            }
            for (Counter* j = g_counters; j != k; j = j->next)
                first &= strcmp(j->name, k->name) != 0;
            if (!first)
                continue;
            fprintf(f, "%s\"%s\":%" PRIu64, comma ? "," : "", k->name, sum);
            comma = true;
        }
        fprintf(f, "},\"samples\":[");
        comma = false;
        for (auto& s : res->samples) {
            if (comma)
                fputc(',', f);
            json_str(f, s);
            comma = true;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (sigfile) {
        FILE* f = fopen(sigfile, "wb");
        if (f) {
            for (uint64_t x : res->sigs)
                fwrite(&x, 8, 1, f);
            fclose(f);
        }
    }
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}

}  // namespace vm

#if !defined(VM_NO_MAIN)
int main(int argc, char** argv) {
    return vm::run_main(argc, argv);
}
#endif

#endif  // VM_H_
