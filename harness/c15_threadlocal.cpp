// C15: ThreadLocal against a per-thread model, with a ledger of the slots it takes.
#include <assert.h>
#include <pthread.h>

#include <condition_variable>
#include <memory>
#include <mutex>
#include <new>

#include "conc.h"

static const std::memory_order rlx = std::memory_order_relaxed;

// ---- the slot ledger (the header's uses of keys come here) ---------------------------------
static const unsigned kMaxKeys = 4096;
static std::atomic<int> g_key_live[kMaxKeys];
static std::atomic<uint64_t> g_creates, g_deletes, g_refused;
static std::atomic<int> g_live_keys, g_fail_from, g_fail_count;  // creations to fail
static thread_local int t_ledger_off;

#if !defined(KE_SINGLE_THREADED)
static inline int ledger_key_create(pthread_key_t* k, void (*d)(void*)) {
    uint64_t n = g_creates.fetch_add(1, rlx);
    (void)n;
    if (g_fail_count.load(rlx) > 0) {
        if (g_fail_from.load(rlx) > 0) {
            g_fail_from.fetch_sub(1, rlx);
        } else if (g_fail_count.fetch_sub(1, rlx) > 0) {
            g_refused.fetch_add(1, rlx);
            sched::point();
            return EAGAIN;
        }
    }
    pthread_key_t fresh;
    int rv = pthread_key_create(&fresh, d);
    if (rv == 0) {
        *k = fresh;  // written by the caller's side: a reader that does not wait for it is a race
        if (fresh < kMaxKeys)
            g_key_live[fresh].store(1, rlx);
        g_live_keys.fetch_add(1, rlx);
    } else {
        g_refused.fetch_add(1, rlx);
    }
    return rv;
}
static inline int ledger_key_delete(pthread_key_t k) {
    if (k >= kMaxKeys || g_key_live[k].exchange(0, rlx) != 1)
        vm::fail("foreign-slot", "slot %u is released, but it is not one that was obtained", k);
    g_deletes.fetch_add(1, rlx);
    g_live_keys.fetch_sub(1, rlx);
    return pthread_key_delete(k);
}
static inline void* ledger_getspecific(pthread_key_t k) {
    if (k >= kMaxKeys || g_key_live[k].load(rlx) != 1)
        vm::fail("foreign-slot", "slot %u is read, but it is not one that was obtained", k);
    return pthread_getspecific(k);
}
static thread_local bool tl_refuse_stores;
static std::atomic<int> g_unstored{0};
static inline int ledger_setspecific(pthread_key_t k, const void* v) {
    if (k >= kMaxKeys || g_key_live[k].load(rlx) != 1)
        vm::fail("foreign-slot", "slot %u is written, but it is not one that was obtained", k);
    // The C library needs memory for a thread's first values, and can fail to get it.
    if (tl_refuse_stores) {
        g_unstored.fetch_add(1, rlx);
        return ENOMEM;
    }
    return pthread_setspecific(k, v);
}
#    define pthread_key_create ledger_key_create
#    define pthread_key_delete ledger_key_delete
#    define pthread_getspecific ledger_getspecific
#    define pthread_setspecific ledger_setspecific
#endif
#include <amtl/am-threadlocal.h>
#undef pthread_key_create
#undef pthread_key_delete
#undef pthread_getspecific
#undef pthread_setspecific

// ---- value types --------------------------------------------------------------------------------
enum Color { kRed, kGreen = 7, kBlue = 1000000 };
enum class Small : unsigned char { zero, one, max = 255 };
enum class Neg : int { zero = 0, minus = -5, low = INT32_MIN };
struct Pointee { int x; };
static Pointee g_pointees[8];

template <typename T> struct Gen { static T make(vm::Rng& r) { return (T)r.wide(); } };
template <> struct Gen<bool> { static bool make(vm::Rng& r) { return r.coin(); } };
template <> struct Gen<Color> { static Color make(vm::Rng& r) { static const Color v[] = {kRed, kGreen, kBlue}; return v[r.below(3)]; } };
template <> struct Gen<Small> { static Small make(vm::Rng& r) { return (Small)r.below(256); } };
template <> struct Gen<Neg> { static Neg make(vm::Rng& r) { static const Neg v[] = {Neg::zero, Neg::minus, Neg::low}; return v[r.below(3)]; } };
template <> struct Gen<Pointee*> { static Pointee* make(vm::Rng& r) { return r.chance(1, 5) ? nullptr : &g_pointees[r.below(8)]; } };
template <typename T> static long long show(T v) { return (long long)v; }

template <typename T>
static void check_value(const ke::ThreadLocal<T>& v, T want, const char* when) {
    T got = v.get();
    if (!(got == want))
        vm::fail("wrong-value", "a thread reads %lld, it last set %lld (%s)", show(got), show(want), when);
    if (!(*v == want) || (v == want) != true || (v != want) != false || !v != !want)
        vm::fail("wrong-value", "the operators disagree with get() (%s)", when);
}
template <> void check_value(const ke::ThreadLocal<Small>& v, Small want, const char* when) {
    if (v.get() != want || *v != want || !(v == want) || v != want)
        vm::fail("wrong-value", "a thread reads %d, it last set %d (%s)", (int)v.get(), (int)want, when);
}
template <> void check_value(const ke::ThreadLocal<Neg>& v, Neg want, const char* when) {
    if (v.get() != want || *v != want || !(v == want) || v != want)
        vm::fail("wrong-value", "a thread reads %d, it last set %d (%s)", (int)v.get(), (int)want, when);
}
template <typename T> static void deref(const ke::ThreadLocal<T>&, T) {}
static void deref(const ke::ThreadLocal<Pointee*>& v, Pointee* want) {
    if (want && v->x != want->x)
        vm::fail("wrong-value", "operator-> leads elsewhere");
}

template <typename T>
static void perform(ke::ThreadLocal<T>& v, T& model, vm::Rng& r) {
    switch (r.below(6)) {
        case 0:
            model = Gen<T>::make(r);
            v.set(model);
            break;
        case 1:
            model = Gen<T>::make(r);
            v = model;
            break;
        case 2:
            if (!v.allocate())
                vm::fail("allocate-refused", "allocate() fails although slots are available");
            break;
        case 3:
            model = T();
            v.set(model);
            break;
        default: break;
    }
    check_value(v, model, "after an operation");
    deref(v, model);
    sched::Quiet q;
    VM_COUNT("reads", 1);
}

#if !defined(KE_SINGLE_THREADED)
// Some threads use some new variables at once.
template <typename T>
static void first_use(vm::Case& c, unsigned schedules) {
    for (int i = 0; i < 8; i++)
        g_pointees[i].x = i * 11;
    int nt = 2 + (int)c.rng.below(3), nv = 1 + (int)c.rng.below(3), len = 1 + (int)c.rng.below(5);
    uint64_t seed = c.rng.next();
    c.log("threads %d variables %d operations %d", nt, nv, len);
    c.sig(nt * 16 + nv);
    conc::Explorer ex(c, schedules);
    int live = g_live_keys.load();
    ex([](unsigned) {},
       [&] {
           ke::ThreadLocal<T> v[3];
           conc::Gate gate;
           conc::threads(nt, [&](int t) {
               vm::Rng r(seed + t);
               T model[3] = {};
               gate.arrive(nt);
               for (int i = 0; i < len; i++) {
                   int k = (int)r.below(nv);
                   perform(v[k], model[k], r);
               }
               for (int k = 0; k < nv; k++)
                   check_value(v[k], model[k], "at the end of the thread");
           });
           for (int k = 0; k < nv; k++)
               check_value(v[k], T(), "in a thread that set nothing");
       },
       [&] {
           VM_CHECK(c, g_live_keys.load() == live, "slot-leak", "%d slots are in use after all variables are gone, before: %d", g_live_keys.load(), live);
           VM_COUNT("variables", nv);
       });
    c.nontrivial();
}
template <template <typename> class F, typename... A> struct Dispatch {};
#define FOR_TYPE(index, call)                       \
    switch ((index) % 10) {                         \
        case 0: call<int>(ARGS); break;             \
        case 1: call<Pointee*>(ARGS); break;        \
        case 2: call<bool>(ARGS); break;            \
        case 3: call<Color>(ARGS); break;           \
        case 4: call<uintptr_t>(ARGS); break;       \
        case 5: call<signed char>(ARGS); break;     \
        case 6: call<Small>(ARGS); break;           \
        case 7: call<Neg>(ARGS); break;             \
        case 8: call<unsigned short>(ARGS); break;  \
        default: call<int64_t>(ARGS); break;        \
    }
#define ARGS c, 40
SCENARIO(first_uses, 340, 24000, 0) { FOR_TYPE(c.index, first_use) }
#undef ARGS

struct Barrier {
    std::mutex m;
    std::condition_variable cv;
    int n, in = 0, gen = 0;
    explicit Barrier(int n) : n(n) {}
    void wait() {
        std::unique_lock<std::mutex> l(m);
        int g = gen;
        if (++in == n) {
            in = 0;
            gen++;
            cv.notify_all();
        } else {
            while (gen == g)
                cv.wait(l);
        }
    }
};

// Long-lived threads see variables come and go: a new one never shows old values.
template <typename T>
static void generations(vm::Case& c, unsigned schedules) {
    int nt = 2 + (int)c.rng.below(2), phases = 3 + (int)c.rng.below(conc::kScheduled ? 3 : 30), nv = 4;
    uint64_t seed = c.rng.next();
    c.log("threads %d phases %d", nt, phases);
    conc::Explorer ex(c, schedules);
    int live = g_live_keys.load();
    ex([](unsigned) {},
       [&] {
           typedef ke::ThreadLocal<T> V;
           alignas(V) unsigned char room[4][sizeof(V)];
           V* v[4] = {};
           int born[4] = {-1, -1, -1, -1};  // changed by the main thread between barriers
           Barrier bar(nt + 1);
           vm::Rng mr(seed);
           auto worker = [&](int t) {
               vm::Rng r(seed + 77 + t);
               T model[4] = {};
               int seen[4] = {-1, -1, -1, -1};
               for (int p = 0; p < phases; p++) {
                   bar.wait();
                   for (int k = 0; k < nv; k++) {
                       if (!v[k])
                           continue;
                       if (seen[k] != born[k]) {
                           seen[k] = born[k];
                           model[k] = T();
                           check_value(*v[k], model[k], "first look at a new variable");
                       }
                       if (r.coin())
                           perform(*v[k], model[k], r);
                       check_value(*v[k], model[k], "later");
                   }
                   bar.wait();
               }
           };
           std::vector<std::thread> ts;
           for (int t = 0; t < nt; t++)
               ts.emplace_back(worker, t);
           for (int p = 0; p < phases; p++) {
               for (int k = 0; k < nv; k++) {
                   if (v[k] && mr.chance(2, 3)) {
                       v[k]->~V();
                       v[k] = nullptr;
                   }
                   if (!v[k] && mr.chance(3, 4)) {
                       memset(room[k], 0xa5, sizeof(V));
                       v[k] = new (room[k]) V();
                       born[k] = p;
                       sched::Quiet q;
                       VM_COUNT("variables", 1);
                   }
               }
               bar.wait();
               bar.wait();
           }
           for (auto& t : ts)
               t.join();
           for (auto p : v) {
               if (p)
                   p->~V();
           }
       },
       [&] {
           VM_CHECK(c, g_live_keys.load() == live, "slot-leak", "%d slots are in use after all variables are gone, before: %d", g_live_keys.load(), live);
           VM_COUNT("generations", phases);
       });
    c.nontrivial();
}
#define ARGS c, 16
SCENARIO(comings_and_goings, 100, 8000, 0) { FOR_TYPE(c.index, generations) }
#undef ARGS

// A creation of a slot fails, at once or for some thread of several.
template <typename T>
static void refusals(vm::Case& c, unsigned schedules) {
    int nt = 1 + (int)c.rng.below(3), from = (int)c.rng.below(3), count = 1 + (int)c.rng.below(3);
    uint64_t seed = c.rng.next();
    c.log("threads %d: creations %d..%d fail", nt, from, from + count - 1);
    conc::Explorer ex(c, schedules);
    int live = g_live_keys.load();
    ex([&](unsigned) { g_fail_from = from; g_fail_count = count; },
       [&] {
           ke::ThreadLocal<T> other[2], v[3];
           vm::Rng mr(seed);
           T om[2] = {};
           int fail = g_fail_count.load(rlx);
           g_fail_count.store(0, rlx);
           om[0] = Gen<T>::make(mr);
           other[0].set(om[0]);  // a variable that has its slot already
           g_fail_count.store(fail, rlx);
           conc::Gate gate;
           conc::threads(nt, [&](int t) {
               vm::Rng r(seed + 5 + t);
               T model[3] = {};
               gate.arrive(nt);
               for (int i = 0; i < 5; i++) {
                   int k = (int)r.below(3);
                   bool had = v[k].allocate();
                   if (!had) {
                       check_value(v[k], T(), "without a slot");
                       sched::Quiet q;
                       VM_COUNT("refused_allocations", 1);
                       if (g_refused.load(rlx) == 0)
                           vm::fail("allocate-refused", "allocate() fails although slots are available");
                       continue;
                   }
                   model[k] = Gen<T>::make(r);
                   v[k].set(model[k]);
                   check_value(v[k], model[k], "with a slot, others refused");
               }
           });
           check_value(other[0], om[0], "after other variables were refused slots");
           check_value(other[1], T(), "after other variables were refused slots");
           g_fail_count.store(0, rlx);
           for (int k = 0; k < 3; k++) {  // slots are to be had again
               if (!v[k].allocate())
                   vm::fail("allocate-refused", "allocate() still fails when slots are available again");
               T x = Gen<T>::make(mr);
               v[k].set(x);
               check_value(v[k], x, "with a slot obtained later");
           }
       },
       [&] {
           g_fail_count = 0;
           g_refused = 0;
           VM_CHECK(c, g_live_keys.load() == live, "slot-leak", "%d slots are in use after all variables are gone, before: %d", g_live_keys.load(), live);
       });
    c.nontrivial();
}
#define ARGS c, 20
SCENARIO(refused_slots, 120, 8000, 0) { FOR_TYPE(c.index, refusals) }
#undef ARGS

// All slots of the process are taken, really.
SCENARIO(exhaustion, 8, 60, 0) {
    if (g_creates.load() == 0) {
        ke::ThreadLocal<int> probe;
        probe.set(1);
        if (g_creates.load() == 0)
            return;  // storage that does not come from the system cannot run out of slots
    }
    int live = g_live_keys.load();
    {
        ke::ThreadLocal<int> mine;
        mine = 42;
        std::vector<pthread_key_t> taken;
        pthread_key_t k;
        while (pthread_key_create(&k, nullptr) == 0) {
            taken.push_back(k);
            pthread_setspecific(k, &g_pointees[taken.size() % 8]);
        }
        {
            ke::ThreadLocal<int> v;
            ke::ThreadLocal<Pointee*> w;
            VM_CHECK(c, !v.allocate(), "allocate-granted", "allocate() succeeds although no slot can be had");
            VM_CHECK(c, !v.allocate(), "allocate-granted", "the second allocate() succeeds although no slot can be had");
            VM_CHECK(c, v.get() == 0 && w.get() == nullptr, "wrong-value", "a variable without a slot has a value");
            int st = vm::in_child([&] { v.set(3); });
            VM_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "set-without-slot", "set without a slot ends with status %x, not an abort", st);
            st = vm::in_child([&] { w = &g_pointees[1]; });
            VM_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "set-without-slot", "assignment without a slot ends with status %x, not an abort", st);
            // One slot becomes free: the next to ask gets it.
            pthread_key_delete(taken.back());
            taken.pop_back();
            VM_CHECK(c, v.allocate(), "allocate-refused", "allocate() fails although a slot has become free");
            v = 9;
            VM_CHECK(c, v == 9 && mine == 42, "wrong-value", "values are mixed up");
            VM_CHECK(c, !w.allocate(), "allocate-granted", "allocate() succeeds although no slot can be had");
        }
        VM_CHECK(c, mine == 42, "wrong-value", "another variable's value changed to %d", mine.get());
        for (size_t i = 0; i < taken.size(); i++)
            VM_CHECK(c, pthread_getspecific(taken[i]) == &g_pointees[(i + 1) % 8], "foreign-slot", "a slot of somebody else changed");
        for (auto k : taken)
            pthread_key_delete(k);
        VM_COUNT("slots_exhausted", taken.size());
    }
    VM_CHECK(c, g_live_keys.load() == live, "slot-leak", "%d slots are in use, before: %d", g_live_keys.load(), live);
    c.sig(c.index);
    c.nontrivial();
}
// There is a slot, but no memory to keep a value in: the value must not get lost silently.
SCENARIO(unstorable, 6, 60, 0) {
    ke::ThreadLocal<int> v;
    ke::ThreadLocal<Pointee*> w;
    ke::ThreadLocal<int> other;
    other = 17;
    bool before = c.index & 1;
    if (before) {
        v = 5;
        w = &g_pointees[2];
    }
    auto attempt = [&](auto&& act, auto&& arrived) {
        int st = vm::in_child([&] {
            tl_refuse_stores = true;
            act();
            tl_refuse_stores = false;
            // (Where the value went, if not to the system, is not our business.)
            if (!arrived())
                _exit(77);
            _exit(0);
        });
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return;
        VM_CHECK(c, !(WIFEXITED(st) && WEXITSTATUS(st) == 77), "value-lost", "a value that could not be stored is lost without notice");
        VM_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "value-lost", "a set that could not be carried out ends with status %x, not an abort", st);
    };
    attempt([&] { v.set(3); }, [&] { return v.get() == 3; });
    attempt([&] { v = 4; }, [&] { return v == 4; });
    attempt([&] { w = &g_pointees[1]; }, [&] { return *w == &g_pointees[1]; });
    if (before)
        attempt([&] { w.set(nullptr); }, [&] { return !w; });
    // The same in a thread that has no values yet.
    std::thread([&] {
        attempt([&] { v = 6; }, [&] { return v == 6; });
    }).join();
    VM_CHECK(c, v.get() == (before ? 5 : 0) && w.get() == (before ? &g_pointees[2] : nullptr) && other == 17, "wrong-value", "values changed");
    v = 8;
    VM_CHECK(c, v == 8, "wrong-value", "a later set is ignored");
    VM_COUNT("unstorable_sets", before ? 5 : 4);
    c.sig(c.index);
    c.nontrivial();
}
// More variables one after the other than there are slots.
SCENARIO(turnover, 20, 400, 0) {
    int live = g_live_keys.load();
    unsigned n = 3000;
    std::unique_ptr<ke::ThreadLocal<uintptr_t>> window[8];
    for (unsigned i = 0; i < n; i++) {
        auto& w = window[c.rng.below(8)];
        w.reset(new ke::ThreadLocal<uintptr_t>());
        VM_CHECK(c, w->get() == 0, "wrong-value", "new variable %u shows an old value", i);
        if (c.rng.chance(3, 4)) {
            uintptr_t x = (uintptr_t)c.rng.wide();
            w->set(x);
            VM_CHECK(c, w->get() == x, "wrong-value", "variable %u", i);
        }
    }
    for (auto& w : window)
        w.reset();
    VM_CHECK(c, g_live_keys.load() == live, "slot-leak", "%d slots are in use, before: %d", g_live_keys.load(), live);
    VM_COUNT("variables_in_turn", n);
    c.sig(c.index);
    c.nontrivial();
}
#else
template <typename T>
static void plain(vm::Case& c) {
    ke::ThreadLocal<T> v[3];
    T model[3] = {};
    for (int k = 0; k < 3; k++)
        check_value(v[k], T(), "new");
    for (int i = 0; i < 40; i++) {
        int k = (int)c.rng.below(3);
        perform(v[k], model[k], c.rng);
        for (int j = 0; j < 3; j++)
            check_value(v[j], model[j], "single-threaded");
    }
    // There is one value, whoever looks.
    std::thread([&] {
        check_value(v[0], model[0], "another thread, single-threaded mode");
        v[0] = model[0] = T();
    }).join();
    check_value(v[0], model[0], "single-threaded, after another thread's set");
    VM_COUNT("plain_variables", 3);
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(plain_variable, 400, 20000, 0) {
    switch (c.index % 6) {
        case 0: plain<int>(c); break;
        case 1: plain<Pointee*>(c); break;
        case 2: plain<bool>(c); break;
        case 3: plain<Color>(c); break;
        case 4: plain<Small>(c); break;
        default: plain<int64_t>(c); break;
    }
}
#endif
