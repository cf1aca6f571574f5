// C14: ke::Mutex excludes, and AssertCurrentThreadOwns() agrees with actual ownership.
#include <amtl/am-mutex.h>
#include <assert.h>
#include <setjmp.h>


#include <condition_variable>
#include <mutex>

#include "conc.h"

static const std::memory_order rlx = std::memory_order_relaxed;
static const int kMaxT = 5;

// A failing assertion comes back to the monitor that expects to observe it, however it fails.
static thread_local sigjmp_buf* t_armed;
static void back(int sig) {
    if (t_armed)
        siglongjmp(*t_armed, 1);
    signal(sig, SIG_DFL);
    raise(sig);
}
static bool g_installed = [] {
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = back;
    sa.sa_flags = SA_NODEFER;
    for (int sig : {SIGABRT, SIGTRAP, SIGILL})
        sigaction(sig, &sa, nullptr);
    return true;
}();
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept {
    if (t_armed)
        siglongjmp(*t_armed, 1);
    vm::fail("assertion", "%s:%u: assertion %s failed", file, line, expr);
}
static VM_NOINLINE bool assertion_passes(ke::Mutex& m) {
    sigjmp_buf jb;
    if (sigsetjmp(jb, 0)) {
        t_armed = nullptr;
        return false;
    }
    t_armed = &jb;
    m.AssertCurrentThreadOwns();
    t_armed = nullptr;
    return true;
}

struct Shared {
    ke::Mutex m[2];
    std::condition_variable_any cv;
    int counter[2] = {0, 0};  // guarded by m[i]: plain, so that the race detector sees the guarding
    int tokens = 0;           // guarded by m[0]
    std::atomic<int> inside[2], entered[2], refused[2];
    Shared() {
        for (int i = 0; i < 2; i++)
            inside[i] = entered[i] = refused[i] = 0;
    }
};

static void expect(Shared& s, int i, bool mine, const char* when) {
    bool passes = assertion_passes(s.m[i]);
#if defined(NDEBUG)
    (void)mine;
    sched::Quiet q;
    if (!passes)
        vm::fail("assert-in-release", "AssertCurrentThreadOwns fails with NDEBUG (%s)", when);
    VM_COUNT("release_checks", 1);
#else
    sched::Quiet q;
    if (passes != mine)
        vm::fail(mine ? "owner-denied" : "non-owner-accepted", "AssertCurrentThreadOwns %s in a thread that %s the mutex (%s)",
                 passes ? "passes" : "fails", mine ? "holds" : "does not hold", when);
    if (mine)
        VM_COUNT("owner_checks", 1);
    else
        VM_COUNT("non_owner_checks", 1);
#endif
}
static void enter(Shared& s, int i, const char* when) {
    if (s.inside[i].fetch_add(1, rlx))
        vm::fail("not-exclusive", "two threads hold the mutex (%s)", when);
    s.entered[i].fetch_add(1, rlx);
    s.counter[i]++;
    expect(s, i, true, when);
}
static void leave(Shared& s, int i) {
    expect(s, i, true, "before releasing");
    s.counter[i]++;
    s.inside[i].fetch_sub(1, rlx);
}

enum Op { kLock, kTry, kGuard, kUnique, kUniqueTry, kUniqueDefer, kAdopt, kBoth, kStdLock, kTryLockBoth, kWait, kNotify, kWaitFor, kOutside, kMoved, kOps };
static const char* kNames[] = {"lock", "try_lock", "lock_guard", "unique_lock", "unique_lock(try)", "unique_lock(defer)", "adopt", "scoped_lock(2)", "std::lock", "std::try_lock", "wait", "notify", "wait_for", "outside", "moved lock"};
struct Instr { int op, m, arg; };

static void perform(Shared& s, const Instr& in, int& waits, int budget) {
    int i = in.m;
    const char* name = kNames[in.op];
    expect(s, i, false, "before acquiring");
    switch (in.op) {
        case kLock:
            s.m[i].lock();
            enter(s, i, name);
            leave(s, i);
            s.m[i].unlock();
            break;
        case kTry:
            if (s.m[i].try_lock()) {
                enter(s, i, name);
                leave(s, i);
                s.m[i].unlock();
            } else {
                s.refused[i].fetch_add(1, rlx);
                expect(s, i, false, "after try_lock returned false");
            }
            break;
        case kGuard: {
            std::lock_guard<ke::Mutex> g(s.m[i]);
            enter(s, i, name);
            leave(s, i);
            break;
        }
        case kUnique: {
            std::unique_lock<ke::Mutex> g(s.m[i]);
            enter(s, i, name);
            leave(s, i);
            g.unlock();
            expect(s, i, false, "after unique_lock::unlock");
            g.lock();
            enter(s, i, name);
            leave(s, i);
            break;
        }
        case kUniqueTry: {
            std::unique_lock<ke::Mutex> g(s.m[i], std::try_to_lock);
            if (g.owns_lock()) {
                enter(s, i, name);
                leave(s, i);
            } else {
                expect(s, i, false, "after unique_lock(try_to_lock) was refused");
            }
            break;
        }
        case kUniqueDefer: {
            std::unique_lock<ke::Mutex> g(s.m[i], std::defer_lock);
            expect(s, i, false, "deferred");
            if (g.try_lock()) {
                enter(s, i, name);
                leave(s, i);
            }
            break;
        }
        case kAdopt: {
            s.m[i].lock();
            std::lock_guard<ke::Mutex> g(s.m[i], std::adopt_lock);
            enter(s, i, name);
            leave(s, i);
            break;
        }
        case kBoth: {
#if __cplusplus >= 201703L
            std::scoped_lock g(s.m[i], s.m[1 - i]);
#else
            std::lock(s.m[i], s.m[1 - i]);
            std::lock_guard<ke::Mutex> g1(s.m[i], std::adopt_lock), g2(s.m[1 - i], std::adopt_lock);
#endif
            enter(s, i, name);
            enter(s, 1 - i, name);
            leave(s, 1 - i);
            leave(s, i);
            break;
        }
        case kStdLock: {
            std::unique_lock<ke::Mutex> a(s.m[i], std::defer_lock), b(s.m[1 - i], std::defer_lock);
            std::lock(a, b);
            enter(s, i, name);
            enter(s, 1 - i, name);
            leave(s, i);
            a.unlock();
            expect(s, i, false, "after releasing one of two");
            expect(s, 1 - i, true, "while holding the other of two");
            leave(s, 1 - i);
            break;
        }
        case kTryLockBoth: {
            int rv = std::try_lock(s.m[i], s.m[1 - i]);
            if (rv == -1) {
                enter(s, i, name);
                enter(s, 1 - i, name);
                leave(s, i);
                s.m[i].unlock();
                leave(s, 1 - i);
                s.m[1 - i].unlock();
            } else {
                expect(s, i, false, "after std::try_lock was refused");
            }
            break;
        }
        case kWait: {  // waits for a token; every program provides enough of them
            if (waits >= budget)
                break;
            waits++;
            std::unique_lock<ke::Mutex> g(s.m[0]);
            enter(s, 0, name);
            while (s.tokens == 0) {
                leave(s, 0);
                s.cv.wait(g);
                enter(s, 0, "after wait");
            }
            s.tokens--;
            leave(s, 0);
            sched::Quiet q;
            VM_COUNT("waits", 1);
            break;
        }
        case kNotify: {
            std::lock_guard<ke::Mutex> g(s.m[0]);
            enter(s, 0, name);
            if (in.arg & 1)
                s.cv.notify_all();
            else
                s.cv.notify_one();
            leave(s, 0);
            break;
        }
        case kWaitFor: {
            std::unique_lock<ke::Mutex> g(s.m[0]);
            enter(s, 0, name);
            leave(s, 0);
            s.cv.wait_for(g, std::chrono::microseconds(20));
            enter(s, 0, "after wait_for");
            leave(s, 0);
            break;
        }
        case kOutside:
            expect(s, 1 - i, false, "not involved");
            break;
        case kMoved: {
            std::unique_lock<ke::Mutex> g(s.m[i]);
            std::unique_lock<ke::Mutex> h(std::move(g));
            enter(s, i, name);
            leave(s, i);
            h.unlock();
            expect(s, i, false, "after the moved lock was released");
            break;
        }
    }
    expect(s, i, false, "after releasing");
}

static void program(vm::Case& c, int nt, int len, unsigned schedules) {
    std::vector<Instr> prog[kMaxT];
    int waits = 0;
    for (int t = 0; t < nt; t++) {
        int n = 1 + (int)c.rng.below(len);
        for (int i = 0; i < n; i++) {
            Instr in{(int)c.rng.below(kOps), c.rng.chance(1, 3), (int)c.rng.below(2)};
            if (in.op == kWait && t == 0)
                in.op = kNotify;  // thread 0 is the one who must get to the end
            waits += in.op == kWait;
            prog[t].push_back(in);
            c.sig(in.op * 8 + in.m * 2 + in.arg);
            c.log("T%d %s(%d)", t + 1, kNames[in.op], in.m);
        }
    }
    conc::Explorer ex(c, schedules);
    ex([](unsigned) {},
       [&] {
           Shared s;
           conc::Gate gate;
           conc::threads(nt, [&](int t) {
               gate.arrive(nt);
               int w = 0;
               for (const Instr& in : prog[t])
                   perform(s, in, w, 1 << 20);
               if (t == 0) {  // provides the tokens
                   for (int i = 0; i < waits; i++) {
                       {
                           std::lock_guard<ke::Mutex> g(s.m[0]);
                           enter(s, 0, "token");
                           s.tokens++;
                           leave(s, 0);
                       }
                       s.cv.notify_all();  // timed waiters wait on the same condition
                   }
               }
           });
           for (int i = 0; i < 2; i++) {
               expect(s, i, false, "free, at the end");
               if (!s.m[i].try_lock())
                   vm::fail("still-held", "the mutex cannot be acquired although nobody holds it");
               enter(s, i, "at the end");
               leave(s, i);
               s.m[i].unlock();
               expect(s, i, false, "free again");
               if (s.counter[i] != 2 * s.entered[i].load(rlx))
                   vm::fail("lost-update", "the counter guarded by the mutex is %d after %d critical sections", s.counter[i], s.entered[i].load(rlx));
               sched::Quiet q;
               VM_COUNT("critical_sections", s.entered[i].load(rlx));
               VM_COUNT("refusals", s.refused[i].load(rlx));
           }
       },
       [] {});
    c.nontrivial();
}

SCENARIO(programs, 380, 30000, 0) { program(c, 2 + (int)c.rng.below(3), 5, 40); }
SCENARIO(pairs, 150, 10000, 0) { program(c, 2, 2, 60); }
SCENARIO(one_thread, 60, 1000, 0) { program(c, 1, 30, 2); }
// What try_lock answers while the state is known.
SCENARIO(try_lock_answers, 40, 1000, 0) {
    conc::Explorer ex(c, 20);
    ex([](unsigned) {},
       [&] {
           ke::Mutex m;
           for (int i = 0; i < 3; i++) {
               if (!m.try_lock())
                   vm::fail("still-held", "try_lock refuses a free mutex");
               bool got = true;
               std::thread([&] { got = m.try_lock(); if (got) m.unlock(); }).join();
               if (got)
                   vm::fail("not-exclusive", "try_lock succeeds while another thread holds the mutex");
               m.unlock();
               std::thread([&] { got = m.try_lock(); if (got) m.unlock(); }).join();
               if (!got)
                   vm::fail("still-held", "try_lock refuses a mutex that was released");
           }
           sched::Quiet q;
           VM_COUNT("answers", 9);
       },
       [] {});
    c.nontrivial();
}
#if !defined(VM_SCHED)
SCENARIO(stress_real, 16, 1500, 0) {
    Shared s;
    conc::Gate gate;
    const int nt = 4;
    std::atomic<int> sections{0};
    conc::threads(nt, [&](int t) {
        gate.arrive(nt);
        int w = 0;
        for (int i = 0; i < 1500; i++) {
            Instr in{(i * 7 + t * 3) % kOps, (i >> 3) & 1, i & 1};
            if (in.op == kWait || in.op == kWaitFor)
                continue;
            perform(s, in, w, 0);
        }
    });
    VM_COUNT("stress_operations", nt * 1500);
    for (int i = 0; i < 2; i++)
        VM_CHECK(c, s.counter[i] == 2 * s.entered[i].load(), "lost-update", "the counter guarded by the mutex is %d after %d critical sections", s.counter[i], s.entered[i].load());
    c.nontrivial();
}
#endif
