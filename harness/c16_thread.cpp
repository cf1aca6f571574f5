// C16: NewThread calls its function once, with its own copies of the arguments, under its name.
#include <amtl/am-thread.h>
#include <assert.h>

#include <functional>
#include <memory>
#include <string>

#include "conc.h"

static const std::memory_order rlx = std::memory_order_relaxed;

// ---- what the monitor knows ---------------------------------------------------------------------
static std::atomic<int> g_live;
static std::atomic<int> g_left;  // threads that are on their way out (read by scenario detached only)
static std::atomic<int> g_calls[16];

struct Arg {  // an argument whose copies are counted and whose content is plain memory
    int value;
    uint32_t magic;
    const Arg* self;
    explicit Arg(int v) : value(v), magic(0xa11fe5a7u), self(this) { g_live.fetch_add(1, rlx); }
    Arg(const Arg& o) : value(o.get()), magic(0xa11fe5a7u), self(this) { g_live.fetch_add(1, rlx); }
    Arg(Arg&& o) : value(o.get()), magic(0xa11fe5a7u), self(this) {
        o.value = -1;
        g_live.fetch_add(1, rlx);
    }
    Arg& operator=(const Arg& o) { value = o.get(); return *this; }
    ~Arg() {
        get();
        magic = 0xdeaddeadu;
        value = -2;
        g_live.fetch_sub(1, std::memory_order_release);
    }
    int get() const {
        if (magic != 0xa11fe5a7u || self != this)
            vm::fail("dead-argument", "an argument is used that is not a live object (magic %08x)", magic);
        return value;
    }
};

static std::string own_name() {
    char b[64] = {};
    pthread_getname_np(pthread_self(), b, sizeof(b));
    return b;
}
static std::string name_of(std::thread& t) {
    char b[64] = {};
    pthread_getname_np(t.native_handle(), b, sizeof(b));
    return b;
}

struct Job {
    int kind;
    std::string name;
    int a, b;
};
static std::atomic<pthread_t> g_creator{pthread_t()};

static void enter(int slot, const std::string& want) {
    sched::Quiet q;
    vm::NoCount nc;
    if (g_calls[slot].fetch_add(1, rlx))
        vm::fail("called-twice", "the function is called more than once");
    if (pthread_equal(pthread_self(), g_creator.load(rlx)))
        vm::fail("not-a-thread", "the function runs in the thread that called NewThread");
    if (want.size() <= 15) {
        std::string got = own_name();
        if (got != want)
            vm::fail("wrong-name", "inside the function the thread is named '%s', not '%s'", got.c_str(), want.c_str());
        VM_COUNT("names_checked", 1);
    } else {
        VM_COUNT("long_names", 1);
    }
    VM_COUNT("calls", 1);
#ifndef VM_SCHED
    static thread_local struct AtExit {
        bool armed = false;
        ~AtExit() { g_left.fetch_add(armed, std::memory_order_release); }
    } at_exit;
    at_exit.armed = true;
#endif
}
static void arg_check(const char* kind, int got, int want) {
    if (got != want)
        vm::fail("wrong-argument", "%s: the argument is %d, %d was passed", kind, got, want);
}

static Job g_job[16];  // written before the threads start
static std::atomic<int> g_plain_slot;
static void plain_function(const Arg& a, int b, int slot) {
    enter(slot, g_job[slot].name);
    arg_check("function", a.get(), g_job[slot].a);
    arg_check("function", b, g_job[slot].b);
}
static void no_arguments() { enter(15, g_job[15].name); }
struct Functor {
    Arg own;
    int slot;
    int uses = 0;
    Functor(int v, int slot) : own(v), slot(slot) {}
    int operator()(Arg& a) {
        enter(slot, g_job[slot].name);
        arg_check("functor", own.get(), g_job[slot].b);
        arg_check("functor", a.get(), g_job[slot].a);
        uses++;
        a.value = -99;  // its own copy
        return 7;
    }
};
struct Target {
    Arg inner;
    int slot;
    int ran = 0;
    Target(int v, int slot) : inner(v), slot(slot) {}
    void method(const Arg& a) {
        enter(slot, g_job[slot].name);
        arg_check("method", inner.get(), g_job[slot].b);
        arg_check("method", a.get(), g_job[slot].a);
        ran++;
    }
};

enum Kind { kFunction, kLambda, kFunctorCopied, kFunctorMoved, kMoveOnly, kMethodPtr, kMethodCopy, kRef, kStdFunction, kNoArgs, kString, kMany, kKinds };

struct Held {  // what must outlive the thread, and nothing else
    std::unique_ptr<std::thread> th;
    std::unique_ptr<Target> target;
    int ref_value = 0;
};

// Starts one thread from originals that are gone (and overwritten) when this returns.
static VM_NOINLINE void start(Held& h, int slot) {
    const Job& j = g_job[slot];
    size_t n = j.name.size();
    std::unique_ptr<char[]> name(new char[n + 1]);
    memcpy(name.get(), j.name.c_str(), n + 1);
    int a = j.a, b = j.b;
    switch (j.kind) {
        case kFunction: {
            Arg x(a);
            h.th = ke::NewThread(name.get(), plain_function, x, b, slot);
            arg_check("caller's original", x.get(), a);
            x.value = -3;
            break;
        }
        case kLambda: {
            Arg x(a);
            h.th = ke::NewThread(name.get(), [slot, y = Arg(b)](const Arg& x) {
                enter(slot, g_job[slot].name);
                arg_check("lambda", x.get(), g_job[slot].a);
                arg_check("lambda capture", y.get(), g_job[slot].b);
            }, x);
            break;
        }
        case kFunctorCopied: {
            Functor f(b, slot);
            Arg x(a);
            h.th = ke::NewThread(name.get(), f, x);
            arg_check("caller's original", x.get(), a);
            arg_check("caller's functor", f.own.get(), b);
            arg_check("caller's functor", f.uses, 0);
            break;
        }
        case kFunctorMoved: {
            Functor f(b, slot);
            Arg x(a);
            h.th = ke::NewThread(name.get(), std::move(f), std::move(x));
            break;
        }
        case kMoveOnly: {
            std::unique_ptr<Arg> p(new Arg(a));
            h.th = ke::NewThread(name.get(), [slot, q = std::unique_ptr<Arg>(new Arg(b))](std::unique_ptr<Arg>& p) {
                enter(slot, g_job[slot].name);
                arg_check("move-only", p->get(), g_job[slot].a);
                arg_check("move-only capture", q->get(), g_job[slot].b);
            }, std::move(p));
            if (p)
                vm::fail("wrong-argument", "an argument passed as an rvalue is not moved");
            break;
        }
        case kMethodPtr: {
            h.target.reset(new Target(b, slot));
            Arg x(a);
            h.th = ke::NewThread(name.get(), &Target::method, h.target.get(), x);
            break;
        }
        case kMethodCopy: {
            Target t(b, slot);
            h.th = ke::NewThread(name.get(), &Target::method, t, Arg(a));
            arg_check("caller's object", t.inner.get(), b);
            break;
        }
        case kRef: {
            h.ref_value = a;
            h.th = ke::NewThread(name.get(), [slot](int& r, int b) {
                enter(slot, g_job[slot].name);
                arg_check("reference", r, g_job[slot].a);
                arg_check("reference", b, g_job[slot].b);
                r = g_job[slot].a + 1;
            }, std::ref(h.ref_value), b);
            break;
        }
        case kStdFunction: {
            Arg x(a);
            std::function<void(const Arg&)> f = [slot, x](const Arg& y) {
                enter(slot, g_job[slot].name);
                arg_check("std::function", x.get(), g_job[slot].a);
                arg_check("std::function", y.get(), g_job[slot].b);
            };
            h.th = ke::NewThread(name.get(), f, Arg(b));
            if (!f)
                vm::fail("wrong-argument", "a callable passed as an lvalue is moved from");
            break;
        }
        case kNoArgs: h.th = ke::NewThread(name.get(), no_arguments); break;
        case kString: {
            std::string s = "a string of some length, number " + std::to_string(a);
            std::vector<int> v(20, b);
            h.th = ke::NewThread(name.get(), [slot](const std::string& s, std::vector<int>& v) {
                enter(slot, g_job[slot].name);
                if (s != "a string of some length, number " + std::to_string(g_job[slot].a))
                    vm::fail("wrong-argument", "string: '%s'", s.c_str());
                arg_check("vector", (int)v.size(), 20);
                arg_check("vector", v[19], g_job[slot].b);
                v.clear();
            }, s, v);
            s.assign(s.size(), '#');
            arg_check("caller's vector", (int)v.size(), 20);
            v.assign(20, -7);
            break;
        }
        case kMany: {
            char c = (char)a;
            double d = b * 0.5;
            h.th = ke::NewThread(name.get(), [slot](char c, double d, const char* lit, Arg x, const Arg& y, unsigned long long z) {
                enter(slot, g_job[slot].name);
                arg_check("many", c, (char)g_job[slot].a);
                arg_check("many", (int)(d * 2), g_job[slot].b);
                arg_check("many", lit[2], 'm');
                arg_check("many", x.get(), g_job[slot].a);
                arg_check("many", y.get(), g_job[slot].b);
                arg_check("many", (int)(z >> 32), g_job[slot].a);
            }, c, d, "some text", Arg(a), Arg(b), (unsigned long long)a << 32);
            break;
        }
    }
    memset(name.get(), '!', n);
}

static void make_job(vm::Case& c, int slot) {
    Job& j = g_job[slot];
    do
        j.kind = (int)c.rng.below(kKinds);
    while (j.kind == kNoArgs && slot != 15);
    size_t n = c.rng.chance(1, 8) ? 16 + c.rng.below(40) : c.rng.chance(1, 3) ? 15 - c.rng.below(2) : c.rng.below(15);
    j.name.clear();
    for (size_t i = 0; i < n; i++) {
        switch (c.rng.below(6)) {
            case 0: j.name += (char)c.rng.range(128, 255); break;
            case 1: j.name += " %s\t/\"'\\"[c.rng.below(8)]; break;
            default: j.name += (char)c.rng.range('a', 'z'); break;
        }
    }
    j.a = (int)c.rng.below(100000);
    j.b = (int)c.rng.below(100000);
    c.sig(j.kind * 64 + n);
    c.log("thread %d: kind %d name of %zu bytes", slot, j.kind, n);
}

static void join_checked(Held& h, int slot) {
    if (!h.th || !h.th->joinable())
        vm::fail("not-joinable", "the thread that NewThread returned is not joinable");
    h.th->join();
    if (g_calls[slot].load(rlx) != 1)
        vm::fail("not-called", "after the join the function has been called %d times", g_calls[slot].load(rlx));
    if (g_job[slot].kind == kRef)
        arg_check("std::ref result", h.ref_value, g_job[slot].a + 1);
    if (g_job[slot].kind == kMethodPtr)
        arg_check("the object passed by pointer", h.target->ran, 1);
}

static void program(vm::Case& c, int nt, unsigned schedules) {
    for (int i = 0; i < nt; i++)
        make_job(c, i);
    bool noargs = c.rng.chance(1, 4);
    if (noargs) {
        make_job(c, 15);
        g_job[15].kind = kNoArgs;
    }
    bool backwards = c.rng.coin();
    conc::Explorer ex(c, schedules);
    ex([](unsigned) {
           for (auto& n : g_calls) n.store(0, rlx);
           g_live.store(0, rlx);
           g_creator.store(pthread_self(), rlx);
       },
       [&] {
           std::string before;
           {
               sched::Quiet q;
               vm::NoCount nc;
               before = own_name();
           }
           Held h[6];
           for (int i = 0; i < nt; i++)
               start(h[i], i);
           if (noargs)
               start(h[5], 15);
           for (int i = 0; i < nt; i++)
               join_checked(h[backwards ? nt - 1 - i : i], backwards ? nt - 1 - i : i);
           if (noargs)
               join_checked(h[5], 15);
           sched::Quiet q;
           vm::NoCount nc;
           if (own_name() != before)
               vm::fail("foreign-name", "the caller of NewThread is now named '%s'", own_name().c_str());
           std::string().swap(before);
       },
       [&] {
           VM_CHECK(c, g_live.load(rlx) == 0, "argument-lifetime", "%d argument objects are left after the threads are gone", g_live.load(rlx));
           VM_COUNT("threads", nt);
       });
    c.nontrivial();
}
SCENARIO(one, 240, 12000, 0) { program(c, 1, 12); }
SCENARIO(several, 160, 12000, 0) { program(c, 2 + (int)c.rng.below(3), 24); }

// SetThreadName reaches the thread it is meant for, and no other.
SCENARIO(names, 120, 6000, 0) {
    std::string names[8];
    for (auto& n : names) {
        size_t len = 1 + c.rng.below(15);
        for (size_t i = 0; i < len; i++)
            n += (char)c.rng.range(33, 126);
        c.log("%s", n.c_str());
    }
    std::string too_long(16 + c.rng.below(50), 'L');
    conc::Explorer ex(c, 6);
    ex.check_leaks = false;
    ex([](unsigned) {},
       [&] {
           std::atomic<int> stage{0};
           auto wait_for = [&](int s) {
               while (stage.load() < s)
                   std::this_thread::yield();
           };
           std::string original, seen[4];
           {
               sched::Quiet q;
               vm::NoCount nc;
               original = own_name();
           }
           auto body = [&](int i) {
               {
                   sched::Quiet q;
                   vm::NoCount nc;
                   seen[i] = own_name();
               }
               wait_for(1);
               if (i == 0)
                   ke::SetThreadName(names[4].c_str());  // the calling thread
               stage.fetch_add(10);
               wait_for(100);
           };
           std::unique_ptr<std::thread> t[2] = {ke::NewThread(names[0].c_str(), body, 0), ke::NewThread(names[1].c_str(), body, 1)};
           stage.store(1);
           wait_for(21);
           {
               sched::Quiet q;
               vm::NoCount nc;
               if (seen[0] != names[0] || seen[1] != names[1])
                   vm::fail("wrong-name", "two threads are named '%s' and '%s', not '%s' and '%s'", seen[0].c_str(), seen[1].c_str(), names[0].c_str(), names[1].c_str());
               if (name_of(*t[0]) != names[4])
                   vm::fail("wrong-name", "a thread that named itself '%s' is named '%s'", names[4].c_str(), name_of(*t[0]).c_str());
               if (name_of(*t[1]) != names[1] || own_name() != original)
                   vm::fail("foreign-name", "naming one thread changed another");
           }
           ke::SetThreadName(t[1].get(), names[5].c_str());
           {
               sched::Quiet q;
               vm::NoCount nc;
               if (name_of(*t[1]) != names[5])
                   vm::fail("wrong-name", "the given thread is named '%s', not '%s'", name_of(*t[1]).c_str(), names[5].c_str());
               if (name_of(*t[0]) != names[4] || own_name() != original)
                   vm::fail("foreign-name", "naming one thread changed another");
           }
           ke::SetThreadName(names[6].c_str());
           {
               sched::Quiet q;
               vm::NoCount nc;
               if (own_name() != names[6])
                   vm::fail("wrong-name", "the calling thread is named '%s', not '%s'", own_name().c_str(), names[6].c_str());
               if (name_of(*t[0]) != names[4] || name_of(*t[1]) != names[5])
                   vm::fail("foreign-name", "naming one thread changed another");
           }
           ke::SetThreadName(t[0].get(), too_long.c_str());
           std::string then;
           {
               sched::Quiet q;
               vm::NoCount nc;
               then = name_of(*t[0]);
               if (name_of(*t[1]) != names[5] || own_name() != names[6])
                   vm::fail("foreign-name", "giving one thread a name of %zu bytes changed another's", too_long.size());
           }
           ke::SetThreadName(too_long.c_str());
           {
               sched::Quiet q;
               vm::NoCount nc;
               if (name_of(*t[0]) != then)
                   vm::fail("foreign-name", "giving the calling thread a name of %zu bytes changed another's", too_long.size());
           }
           {
               sched::Quiet q;
               vm::NoCount nc;
               if (name_of(*t[1]) != names[5])
                   vm::fail("foreign-name", "naming one thread changed another");
               VM_COUNT("name_checks", 10);
           }
           ke::SetThreadName(original.c_str());
           stage.store(100);
           t[0]->join();
           t[1]->join();
           sched::Quiet q;
           vm::NoCount nc;
           std::string().swap(original);
           for (auto& s : seen)
               std::string().swap(s);
       },
       [] {});
    c.nontrivial();
}
// Threads may be detached: the function still runs once, whatever the caller does.
SCENARIO(detached, 60, 3000, 0) {
    for (int i = 0; i < 2; i++) {
        do
            make_job(c, i);
        while (g_job[i].kind == kMethodPtr || g_job[i].kind == kRef);
    }
    conc::Explorer ex(c, 16);
    ex([](unsigned) {
           for (auto& n : g_calls) n.store(0, rlx);
           g_live.store(0, rlx);
           g_left.store(0, rlx);
           g_creator.store(pthread_self(), rlx);
       },
       [&] {
           for (int i = 0; i < 2; i++) {
               Held h;
               start(h, i);
               h.th->detach();
           }
           if (!conc::kScheduled) {
               for (int k = 0; k < 20000 && (g_left.load(std::memory_order_acquire) != 2 || g_live.load(std::memory_order_acquire)); k++)
                   usleep(100);
               usleep(2000);
           }
       },
       [&] {
           for (int i = 0; i < 2; i++)
               VM_CHECK(c, g_calls[i].load(rlx) == 1, "not-called", "the function of a detached thread has been called %d times", g_calls[i].load(rlx));
           VM_CHECK(c, g_live.load(rlx) == 0, "argument-lifetime", "%d argument objects are left after the detached threads", g_live.load(rlx));
           VM_COUNT("detached", 2);
       });
    c.nontrivial();
}
