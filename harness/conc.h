// conc.h - explores schedules of one concurrent program (see vmsched.h).
#ifndef CONC_H_
#define CONC_H_

#include "vm.h"
#include "vmsched.h"

#include <functional>
#include <thread>
#include <unordered_set>

namespace conc {

#if defined(VM_SCHED)
static const bool kScheduled = true;
#else
static const bool kScheduled = false;
#endif

static inline void on_fail(const char* key, const char* msg) { vm::fail(key, "%s", msg); }

struct Explorer {
    vm::Case& c;
    unsigned schedules;
    unsigned length = 60;
    bool check_leaks = true;
    Explorer(vm::Case& c, unsigned schedules) : c(c), schedules(schedules) {
        sched::fail_handler(on_fail);
        if (!kScheduled)
            this->schedules = schedules / 8 + 1;
    }
    // before(i): sets up one run; body(): the main thread of the program; after(): end-of-run oracle.
    template <typename B, typename R, typename A>
    void operator()(B before, R body, A after) {
        static std::unordered_set<uint64_t>* seen = new std::unordered_set<uint64_t>();
        for (unsigned i = 0; i < schedules; i++) {
            sched::Options o;
            o.seed = c.rng.next();
            switch (c.rng.below(5)) {
                case 0: o.strategy = sched::kRandom; break;
                case 1:
                case 2:
                    o.strategy = sched::kLazy;
                    o.depth = 2 + (unsigned)c.rng.below(3);
                    break;
                default:
                    o.strategy = sched::kPct;
                    o.depth = (unsigned)c.rng.below(5);
                    break;
            }
            o.length = length;
            static const unsigned plains[] = {0, 0, 3, 12};
            o.plain = plains[c.rng.below(4)];
            o.trace = vm::G().replay && c.tracing && kScheduled;
            if (vm::G().replay)
                c.log("schedule %u: strategy %d depth %u plain %u", i, (int)o.strategy, o.depth, o.plain);
            before(i);
            sched::Result r = sched::run(o, std::function<void()>(body));
            after();
            if (kScheduled) {
                if (check_leaks && r.leaked)
                    vm::fail("heap-leak", "%d blocks are left at the end of the run", (int)r.leaked);
                length = (unsigned)r.steps;
                VM_COUNT("switch_points", r.steps);
                VM_COUNT("context_switches", r.switches);
                VM_COUNT("checked_accesses", r.accesses);
                vm::NoCount nc;
                if (seen->size() < 2000000 && seen->insert(vm::mix64(r.sig ^ c.index * 0x9E37u)).second)
                    VM_COUNT("distinct_interleavings", 1);
                c.sig(r.sig);
            }
            VM_COUNT("runs", 1);
        }
    }
};

// Threads that start together. Each function is called with its number.
template <typename F>
static inline void threads(int n, F fn) {
    std::vector<std::thread> ts;
    ts.reserve(n);
    for (int i = 0; i < n; i++)
        ts.emplace_back([&fn, i] { fn(i); });
    for (auto& t : ts)
        t.join();
}

// For real threads: lets them begin at the same moment.
struct Gate {
    std::atomic<int> waiting{0};
    void arrive(int n) {
        if (kScheduled)
            return;
        waiting.fetch_add(1, std::memory_order_relaxed);
        while (waiting.load(std::memory_order_relaxed) < n) {
        }
    }
};

}  // namespace conc

#endif
