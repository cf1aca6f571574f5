// vmsched.h - schedules for the concurrency harnesses.
//
// With VM_SCHED (configs S and SR) a harness is compiled with clang's -fsanitize=thread, but linked
// with vmsched.cpp instead of the ThreadSanitizer runtime. sched::run(options, body) then runs the
// body, and every thread it starts, one at a time: at every atomic operation, lock operation, yield,
// key operation and (sometimes) plain access the running thread may have to hand over, as the
// seeded strategy decides. Vector clocks detect data races exactly as C++ defines them, frees are
// held back and watched, deadlocks and livelocks are reported. A run is a pure function of its seed.
//
// Without VM_SCHED (configs T, TR, A, B) the same harness runs its body on real threads.
#ifndef VMSCHED_H_
#define VMSCHED_H_

#include <stdint.h>
#include <functional>

namespace sched {

enum Strategy { kRandom, kLazy, kPct, kStrategies };

struct Options {
    uint64_t seed = 1;
    Strategy strategy = kRandom;
    unsigned depth = 2;       // kPct: number of priority changes; kLazy: switch with chance 1/2^depth
    unsigned length = 60;     // kPct: expected number of steps
    unsigned plain = 0;       // switch before one of this many plain accesses (0: never)
    bool trace = false;
};
struct Result {
    uint64_t steps = 0;       // switch points
    uint64_t switches = 0;    // of which another thread continued
    uint64_t accesses = 0;    // plain accesses checked for races
    uint64_t sig = 0;         // identifies the interleaving
    uint64_t threads = 0;
    int64_t leaked = 0;       // blocks allocated in the run and not freed by its end
};

#if defined(VM_SCHED)
Result run(const Options& o, const std::function<void()>& body);
void fail_handler(void (*fn)(const char* key, const char* msg));
void quiet_begin();
void quiet_end();
void point();  // a switch point of the harness's own
int self();    // logical thread number, -1 outside of a run
bool running();
struct Quiet {  // code of the monitor: not scheduled, not checked
    Quiet() { quiet_begin(); }
    ~Quiet() { quiet_end(); }
};
#else
static inline Result run(const Options&, const std::function<void()>& body) {
    body();
    return Result();
}
static inline void fail_handler(void (*)(const char*, const char*)) {}
static inline void point() {}
static inline int self() { return 0; }
static inline bool running() { return false; }
struct Quiet {
    Quiet() {}
    ~Quiet() {}
};
#endif

}  // namespace sched

#endif
