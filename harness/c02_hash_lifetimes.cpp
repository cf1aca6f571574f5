// C02: payload lifetimes in HashTable, HashMap and HashSet.
#include "hash_common.h"
using vm::BigObj;
using vm::MoveObj;
using vm::Obj;
typedef vm::ObjT<true, 4, 16> Obj16;

template <typename A>
static void tracked(vm::Case& c) {
    AllocLog log;
    HistOpts o;
    pick_mode(c, o);
    o.count_objects = true;
    o.log = &log;
    o.steps = (int)c.rng.range(40, 400);
    {
        History<A> h(c, o);
        VM_CHECK(c, h.start(LogPolicy(&log, 1)), "init", "init() failed");
        h.run();
    }
    VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left", log.blocks);
    VM_COUNT("policy_mallocs", log.mallocs);
}
#define T(name, ...) SCENARIO(name, 120, 3000, 0) { tracked<__VA_ARGS__>(c); }
T(map_obj, MapAdapter<Obj, Obj, LogPolicy>)
T(map_move, MapAdapter<MoveObj, MoveObj, LogPolicy>)
T(map_big, MapAdapter<Obj, BigObj, LogPolicy>)
T(map_aligned, MapAdapter<Obj16, MoveObj, LogPolicy>)
T(table_obj, TableAdapter<Obj, Obj, LogPolicy>)
T(table_move, TableAdapter<MoveObj, MoveObj, LogPolicy>)
T(set_obj, SetAdapter<Obj, LogPolicy>)
T(set_move, SetAdapter<MoveObj, LogPolicy>)
T(set_big, SetAdapter<BigObj, LogPolicy>)

// Move-only standard types and the default policy: heap balance and ASan are the monitors.
template <typename A>
static void standard(vm::Case& c) {
    HistOpts o;
    pick_mode(c, o);
    o.steps = (int)c.rng.range(40, 400);
    History<A> h(c, o);
    VM_CHECK(c, h.start(ke::SystemAllocatorPolicy()), "init", "init() failed");
    h.run();
}
SCENARIO(map_unique_ptr, 120, 3000, 0) { standard<MapAdapter<std::unique_ptr<int>, std::unique_ptr<int>, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(map_strings, 120, 3000, 0) { standard<MapAdapter<std::string, std::string, ke::SystemAllocatorPolicy>>(c); }
template <>
struct KT<std::pair<std::string, int>> {};

// Growth to a large table and back down with tracked payloads; destruction when full.
SCENARIO(grow_shrink, 24, 300, 0) {
    typedef MapAdapter<MoveObj, MoveObj, LogPolicy> A;
    AllocLog log;
    HistOpts o;
    o.count_objects = true;
    o.log = &log;
    g_mode = c.rng.coin() ? kHashMix : kHashExact;
    g_mode_arg = (uint32_t)c.rng.next();
    uint32_t n = (uint32_t)c.rng.range(200, 6000);
    {
        History<A> h(c, o);
        h.start(LogPolicy(&log, 2));
        for (uint32_t i = 0; i < n; i++) {
            h.insert(i, (int)i, (int)(i % 3), true);
            h.check_counts("add");
        }
        uint64_t copies = vm::L.copy;
        h.check_all();
        for (uint32_t i = 0; i < n; i++) {
            if (i % 100 == 0)
                continue;
            A::remove(*h.t, i, i % 3);
            h.model.erase(i);
            h.check_counts("remove");
        }
        for (uint32_t i = n; i < n + 400; i++) {
            h.insert(i, (int)i, 0, true);
            h.check_counts("add after decline");
            A::remove(*h.t, i, 0);
            h.model.erase(i);
            h.check_counts("remove");
        }
        VM_CHECK(c, vm::L.copy == copies, "copied", "payloads were copied");
        h.check_all();
        VM_COUNT("grow_shrink_capacity_changes", h.resizes);
        c.log("n=%u capacity changes=%" PRIu64, n, h.resizes);
        c.sig(n);
        c.nontrivial();
    }
    VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left", log.blocks);
}
// Containers that were never initialised, moved before init, moved twice, cleared twice.
SCENARIO(edges, 64, 64, 0) {
    typedef MapAdapter<Obj, MoveObj, LogPolicy> A;
    AllocLog log, log2;
    g_mode = kHashMix;
    int64_t live0 = vm::L.live;
    {
        A::Ctr never{LogPolicy(&log)};
        A::Ctr moved(std::move(never));
        A::Ctr again(std::move(moved));
        VM_CHECK(c, never.elements() == 0 && moved.elements() == 0 && again.elements() == 0, "elements", "uninitialised containers are not empty");
        if (c.index & 1) {
            VM_CHECK(c, again.init(16), "init", "init() failed");
            for (uint32_t i = 0; i < c.index; i++)
                VM_CHECK(c, A::insert(again, i, (int)i + 1, (int)(i % 3), false) == kAdded, "add", "add of %u failed", i);
            if (c.index & 2)
                again.clear();
            if (c.index & 4)
                again.clear();
            A::Ctr last(std::move(again));
            size_t n = (c.index & 6) ? 0 : c.index;
            VM_CHECK(c, last.elements() == n, "elements", "%zu elements after move, expected %zu", last.elements(), n);
            VM_CHECK(c, vm::L.live - live0 == (int64_t)(2 * n), "payload-count", "%" PRId64 " payloads for %zu entries", vm::L.live - live0, n);
            for (uint32_t i = 0; i < n; i++) {
                int v = -1;
                VM_CHECK(c, A::find(last, i, &v, true) && v == (int)i + 1, "value", "key %u lost in the move", i);
            }
            if (c.index & 8) {  // both stay alive and independent
                VM_CHECK(c, again.init(32), "reinit", "init() of a moved-from container failed");
                for (uint32_t i = 0; i < 30; i++)
                    VM_CHECK(c, A::insert(again, i + 1000, 5, 0, false) == kAdded, "add", "add failed");
                VM_CHECK(c, last.elements() == n && again.elements() == 30, "elements", "containers are not independent after the move");
                int v;
                VM_CHECK(c, !A::find(last, 1001, &v, false), "lookup", "a key of one container shows up in the other");
            }
        }
    }
    VM_CHECK(c, vm::L.live == live0, "payload-leak", "%" PRId64 " payloads left", vm::L.live - live0);
    VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left", log.blocks);
    c.sig(c.index);
    c.nontrivial();
}
