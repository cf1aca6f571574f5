// C04: memory of the hash containers against their population.
#include "hash_common.h"

template <typename A>
static void bounded(vm::Case& c) {
    AllocLog log;
    HistOpts o;
    pick_mode(c, o);
    o.log = &log;
    o.memory_bounds = true;
    o.origin = (int)c.rng.below(6);
    History<A> h(c, o);
    VM_CHECK(c, h.start(LogPolicy(&log)), "init", "init() failed");
    h.run();
}
SCENARIO(map_history, 200, 6000, 0) { bounded<MapAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(table_history, 200, 6000, 0) { bounded<TableAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(set_history, 200, 6000, 0) { bounded<SetAdapter<uint32_t, LogPolicy>>(c); }

// Distinct keys pass through a small live set for a long time.
template <typename A>
static void churn(vm::Case& c) {
    AllocLog log;
    HistOpts o;
    o.log = &log;
    o.memory_bounds = true;
    o.init_cap = (size_t)1 << c.rng.range(4, 7);
    o.origin = (int)c.rng.below(5);
    static const HashMode modes[] = {kHashMix, kHashIdentity, kHashExact, kHashStride, kHashMix};
    g_mode = modes[c.rng.below(5)];
    g_mode_arg = (uint32_t)c.rng.next();
    uint32_t live = (uint32_t)c.rng.range(0, 100);
    int n = c.thorough() ? 60000 : 8000;
    c.log("mode=%s live=%u cap=%zu", kHashModeNames[g_mode], live, o.init_cap);
    History<A> h(c, o);
    h.start(LogPolicy(&log));
    uint32_t key = (uint32_t)c.rng.next();
    unsigned order = (unsigned)c.rng.below(3);
    std::vector<uint32_t> pool;
    size_t mem_max = 0;
    for (int i = 0; i < n; i++) {
        h.insert(key, i + 1, 0, false);
        pool.push_back(key);
        key++;
        h.check_counts("churn add");
        if (pool.size() > live) {
            size_t at = order == 0 ? 0 : order == 1 ? pool.size() - 1 : (size_t)c.rng.below(pool.size());
            uint32_t gone = pool[at];
            pool[at] = pool.back();
            pool.pop_back();
            A::remove(*h.t, gone, i % 3);
            h.model.erase(gone);
            h.check_counts("churn remove");
        }
        if (h.last_mem > mem_max)
            mem_max = h.last_mem;
    }
    h.check_all();
    VM_COUNT("churned_keys", n);
    VM_COUNT("churn_capacity_changes", h.resizes);
    c.log("initial=%zu max=%zu changes=%" PRIu64, h.initial_mem, mem_max, h.resizes);
    c.sig(live);
    c.sig(mem_max);
    c.sig(g_mode);
    c.sig(order);
    c.nontrivial();
}
SCENARIO(churn_map, 40, 300, 0) { churn<MapAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(churn_table, 40, 300, 0) { churn<TableAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(churn_set, 40, 300, 0) { churn<SetAdapter<uint32_t, LogPolicy>>(c); }

// Slots of removed keys are used again, very many times, and now and then a new key comes along.
template <typename A>
static void reuse(vm::Case& c) {
    AllocLog log;
    HistOpts o;
    o.log = &log;
    o.memory_bounds = true;
    o.init_cap = (size_t)1 << c.rng.range(4, 6);
    static const HashMode modes[] = {kHashMix, kHashIdentity, kHashStride};
    g_mode = modes[c.rng.below(3)];
    g_mode_arg = (uint32_t)c.rng.next();
    uint32_t live = 1 + (uint32_t)c.rng.below(o.init_cap / 2), key = 1000;
    History<A> h(c, o);
    h.start(LogPolicy(&log));
    for (uint32_t k = 0; k < live; k++)
        h.insert(k, 1, 0, false);
    uint64_t again = 0;
    for (int round = 0; round < 12; round++) {
        uint64_t n = h.t->estimateMemoryUse() / (h.initial_mem / o.init_cap) + c.rng.below(40);
        for (uint64_t i = 0; i < n; i++) {
            uint32_t k = (uint32_t)(c.rng.coin() ? i % live : c.rng.below(live));
            A::remove(*h.t, k, (int)(i % 3));
            h.model.erase(k);
            h.insert(k, (int)i, 0, false);
            again++;
        }
        h.check_counts("reuse");
        h.insert(key, 1, 0, false);
        h.check_counts("a new key");
        A::remove(*h.t, key, round % 3);
        h.model.erase(key++);
        h.check_counts("its removal");
    }
    h.check_all();
    VM_COUNT("slots_reused", again);
    c.log("live=%u cap=%zu again=%" PRIu64 " now=%zu", live, o.init_cap, again, h.last_mem);
    c.sig(live);
    c.sig(again);
    c.nontrivial();
}
SCENARIO(reuse_map, 40, 300, 0) { reuse<MapAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(reuse_table, 40, 300, 0) { reuse<TableAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(reuse_set, 40, 300, 0) { reuse<SetAdapter<uint32_t, LogPolicy>>(c); }

// Population falls; insertions of new keys go on; memory has to come down again.
template <typename A>
static void decline(vm::Case& c) {
    AllocLog log;
    HistOpts o;
    o.log = &log;
    o.memory_bounds = true;
    o.init_cap = (size_t)1 << c.rng.range(4, 8);
    o.origin = (int)c.rng.below(5);
    g_mode = c.rng.chance(2, 3) ? kHashMix : kHashIdentity;
    g_mode_arg = (uint32_t)c.rng.next();
    uint32_t n = (uint32_t)c.rng.range(300, 20000);
    uint32_t keep = (uint32_t)c.rng.below(60);
    c.log("mode=%s n=%u keep=%u cap=%zu", kHashModeNames[g_mode], n, keep, o.init_cap);
    History<A> h(c, o);
    h.start(LogPolicy(&log));
    for (uint32_t i = 0; i < n; i++)
        h.insert(i, 1, 0, false);
    h.check_counts("growth");
    size_t top = h.last_mem, slot = h.initial_mem / o.init_cap;
    unsigned how = (unsigned)c.rng.below(3);
    if (how == 2) {
        h.t->clear();
        h.model.clear();
    } else if (how == 1) {
        A::each(*h.t, [&](uint32_t id, int) { return id >= keep; });
    } else {
        for (uint32_t i = keep; i < n; i++)
            A::remove(*h.t, i, i % 3);
    }
    if (how != 2)
        h.model.erase(h.model.lower_bound(keep), h.model.end());
    h.check_counts("decline");
    std::vector<uint32_t> pool;
    for (auto& kv : h.model)
        pool.push_back(kv.first);
    uint32_t key = n + 1000;
    uint64_t adds = 4 * (top / slot) + 64;
    for (uint64_t i = 0; i < adds; i++) {
        h.insert(key, 1, 0, false);
        uint32_t gone = key++;
        if (!pool.empty() && c.rng.coin()) {
            size_t at = (size_t)c.rng.below(pool.size());
            std::swap(gone, pool[at]);
        }
        A::remove(*h.t, gone, (int)(i % 3));
        h.model.erase(gone);
        if ((i & 63) == 0)
            h.check_counts("regrowth");
    }
    h.check_counts("regrowth");
    size_t pop = h.model.size() + 1;
    size_t base = pop > o.init_cap ? pop : o.init_cap;
    VM_CHECK(c, h.last_mem <= slot * base * 10, "memory-does-not-shrink",
             "%zu bytes held for %zu entries (top was %zu) after %" PRIu64 " further insertions", h.last_mem, pop, top, adds);
    if (h.model.size() <= o.init_cap / 8) {
        // Nearly nothing is left: the container comes down to its initial size.
        size_t least = h.last_mem;
        for (uint64_t i = 0; i < 16 * o.init_cap + 256 && least > h.initial_mem; i++) {
            h.insert(key, 1, 0, false);
            A::remove(*h.t, key, (int)(i % 3));
            h.model.erase(key++);
            size_t m = h.t->estimateMemoryUse();
            least = m < least ? m : least;
        }
        VM_CHECK(c, least <= h.initial_mem, "memory-floor", "with %zu entries left, %zu bytes are held after any number of insertions; %zu were at first",
                 h.model.size(), least, h.initial_mem);
        h.check_counts("at the floor");
        VM_COUNT("floors_reached", 1);
    }
    h.check_all();
    c.log("top=%zu now=%zu", top, h.last_mem);
    VM_COUNT("declines", 1);
    VM_COUNT("declines_that_shrank", h.last_mem < top);
    c.sig(n);
    c.sig(keep);
    c.sig(how);
    c.nontrivial();
}
SCENARIO(decline_map, 24, 200, 0) { decline<MapAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(decline_table, 24, 200, 0) { decline<TableAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(decline_set, 24, 200, 0) { decline<SetAdapter<uint32_t, LogPolicy>>(c); }

// Repeated tides: many rounds of growth and decline must not ratchet the memory up.
SCENARIO(tides, 16, 120, 0) {
    typedef MapAdapter<uint32_t, uint32_t, LogPolicy> A;
    AllocLog log;
    HistOpts o;
    o.log = &log;
    o.memory_bounds = true;
    g_mode = kHashMix;
    g_mode_arg = (uint32_t)c.rng.next();
    History<A> h(c, o);
    h.start(LogPolicy(&log));
    uint32_t key = 0;
    size_t worst = 0;
    for (int round = 0; round < 40; round++) {
        uint32_t n = 1 + (uint32_t)c.rng.below(400), first = key;
        for (uint32_t i = 0; i < n; i++) {
            h.insert(key++, 1, 0, false);
            h.check_counts("tide add");
        }
        if (h.last_mem > worst)
            worst = h.last_mem;
        for (uint32_t k = first; k < key; k++) {
            A::remove(*h.t, k, 0);
            h.model.erase(k);
        }
        h.check_counts("tide removal");
    }
    h.check_all();
    c.log("rounds=40 worst=%zu", worst);
    VM_COUNT("tides", 40);
    c.sig(worst);
    c.sig(key);
    c.nontrivial();
}
