// C01: HashTable, HashMap and HashSet against std::map over random histories.
#include "hash_common.h"

template <typename A>
static void plain(vm::Case& c) {
    HistOpts o;
    pick_mode(c, o);
    History<A> h(c, o);
    VM_CHECK(c, h.start(ke::SystemAllocatorPolicy()), "init", "init() failed");
    h.run();
}
SCENARIO(map_int, 500, 12000, 0) { plain<MapAdapter<uint32_t, uint32_t, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(map_string, 250, 6000, 0) { plain<MapAdapter<std::string, uint32_t, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(table_int, 500, 12000, 0) { plain<TableAdapter<uint32_t, uint32_t, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(set_int, 500, 12000, 0) { plain<SetAdapter<uint32_t, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(set_string, 250, 6000, 0) { plain<SetAdapter<std::string, ke::SystemAllocatorPolicy>>(c); }

// Larger populations: growth through many capacities, then decline and regrowth.
template <typename A>
static void large(vm::Case& c) {
    HistOpts o;
    g_mode = c.rng.coin() ? kHashMix : c.rng.coin() ? kHashIdentity : kHashExact;
    g_mode_arg = (uint32_t)c.rng.next();
    uint32_t n = (uint32_t)(c.index % 8 == 7 ? c.rng.range(70000, 140000) : c.rng.range(2000, c.thorough() ? 200000 : 60000));
    o.max_keys = n;
    c.log("mode=%s n=%u", kHashModeNames[g_mode], n);
    History<A> h(c, o);
    VM_CHECK(c, h.start(ke::SystemAllocatorPolicy()), "init", "init() failed");
    for (int round = 0; round < 2; round++) {
        for (uint32_t i = 0; i < n; i++) {
            h.insert(i * 3, (int)i, (int)(i % 3), true);
            h.model[i * 3] = (int)i;
            if ((i & (i - 1)) == 0) {
                h.check_counts("add");
                h.check_key(i, false);
            }
        }
        h.check_all();
        for (uint32_t i = 0; i < n * 3; i += 1 + (uint32_t)c.rng.below(8))
            h.check_key(i, i & 1);
        uint32_t keep = 1 + (uint32_t)c.rng.below(50);
        for (uint32_t i = 0; i < n; i++) {
            if (i % keep == 0 && round == 0)
                continue;
            VM_CHECK(c, A::remove(*h.t, i * 3, (int)(i % 3)) == (h.model.erase(i * 3) != 0), "remove", "remove of key %u", i * 3);
        }
        h.check_counts("removal");
        h.check_all();
    }
    VM_COUNT("large_keys", n);
    c.sig(n);
    c.nontrivial();
}
SCENARIO(large_map, 8, 60, 0) { large<MapAdapter<uint32_t, uint32_t, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(large_table, 8, 60, 0) { large<TableAdapter<uint32_t, uint32_t, ke::SystemAllocatorPolicy>>(c); }
SCENARIO(large_set, 8, 60, 0) { large<SetAdapter<uint32_t, ke::SystemAllocatorPolicy>>(c); }

// Every short history: all sequences of add/remove over four colliding keys, for each placement of
// the collision run, wrap-around included. Exhaustive in the sequence.
SCENARIO(small_exhaustive, 9 * 4096, 9 * 65536, 0) {
    typedef TableAdapter<uint32_t, uint32_t, ke::SystemAllocatorPolicy> A;
    // 12 filler keys put the table next to its density limit, so that the enumerated steps cross it.
    unsigned fill = (unsigned)(c.index % 9);
    uint64_t seq = c.index / 9;
    unsigned len = c.thorough() ? 8 : 6;
    HistOpts o;
    g_mode = kHashExact;
    History<A> h(c, o);
    h.start(ke::SystemAllocatorPolicy());
    for (unsigned i = 0; i < fill + 4; i++)
        h.insert(0x1000 + i + 8, 5, 0, true);
    for (unsigned s = 0; s < len; s++, seq >>= 2) {
        // keys 15, 31, 47, 63 all start at the last slot of a table of 16
        uint32_t id = 15 + 16 * (uint32_t)(seq & 3);
        if (h.model.count(id)) {
            A::remove(*h.t, id, (int)(s % 3));
            h.model.erase(id);
        } else {
            h.insert(id, (int)s + 1, 0, true);
        }
        h.check_counts("step");
        for (uint32_t k = 15; k < 80; k += 16)
            h.check_key(k, false);
    }
    h.check_all();
    c.sig(c.index);
    c.nontrivial();
}
// Tombstone saturation: a fixed live set while distinct keys pass through for long.
SCENARIO(churn, 60, 600, 0) {
    typedef MapAdapter<uint32_t, uint32_t, ke::SystemAllocatorPolicy> A;
    HistOpts o;
    g_mode = (HashMode)c.rng.below(kHashModes);
    g_mode_arg = (uint32_t)c.rng.next();
    uint32_t live = (uint32_t)c.rng.range(0, 40);
    c.log("mode=%s live=%u", kHashModeNames[g_mode], live);
    History<A> h(c, o);
    h.start(ke::SystemAllocatorPolicy());
    uint32_t key = (uint32_t)c.rng.below(1000);
    std::vector<uint32_t> fifo;
    for (int i = 0; i < 3000; i++) {
        h.insert(key, i + 1, 0, false);
        fifo.push_back(key);
        key += 1 + (uint32_t)c.rng.below(3);
        if (fifo.size() > live) {
            size_t at = c.rng.coin() ? 0 : (size_t)c.rng.below(fifo.size());
            uint32_t gone = fifo[at];
            fifo.erase(fifo.begin() + at);
            A::remove(*h.t, gone, i % 3);
            h.model.erase(gone);
            h.check_key(gone, false);
        }
        h.check_counts("churn");
        h.check_key(key + 12345, false);  // absent key: must terminate
    }
    h.check_all();
    c.sig(live);
    c.sig(g_mode);
    c.sig(key);
    c.nontrivial();
    VM_COUNT("churned_keys", 3000);
}
// Lookups and counts of an empty but initialised container, of every initial capacity.
SCENARIO(empty, 12, 16, 0) {
    typedef SetAdapter<uint32_t, ke::SystemAllocatorPolicy> A;
    HistOpts o;
    g_mode = kHashMix;
    o.init_cap = (size_t)1 << c.index;
    o.max_keys = 50;
    History<A> h(c, o);
    VM_CHECK(c, h.start(ke::SystemAllocatorPolicy()), "init", "init(%zu) failed", o.init_cap);
    h.check_all();
    for (uint32_t i = 0; i < 300; i++)
        h.check_key(i, false);
    h.t->clear();
    h.check_all();
    h.insert(1, 1, 0, true);
    h.t->clear();
    h.model.clear();
    h.check_all();
    h.check_key(1, false);
    c.sig(c.index);
    c.nontrivial();
}
// A set of keys that carry more than what is compared: add() of a key that matches an element
// changes nothing, so a lookup yields the element as it was stored.
struct TaggedKey {
    uint32_t id, tag;
};
struct TaggedPolicy {
    static uint32_t hash(const TaggedKey& k) { return hash_id(k.id); }
    static uint32_t hash(uint32_t id) { return hash_id(id); }
    static bool matches(const TaggedKey& a, const TaggedKey& b) { return a.id == b.id; }
    static bool matches(uint32_t id, const TaggedKey& b) { return id == b.id; }
};
SCENARIO(set_tagged, 150, 4000, 0) {
    g_mode = (HashMode)c.rng.below(kHashModes);
    g_mode_arg = (uint32_t)c.rng.next();
    ke::HashSet<TaggedKey, TaggedPolicy> set;
    VM_CHECK(c, set.init(), "init", "init() failed");
    std::map<uint32_t, uint32_t> model;
    uint32_t keys = (uint32_t)c.rng.range(1, 60), kept = 0;
    for (uint32_t step = 1; step <= 400; step++) {
        TaggedKey k = {(uint32_t)c.rng.below(keys), step};
        switch (c.rng.below(4)) {
        case 0:
            kept += (uint32_t)model.count(k.id);
            set.add(k);
            model.insert({k.id, k.tag});
            break;
        case 1: {
            kept += (uint32_t)model.count(k.id);
            TaggedKey copy = k;
            set.add(std::move(copy));
            model.insert({k.id, k.tag});
            break;
        }
        case 2: {
            auto p = set.findForAdd(k.id);
            VM_CHECK(c, p.found() == (model.count(k.id) != 0), "found", "findForAdd of key %u", k.id);
            if (!p.found()) {
                VM_CHECK(c, set.add(p, k), "add", "add() failed");
                model[k.id] = k.tag;
            }
            break;
        }
        default:
            set.removeIfExists(k.id);
            model.erase(k.id);
        }
        VM_CHECK(c, set.elements() == model.size(), "elements", "step %u: %zu elements instead of %zu", step,
                 set.elements(), model.size());
        auto r = set.find(k.id);
        auto m = model.find(k.id);
        VM_CHECK(c, r.found() == (m != model.end()), "found", "step %u: key %u found: %d", step, k.id, r.found());
        if (r.found())
            VM_CHECK(c, r->tag == m->second, "element", "step %u: the element with key %u is the one of step %u instead of %u",
                     step, k.id, r->tag, m->second);
    }
    for (auto i = set.iter(); !i.empty(); i.next())
        VM_CHECK(c, model.count(i->id) && model[i->id] == i->tag, "element", "the walk shows key %u of step %u", i->id, i->tag);
    c.sig(keys);
    c.sig(model.size());
    c.nontrivial();
    VM_COUNT("adds_of_present_keys", kept);
}
// A new entry whose key or value is read from an entry of the same map, across growth.
SCENARIO(map_own, 200, 6000, 0) {
    typedef ke::HashMap<std::string, std::string, HPol<std::string>> M;
    g_mode = (HashMode)c.rng.below(kHashModes);
    g_mode_arg = (uint32_t)c.rng.next();
    M map;
    VM_CHECK(c, map.init(), "init", "init() failed");
    std::map<uint32_t, std::string> model;
    typedef KT<std::string> K;
    uint32_t next = 0;
    auto put = [&](uint32_t id, const std::string& v) {
        auto p = map.findForAdd(K::make(id));
        VM_CHECK(c, !p.found() && map.add(p, K::make(id), v), "add", "add() of key %u failed", id);
        model[id] = v;
    };
    put(next, K::make(1000000));
    next++;
    uint32_t n = (uint32_t)c.rng.range(5, 160);
    for (uint32_t step = 0; step < n; step++, next++) {
        uint32_t from = (uint32_t)c.rng.below(next);
        if (!model.count(from)) {
            put(next, K::make(1000000 + next));
            continue;
        }
        auto r = map.find(K::make(from));
        VM_CHECK(c, r.found(), "lost", "key %u is lost", from);
        auto p = map.findForAdd(K::make(next));
        VM_CHECK(c, !p.found(), "found", "key %u was never added", next);
        std::string want = model[from];
        switch (c.rng.below(4)) {
        case 0:  // the value of another entry
            VM_CHECK(c, map.add(p, K::make(next), r->value), "add", "add() failed");
            break;
        case 1:  // ... by a const reference
            VM_CHECK(c, map.add(p, K::make(next), (const std::string&)r->value), "add", "add() failed");
            break;
        case 2: {  // the key of another entry as value
            want = K::make(from);
            VM_CHECK(c, map.add(p, K::make(next), r->key), "add", "add() failed");
            break;
        }
        default: {  // taken out of it
            VM_CHECK(c, map.add(p, K::make(next), std::move(r->value)), "add", "add() failed");
            map.removeIfExists(K::make(from));
            model.erase(from);
        }
        }
        VM_CHECK(c, p.found() && p->value == want && K::id(p->key) == next, "value", "step %u: the entry holds %s instead of %s", step, p->value.c_str(), want.c_str());
        model[next] = want;
    }
    VM_CHECK(c, map.elements() == model.size(), "elements", "%zu elements instead of %zu", map.elements(), model.size());
    for (auto& m : model) {
        auto r = map.find(Lookup{m.first});
        VM_CHECK(c, r.found() && r->value == m.second, "value", "key %u lost its value", m.first);
    }
    c.sig(n);
    c.sig(g_mode);
    c.nontrivial();
    VM_COUNT("adds_from_own_entries", n);
}
