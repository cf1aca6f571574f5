// Shared by the C01..C04 harnesses: adapters over HashTable, HashMap and HashSet, adversarial hash
// distributions, allocation policies, and the model-checked history driver.
#ifndef HASH_COMMON_H_
#define HASH_COMMON_H_
#include <assert.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>

#include <map>
#include <memory>
#include <set>

#include "vm.h"

// --------------------------------------------------------------------------------------------
// Hash distributions. The table multiplies by the golden ratio; kInvPhi undoes that, so modes can
// choose the bits the table will probe with (0, 1 and 2^32-1 included, and wrap-around runs).
static const uint32_t kInvPhi = 0x144cbc89u;
static_assert(uint32_t(kInvPhi * 0x9E3779B9u) == 1u, "inverse");

enum HashMode {
    kHashIdentity, kHashConst, kHashFew, kHashExact, kHashTail, kHashHigh, kHashMix, kHashZeroOne,
    kHashStride, kHashModes
};
static const char* const kHashModeNames[] = {"identity", "const", "few", "exact", "tail", "high",
                                             "mix", "zero-one", "stride"};
static HashMode g_mode;
static uint32_t g_mode_arg;
static uint64_t g_hash_calls;

static inline uint32_t hash_id(uint32_t id) {
    g_hash_calls++;
    switch (g_mode) {
        case kHashIdentity: return id;
        case kHashConst: return g_mode_arg;
        case kHashFew: return (id % 3) * kInvPhi * (g_mode_arg | 1);
        case kHashExact: return id * kInvPhi;                      // probes start at slot id
        case kHashTail: return (0xFFFFFFFFu - (id & 7)) * kInvPhi;  // last slots: wraps around
        case kHashHigh: return (id << 20) * kInvPhi;               // differ in high bits only
        case kHashZeroOne: return (id & 3) * kInvPhi;              // final hash 0, 1, 2, 3
        case kHashStride: return (id * 16) * kInvPhi;
        default: return (uint32_t)vm::mix64(id + ((uint64_t)g_mode_arg << 32));
    }
}

// --------------------------------------------------------------------------------------------
// Key and value traits: a key stands for a number, a value for an int.
template <typename K>
struct KT;
template <>
struct KT<uint32_t> {
    static uint32_t make(uint32_t id) { return id; }
    static uint32_t id(uint32_t k) { return k; }
};
template <>
struct KT<std::string> {
    static std::string make(uint32_t id) { return "key-with-a-long-common-prefix-" + std::to_string(id); }
    static uint32_t id(const std::string& k) { return k.size() > 30 ? (uint32_t)strtoul(k.c_str() + 30, nullptr, 10) : 0; }
};
template <bool C, size_t P, size_t A>
struct KT<vm::ObjT<C, P, A>> {
    typedef vm::ObjT<C, P, A> T;
    static T make(uint32_t id) { return T((int)id); }
    static uint32_t id(const T& k) { return (uint32_t)k.get(); }
};
template <size_t P, size_t A>
struct KT<vm::MoveObjT<P, A>> {
    typedef vm::MoveObjT<P, A> T;
    static T make(uint32_t id) { return T((int)id); }
    static uint32_t id(const T& k) { return (uint32_t)k.get(); }
};
template <>
struct KT<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(uint32_t id) { return std::unique_ptr<int>(new int((int)id)); }
    static uint32_t id(const std::unique_ptr<int>& k) { return k ? (uint32_t)*k : 0; }
};

struct Lookup {  // a lookup type that is not the key type
    uint32_t id;
};
template <typename K>
struct HPol {
    static uint32_t hash(const K& k) { return hash_id(KT<K>::id(k)); }
    static uint32_t hash(const Lookup& k) { return hash_id(k.id); }
    static bool matches(const K& a, const K& b) { return KT<K>::id(a) == KT<K>::id(b); }
    static bool matches(const Lookup& a, const K& b) { return a.id == KT<K>::id(b); }
};

// --------------------------------------------------------------------------------------------
// Allocation policies.
struct AllocLog {
    int64_t blocks = 0;
    uint64_t bytes = 0, peak = 0;
    uint64_t mallocs = 0, failures = 0;
    int64_t fail_in = -1;       // fails the allocation that many calls from now (0: the next)
    bool fail_forever = false;  // ... and every later one
    uint64_t oom_reports = 0, overflow_reports = 0;
    uint64_t max_request = 0;
    bool refuse_huge = false;  // returns null above 1 MiB instead of trying
};
// A block carries its size and its owner, so that the policy notices foreign or repeated frees.
struct BlockHeader {
    uint64_t magic;
    uint64_t size;
    AllocLog* owner;
    uint64_t pad;
};
struct LogPolicy {
    AllocLog* log;
    uint64_t id;
    LogPolicy() : log(nullptr), id(0) {}
    explicit LogPolicy(AllocLog* l, uint64_t i = 0) : log(l), id(i) {}
    void reportOutOfMemory() { if (log) log->oom_reports++; }
    void reportAllocationOverflow() { if (log) log->overflow_reports++; }
    void* am_malloc(size_t n) {
        if (!log)
            vm::fail("policy-not-supplied", "an allocation went through a policy object the caller did not supply");
        log->mallocs++;
        if (n > log->max_request)
            log->max_request = n;
        if (log->fail_in == 0) {
            if (!log->fail_forever)
                log->fail_in = -1;
            log->failures++;
            return nullptr;
        }
        if (log->fail_in > 0)
            log->fail_in--;
        if (log->refuse_huge && n > (1u << 20)) {
            log->failures++;
            return nullptr;
        }
        BlockHeader* h = (BlockHeader*)::malloc(sizeof(BlockHeader) + n);
        h->magic = 0xB10CB10CB10Cull;
        h->size = n;
        h->owner = log;
        memset((void*)(h + 1), 0xA5, n);  // fresh memory is not zero
        log->blocks++;
        log->bytes += n;
        if (log->bytes > log->peak)
            log->peak = log->bytes;
        return h + 1;
    }
    void am_free(void* p) {
        if (!p)
            return;
        if (!log)
            vm::fail("policy-not-supplied", "a block was freed through a policy object the caller did not supply");
        BlockHeader* h = (BlockHeader*)p - 1;
        if (h->magic != 0xB10CB10CB10Cull || h->owner != log)
            vm::fail("foreign-free", "am_free of a block this policy did not hand out (or freed before)");
        h->magic = 0;
        log->blocks--;
        log->bytes -= h->size;
        ::free(h);
    }
};

// add(i) without a payload stores a T(): 0 for integers
template <typename T>
inline typename std::enable_if<std::is_integral<T>::value>::type check_default(const T& t) {
    if (t != T())
        vm::fail("default-payload", "add(i) stored a payload that is not T()");
}
template <typename T>
inline typename std::enable_if<!std::is_integral<T>::value>::type check_default(const T&) {}

// Adding lvalues, which must come out as they were; for copyable types.
template <typename T>
struct IsCopy : std::integral_constant<bool, std::is_copy_constructible<T>::value> {};
static inline bool use_lvalues(uint32_t id, int v) { return ((id >> 1) ^ (uint32_t)v) & 1; }
template <typename K>
static inline void check_lvalue(const K& k, uint32_t id, const char* what) {
    if (KT<K>::id(k) != id)
        vm::fail("lvalue-changed", "add() changes the %s it is given as an lvalue (%u)", what, id);
    VM_COUNT("lvalues_added", 1);
}
template <typename K, typename V, typename C, typename I>
static typename std::enable_if<IsCopy<K>::value && IsCopy<V>::value, bool>::type add_lvalues(C& m, I& i, uint32_t id, int v) {
    K k = KT<K>::make(id);
    V val = KT<V>::make((uint32_t)v);
    bool ok = m.add(i, k, val);
    check_lvalue(k, id, "key");
    check_lvalue(val, (uint32_t)v, "value");
    return ok;
}
template <typename K, typename V, typename C, typename I>
static typename std::enable_if<!(IsCopy<K>::value && IsCopy<V>::value), bool>::type add_lvalues(C& m, I& i, uint32_t id, int v) {
    return m.add(i, KT<K>::make(id), KT<V>::make((uint32_t)v));
}
template <typename K, typename C, typename I>
static typename std::enable_if<IsCopy<K>::value, bool>::type add_lvalue_key(C& m, I& i, uint32_t id) {
    K k = KT<K>::make(id);
    bool ok = m.add(i, k);
    check_lvalue(k, id, "key");
    return ok;
}
template <typename K, typename C, typename I>
static typename std::enable_if<!IsCopy<K>::value, bool>::type add_lvalue_key(C& m, I& i, uint32_t id) {
    return m.add(i, KT<K>::make(id));
}
template <typename K, typename C>
static typename std::enable_if<IsCopy<K>::value>::type set_add_lvalue(C& m, uint32_t id) {
    K k = KT<K>::make(id);
    m.add(k);
    check_lvalue(k, id, "key");
}
template <typename K, typename C>
static typename std::enable_if<!IsCopy<K>::value>::type set_add_lvalue(C& m, uint32_t id) {
    m.add(KT<K>::make(id));
}

// --------------------------------------------------------------------------------------------
// Adapters. insert modes: 0 = full add, 1 = add with the value left default where the type has
// such an overload, 2 = add(i) and set afterwards.
enum Added { kExisted, kAdded, kFailed };

template <typename K, typename V, typename AP>
struct MapAdapter {
    typedef ke::HashMap<K, V, HPol<K>, AP> Ctr;
    static const bool kHasValue = true;
    static const int kObjectsPerEntry = 2;
    static const char* name() { return "HashMap"; }
    static bool find(Ctr& m, uint32_t id, int* v, bool alt) {
        if (alt) {
            const Ctr& cm = m;
            auto r = cm.find(KT<K>::make(id));
            if (r.found()) {
                if (KT<K>::id((*r).key) != id)
                    vm::fail("find-wrong-key", "find(%u) yields key %u", id, KT<K>::id((*r).key));
                *v = (int)KT<V>::id((*r).value);
            }
            return r.found();
        }
        auto r = m.find(Lookup{id});
        if (r.found()) {
            if (KT<K>::id(r->key) != id)
                vm::fail("find-wrong-key", "find(%u) yields key %u", id, KT<K>::id(r->key));
            *v = (int)KT<V>::id(r->value);
        }
        return r.found();
    }
    static Added insert(Ctr& m, uint32_t id, int v, int mode, bool overwrite) {
        auto i = m.findForAdd(Lookup{id});
        if (i.found()) {
            if (KT<K>::id(i->key) != id)
                vm::fail("find-wrong-key", "findForAdd(%u) yields key %u", id, KT<K>::id(i->key));
            if (overwrite)
                i->value = KT<V>::make((uint32_t)v);
            return kExisted;
        }
        bool ok;
        if (mode == 0) {
            ok = use_lvalues(id, v) ? add_lvalues<K, V>(m, i, id, v) : m.add(i, KT<K>::make(id), KT<V>::make((uint32_t)v));
        } else if (mode == 1) {
            ok = use_lvalues(id, v) ? add_lvalue_key<K>(m, i, id) : m.add(i, KT<K>::make(id));
            if (ok) {
                if (KT<V>::id(i->value) != 0)
                    vm::fail("default-value", "add(i, key) stored a value that is not V()");
                i->value = KT<V>::make((uint32_t)v);
            }
        } else {
            ok = m.add(i);
            if (ok) {
                i->key = KT<K>::make(id);
                i->value = KT<V>::make((uint32_t)v);
            }
        }
        if (!ok)
            return kFailed;
        if (!i.found() || KT<K>::id(i->key) != id || (int)KT<V>::id((*i).value) != v)
            vm::fail("insert-invalid-after-add", "the Insert for key %u does not name the new entry after add()", id);
        return kAdded;
    }
    static bool remove(Ctr& m, uint32_t id, int mode) {
        if (mode == 0) {
            auto r = m.find(Lookup{id});
            if (!r.found())
                return false;
            m.remove(r);
            return true;
        }
        if (mode == 1) {
            auto r = m.findForAdd(KT<K>::make(id));
            if (!r.found())
                return false;
            m.remove(r);
            return true;
        }
        size_t n = m.elements();
        m.removeIfExists(Lookup{id});
        return m.elements() != n;
    }
    template <typename F>
    static void each(Ctr& m, F f) {  // f(id, value) returns true to erase
        for (auto it = m.iter(); !it.empty(); it.next()) {
            if (f(KT<K>::id(it->key), (int)KT<V>::id((*it).value)))
                it.erase();
        }
    }
    static bool density(Ctr&) { return true; }
    static bool has_density() { return false; }
};

template <typename K, typename V, typename AP>
struct TableAdapter {
    struct Payload {
        K key;
        V value;
        Payload() : key(KT<K>::make(0)), value(KT<V>::make(0)) {}
        Payload(K&& k, V&& v) : key(std::move(k)), value(std::move(v)) {}
        Payload(Payload&& o) : key(std::move(o.key)), value(std::move(o.value)) {}
        Payload& operator=(Payload&& o) {
            key = std::move(o.key);
            value = std::move(o.value);
            return *this;
        }
    };
    struct Policy {
        typedef TableAdapter::Payload Payload;
        template <typename L>
        static uint32_t hash(const L& l) { return HPol<K>::hash(l); }
        template <typename L>
        static bool matches(const L& l, const Payload& p) { return HPol<K>::matches(l, p.key); }
    };
    typedef ke::HashTable<Policy, AP> Ctr;
    static const bool kHasValue = true;
    static const int kObjectsPerEntry = 2;
    static const char* name() { return "HashTable"; }
    static bool find(Ctr& m, uint32_t id, int* v, bool alt) {
        const Ctr& cm = m;
        auto r = alt ? cm.find(KT<K>::make(id)) : m.find(Lookup{id});
        if (r.found()) {
            if (KT<K>::id(r->key) != id)
                vm::fail("find-wrong-key", "find(%u) yields key %u", id, KT<K>::id(r->key));
            *v = (int)KT<V>::id((*r).value);
        }
        return r.found();
    }
    static Added insert(Ctr& m, uint32_t id, int v, int mode, bool overwrite) {
        auto i = m.findForAdd(Lookup{id});
        if (i.found()) {
            if (KT<K>::id(i->key) != id)
                vm::fail("find-wrong-key", "findForAdd(%u) yields key %u", id, KT<K>::id(i->key));
            if (overwrite)
                i->value = KT<V>::make((uint32_t)v);
            return kExisted;
        }
        if (mode <= 1) {
            Payload p(KT<K>::make(id), KT<V>::make((uint32_t)v));
            if (!m.add(i, std::move(p)))
                return kFailed;
        } else {
            if (!m.add(i))
                return kFailed;
            i->key = KT<K>::make(id);
            i->value = KT<V>::make((uint32_t)v);
        }
        if (!i.found() || KT<K>::id(i->key) != id || (int)KT<V>::id((*i).value) != v)
            vm::fail("insert-invalid-after-add", "the Insert for key %u does not name the new entry after add()", id);
        return kAdded;
    }
    static bool remove(Ctr& m, uint32_t id, int mode) {
        if (mode <= 1) {
            auto r = m.find(Lookup{id});
            if (!r.found())
                return false;
            m.remove(r);
            return true;
        }
        size_t n = m.elements();
        m.removeIfExists(Lookup{id});
        return m.elements() != n;
    }
    template <typename F>
    static void each(Ctr& m, F f) {
        for (typename Ctr::iterator it(&m); !it.empty(); it.next()) {
            if (f(KT<K>::id(it->key), (int)KT<V>::id((*it).value)))
                it.erase();
        }
    }
    static bool density(Ctr& m) { return m.checkDensity(); }
    static bool has_density() { return true; }
};

template <typename K, typename AP>
struct SetAdapter {
    typedef ke::HashSet<K, HPol<K>, AP> Ctr;
    static const bool kHasValue = false;
    static const int kObjectsPerEntry = 1;
    static const char* name() { return "HashSet"; }
    static bool find(Ctr& m, uint32_t id, int* v, bool alt) {
        auto r = alt ? m.find(KT<K>::make(id)) : m.find(Lookup{id});
        if (m.has(Lookup{id}) != r.found())
            vm::fail("has-differs-from-find", "has(%u) != find(%u).found()", id, id);
        if (r.found() && KT<K>::id(*r) != id)
            vm::fail("find-wrong-key", "find(%u) yields key %u", id, KT<K>::id(*r));
        *v = 0;
        return r.found();
    }
    static Added insert(Ctr& m, uint32_t id, int v, int mode, bool) {
        if (mode == 1) {  // the convenience add() reports nothing: look at the count
            size_t n = m.elements();
            bool had = m.has(Lookup{id});
            if (use_lvalues(id, v))
                set_add_lvalue<K>(m, id);
            else
                m.add(KT<K>::make(id));
            if (m.elements() == n + 1)
                return kAdded;
            return had ? kExisted : kFailed;
        }
        auto i = m.findForAdd(Lookup{id});
        if (i.found()) {
            if (KT<K>::id(*i) != id)
                vm::fail("find-wrong-key", "findForAdd(%u) yields key %u", id, KT<K>::id(*i));
            return kExisted;
        }
        if (mode == 0) {
            if (!(use_lvalues(id, v) ? add_lvalue_key<K>(m, i, id) : m.add(i, KT<K>::make(id))))
                return kFailed;
        } else {
            if (!m.add(i))
                return kFailed;
            check_default(*i);
            *i = KT<K>::make(id);
        }
        if (!i.found() || KT<K>::id(*i) != id)
            vm::fail("insert-invalid-after-add", "the Insert for key %u does not name the new entry after add()", id);
        return kAdded;
    }
    static bool remove(Ctr& m, uint32_t id, int mode) {
        if (mode <= 1) {
            auto r = m.find(Lookup{id});
            if (!r.found())
                return false;
            m.remove(r);
            return true;
        }
        size_t n = m.elements();
        m.removeIfExists(Lookup{id});
        return m.elements() != n;
    }
    template <typename F>
    static void each(Ctr& m, F f) {
        for (auto it = m.iter(); !it.empty(); it.next()) {
            if (f(KT<K>::id(*it), 0))
                it.erase();
        }
    }
    static bool density(Ctr&) { return true; }
    static bool has_density() { return false; }
};

// --------------------------------------------------------------------------------------------
// The history driver. Every step compares the container against a std::map.
struct HistOpts {
    bool count_objects = false;   // exact live-object accounting (tracked payload types)
    bool faults = false;          // allocations may fail; kFailed is then accepted
    AllocLog* log = nullptr;
    bool memory_bounds = false;
    bool retry = false;
    uint32_t max_keys = 400;
    int steps = 600;
    size_t init_cap = 16;
    bool init_default = false;
    int origin = 0;  // 1: initialised after it was moved from, 2: after a failed init(), 3: moved before its first use
};

template <typename A>
struct History {
    typedef typename A::Ctr Ctr;
    vm::Case& c;
    HistOpts o;
    std::map<uint32_t, int> model;
    std::unique_ptr<Ctr> t;
    int64_t live0;
    uint32_t key_space;
    size_t initial_mem = 0, peak_live = 0;
    uint64_t resizes = 0, wraps = 0, reused = 0;
    size_t last_mem = 0;
    LogPolicy unused;

    History(vm::Case& c_, const HistOpts& o_) : c(c_), o(o_), live0(vm::L.live), key_space(o_.max_keys) {}

    void check_counts(const char* after) {
        VM_CHECK(c, t->elements() == model.size(), "elements", "elements()=%zu but %zu keys are in the %s after %s",
                 t->elements(), model.size(), A::name(), after);
        if (o.count_objects) {
            int64_t want = (int64_t)model.size() * A::kObjectsPerEntry;
            VM_CHECK(c, vm::L.live - live0 == want, "payload-count",
                     "%" PRId64 " payload objects live, %" PRId64 " expected for %zu entries after %s",
                     vm::L.live - live0, want, model.size(), after);
        }
        size_t mem = t->estimateMemoryUse();
        if (mem != last_mem) {
            resizes++;
            last_mem = mem;
        }
        if (o.log) {
            VM_CHECK(c, o.log->bytes >= mem, "estimate-above-held", "estimateMemoryUse()=%zu but only %" PRIu64 " bytes are held after %s",
                     mem, o.log->bytes, after);
            VM_CHECK(c, o.log->bytes <= mem + mem / 4 + 256, "held-above-estimate",
                     "estimateMemoryUse()=%zu but %" PRIu64 " bytes are held after %s", mem, o.log->bytes, after);
        }
        if (model.size() > peak_live)
            peak_live = model.size();
        if (o.memory_bounds && initial_mem) {
            VM_CHECK(c, mem >= initial_mem, "memory-below-initial", "memory %zu fell below the initial capacity's %zu after %s",
                     mem, initial_mem, after);
            size_t slot = initial_mem / o.init_cap;
            size_t base = peak_live > o.init_cap ? peak_live : o.init_cap;
            VM_CHECK(c, mem <= slot * base * 10, "memory-unbounded",
                     "memory %zu for a peak of %zu entries (initial capacity %zu) after %s", mem, peak_live, o.init_cap, after);
        }
    }
    void check_key(uint32_t id, bool alt) {
        int v = 0;
        bool found = A::find(*t, id, &v, alt);
        auto it = model.find(id);
        VM_CHECK(c, found == (it != model.end()), "lookup", "key %u is %s but the lookup %s it", id,
                 it != model.end() ? "present" : "absent", found ? "finds" : "does not find");
        if (found && A::kHasValue)
            VM_CHECK(c, v == it->second, "value", "key %u has value %d, the lookup yields %d", id, it->second, v);
        VM_COUNT("lookups", 1);
    }
    void check_all() {
        std::set<uint32_t> seen;
        A::each(*t, [&](uint32_t id, int v) {
            VM_CHECK(c, seen.insert(id).second, "iter-duplicate", "iteration visits key %u twice", id);
            auto it = model.find(id);
            VM_CHECK(c, it != model.end(), "iter-stray", "iteration visits key %u, which is not in the container", id);
            if (A::kHasValue)
                VM_CHECK(c, it->second == v, "value", "iteration yields %d for key %u, expected %d", v, id, it->second);
            return false;
        });
        VM_CHECK(c, seen.size() == model.size(), "iter-missing", "iteration visits %zu of %zu entries", seen.size(), model.size());
        VM_COUNT("full_iterations", 1);
    }
    bool insert(uint32_t id, int v, int mode, bool overwrite) {
        bool had = model.count(id) != 0;
        size_t mem = t->estimateMemoryUse();
        int64_t f0 = o.log ? (int64_t)o.log->failures : 0;
        Added r = A::insert(*t, id, v, mode, overwrite);
        int64_t f1 = o.log ? (int64_t)o.log->failures : 0;
        if (r == kFailed) {
            VM_CHECK(c, o.faults && f1 > f0, "add-failed", "add of key %u failed although no allocation did", id);
            VM_CHECK(c, t->estimateMemoryUse() == mem, "failed-add-changed", "a failed add changed the memory use");
            c.log("add %u FAILED", id);
            VM_COUNT("failed_adds", 1);
            check_counts("a failed add");
            check_key(id, false);
            if (!o.log->fail_forever && o.retry) {
                VM_CHECK(c, A::insert(*t, id, v, mode, overwrite) == kAdded, "retry", "the retry of a failed add of key %u does not add it", id);
                model[id] = v;
                VM_COUNT("retries", 1);
                check_counts("a retried add");
                return true;
            }
            return false;
        }
        if (f1 > f0)
            VM_CHECK(c, false, "failure-not-reported", "an allocation failed in add of key %u, which reported success", id);
        VM_CHECK(c, (r == kExisted) == had, "lookup", "findForAdd(%u): key %s, found() says the opposite", id, had ? "present" : "absent");
        if (r == kAdded)
            model[id] = v;
        else if (overwrite && A::kHasValue)
            model[id] = v;
        VM_COUNT("adds", r == kAdded);
        return true;
    }
    void step() {
        vm::Rng& r = c.rng;
        unsigned op = (unsigned)r.below(100);
        uint32_t id = (uint32_t)r.below(key_space);
        int grow = phase == 0 ? 60 : phase == 1 ? 35 : 12;
        const char* what = "?";
        if ((int)op < grow) {
            int v = (int)r.below(1000000) + 1;
            c.log("add %u=%d", id, v);
            insert(id, v, (int)r.below(3), r.coin());
            what = "add";
        } else if (op < 72) {
            bool had = model.count(id) != 0;
            if (!had && r.chance(2, 3) && !model.empty()) {
                auto it = model.lower_bound(id);
                if (it == model.end())
                    it = model.begin();
                id = it->first;
                had = true;
            }
            c.log("remove %u", id);
            bool removed = A::remove(*t, id, (int)r.below(3));
            VM_CHECK(c, removed == had, "remove", "remove of key %u (%s) %s an entry", id, had ? "present" : "absent", removed ? "removed" : "did not remove");
            model.erase(id);
            VM_COUNT("removes", removed);
            what = "remove";
        } else if (op < 90) {
            check_key(id, r.coin());
            what = "find";
        } else if (op < 93) {
            uint32_t m = 2 + (uint32_t)r.below(4), k = (uint32_t)r.below(m);
            c.log("erase-iter %%%u==%u", m, k);
            std::set<uint32_t> seen;
            A::each(*t, [&](uint32_t id2, int) {
                VM_CHECK(c, seen.insert(id2).second, "iter-duplicate", "erasing iteration visits key %u twice", id2);
                VM_CHECK(c, model.count(id2), "iter-stray", "erasing iteration visits absent key %u", id2);
                return id2 % m == k;
            });
            VM_CHECK(c, seen.size() == model.size(), "iter-missing", "erasing iteration visits %zu of %zu", seen.size(), model.size());
            for (auto it = model.begin(); it != model.end();)
                it = it->first % m == k ? model.erase(it) : std::next(it);
            VM_COUNT("iterator_erasures", 1);
            what = "iterator erase";
        } else if (op < 96) {
            check_all();
            what = "iterate";
        } else if (op == 96) {
            if (r.chance(1, 4)) {
                c.log("clear");
                t->clear();
                model.clear();
                VM_COUNT("clears", 1);
                what = "clear";
            }
        } else if (op == 97) {
            if (A::has_density()) {
                uint64_t f0 = o.log ? o.log->failures : 0;
                bool ok = A::density(*t);
                bool failed = o.log && o.log->failures > f0;
                VM_CHECK(c, ok || failed, "density-failed", "checkDensity() failed although no allocation did");
                VM_CHECK(c, !ok || !failed, "failure-not-reported", "an allocation failed in checkDensity(), which reported success");
                c.log("density");
                what = "checkDensity";
            }
        } else if (op == 98) {
            c.log("move");
            std::unique_ptr<Ctr> n(new Ctr(std::move(*t)));
            VM_CHECK(c, t->elements() == 0, "moved-not-empty", "moved-from container reports %zu elements", t->elements());
            int left = 0;
            if (A::name()[0] == 'H' && t->estimateMemoryUse() == 0)
                A::each(*t, [&](uint32_t, int) { left++; return false; });
            VM_CHECK(c, left == 0, "moved-not-empty", "moved-from container iterates over %d entries", left);
            if (r.coin() && !o.faults) {  // reuse the moved-from one
                bool ok = t->init(1u << r.range(4, 6));
                VM_CHECK(c, ok, "reinit", "init() of a moved-from container failed");
                VM_CHECK(c, A::insert(*t, 7, 8, 0, false) == kAdded, "reinit", "a reinitialised container refuses its first key");
                int v = 0;
                VM_CHECK(c, A::find(*t, 7, &v, false) && t->elements() == 1, "reinit", "a reinitialised container lost its key");
                VM_COUNT("moved_from_reused", 1);
            }
            t = std::move(n);
            VM_COUNT("moves", 1);
            what = "move";
        } else {
            int n = 0;
            for (auto& kv : model) {
                check_key(kv.first, n & 1);
                if (++n > 64)
                    break;
            }
            what = "find all";
        }
        check_counts(what);
        c.sig(op < 72 ? op / 10 * 4096 + id : op);
    }
    int phase = 0;
    template <typename AP>
    bool start(const AP& ap) {
        t.reset(new Ctr(ap));
        std::unique_ptr<Ctr> elsewhere;
        if (o.origin == 1) {  // it was another container before, and was moved from
            VM_CHECK(c, t->init((size_t)1 << c.rng.range(4, 10)), "init", "init() failed");
            uint32_t n = (uint32_t)c.rng.below(200);
            for (uint32_t i = 0; i < n; i++)
                A::insert(*t, i, 1, 0, false);
            elsewhere.reset(new Ctr(std::move(*t)));
            VM_COUNT("initialised_after_a_move", 1);
        } else if (o.origin == 2 && o.log) {  // a larger initialisation was tried, and failed
            o.log->fail_in = 0;
            bool first = t->init((size_t)1 << c.rng.range(6, 12));
            o.log->fail_in = -1;
            VM_CHECK(c, !first, "init", "init() succeeds although its allocation fails");
            VM_COUNT("initialised_after_a_failure", 1);
        }
        elsewhere.reset();
        bool ok = o.init_default ? t->init() : t->init(o.init_cap);
        if (o.init_default)
            o.init_cap = 16;
        if (ok) {
            initial_mem = t->estimateMemoryUse();
            last_mem = initial_mem;
        }
        if (ok && o.origin == 3) {
            t.reset(new Ctr(std::move(*t)));
            VM_COUNT("moved_before_use", 1);
        }
        return ok;
    }
    void run() {
        int left = 0;
        for (int s = 0; s < o.steps; s++) {
            if (left-- <= 0) {
                phase = (int)c.rng.below(3);
                left = 20 + (int)c.rng.below(200);
                key_space = c.rng.chance(1, 2) ? o.max_keys : 1 + (uint32_t)c.rng.below(o.max_keys);
            }
            step();
        }
        check_all();
        for (auto& kv : model)
            check_key(kv.first, false);
        for (uint32_t id = 0; id < o.max_keys && id < 500; id++)
            check_key(id, id & 1);
        VM_COUNT("steps", o.steps);
        VM_COUNT("capacity_changes", resizes);
        VM_COUNT("histories_that_resized", resizes != 0);
        if (resizes)
            c.nontrivial();
        t.reset();
        if (o.count_objects)
            VM_CHECK(c, vm::L.live == live0, "payload-leak", "%" PRId64 " payloads outlive the container", vm::L.live - live0);
        if (o.log)
            VM_CHECK(c, o.log->blocks == 0, "block-leak", "%" PRId64 " blocks of the policy outlive the container", o.log->blocks);
    }
};

static inline void pick_mode(vm::Case& c, HistOpts& o) {
    vm::Rng& r = c.rng;
    g_mode = (HashMode)r.below(kHashModes);
    g_mode_arg = r.chance(1, 3) ? (uint32_t)r.below(4) : (uint32_t)r.next();
    o.steps = (int)r.range(60, 900);
    o.max_keys = (uint32_t)(r.chance(1, 4) ? r.range(1, 20) : r.chance(1, 2) ? r.range(20, 120) : r.range(120, 600));
    if (g_mode == kHashConst || g_mode == kHashFew || g_mode == kHashZeroOne || g_mode == kHashTail || g_mode == kHashHigh)
        o.max_keys = o.max_keys > 150 ? 150 : o.max_keys;
    o.init_cap = (size_t)1 << (r.chance(2, 3) ? 4 : r.range(5, 8));
    o.init_default = r.chance(1, 4);
    c.log("mode=%s keys=%u steps=%d cap=%zu", kHashModeNames[g_mode], o.max_keys, o.steps, o.init_cap);
    VM_COUNT("hash_modes_all", 1);
    c.sig(g_mode);
    c.sig(o.init_cap);
}
#endif
