// C03: allocation failure and size overflow in the hash containers, FixedArray and default policy.
#include "hash_common.h"
#include <amtl/am-fixedarray.h>
using vm::MoveObj;
using vm::Obj;

// One history is recorded, then repeated once per allocation it makes, failing that allocation
// (alone, or with every later one up to a point).
template <typename A>
static void fault_each(vm::Case& c) {
    HistOpts o;
    pick_mode(c, o);
    o.steps = (int)c.rng.range(40, 260);
    if (o.max_keys > 200)
        o.max_keys = 200;
    o.count_objects = true;
    vm::Rng saved = c.rng;
    uint64_t allocs;
    {
        AllocLog log;
        o.log = &log;
        History<A> h(c, o);
        VM_CHECK(c, h.start(LogPolicy(&log, 9)), "init", "init() failed without a failing allocation");
        h.run();
        allocs = log.mallocs;
    }
    uint64_t limit = c.thorough() ? 64 : 12;
    for (uint64_t k = 0; k < allocs && k < limit; k++) {
        for (int variant = 0; variant < 3; variant++) {
            AllocLog log;
            o.log = &log;
            o.faults = true;
            o.retry = variant == 0;
            log.fail_in = (int64_t)k;
            log.fail_forever = variant == 2;
            c.rng = saved;
            c.log("-- fail allocation %" PRIu64 " variant %d", k, variant);
            {
                History<A> h(c, o);
                bool ok = h.start(LogPolicy(&log, 9));
                VM_CHECK(c, ok == (log.failures == 0), "init", "init() returned %d although %" PRIu64 " allocations failed", ok, log.failures);
                if (!ok) {
                    VM_CHECK(c, h.t->elements() == 0, "init-failed-elements", "elements()=%zu after a failed init()", h.t->elements());
                    VM_COUNT("failed_inits", 1);
                    if (variant == 1) {  // destroyed right away, or moved first
                        if (k & 1)
                            continue;
                        typename A::Ctr other(std::move(*h.t));
                        VM_CHECK(c, other.elements() == 0, "init-failed-elements", "elements()=%zu in a moved container", other.elements());
                        continue;
                    }
                    log.fail_in = -1;
                    log.fail_forever = false;
                    VM_CHECK(c, h.start(LogPolicy(&log, 9)), "init-retry", "a second container cannot be initialised");
                }
                h.run();
            }
            VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left after a fault", log.blocks);
            VM_COUNT("faults_injected", log.failures);
        }
    }
    c.sig(allocs);
    c.nontrivial();
}
SCENARIO(map_faults, 60, 900, 0) { fault_each<MapAdapter<Obj, Obj, LogPolicy>>(c); }
SCENARIO(map_move_faults, 60, 900, 0) { fault_each<MapAdapter<MoveObj, MoveObj, LogPolicy>>(c); }
SCENARIO(table_faults, 60, 900, 0) { fault_each<TableAdapter<Obj, MoveObj, LogPolicy>>(c); }
SCENARIO(set_faults, 60, 900, 0) { fault_each<SetAdapter<MoveObj, LogPolicy>>(c); }

// init() fails, and the same object is initialised again.
template <typename A>
static void init_retry(vm::Case& c) {
    AllocLog log;
    g_mode = kHashMix;
    {
        typename A::Ctr t(LogPolicy(&log, 5));
        unsigned fails = 1 + (unsigned)(c.index % 3);
        for (unsigned i = 0; i < fails; i++) {
            log.fail_in = 0;
            VM_CHECK(c, !t.init((size_t)16 << i), "init", "init() returned true although its allocation failed");
            VM_CHECK(c, t.elements() == 0, "init-failed-elements", "elements() after failed init");
        }
        VM_CHECK(c, t.init(32), "init-retry", "init() fails again although memory is available");
        for (uint32_t i = 0; i < 100; i++)
            VM_CHECK(c, A::insert(t, i, (int)i + 1, (int)(i % 3), false) == kAdded, "add", "add failed");
        for (uint32_t i = 0; i < 100; i++) {
            int v = 0;
            VM_CHECK(c, A::find(t, i, &v, false), "lookup", "key %u lost", i);
        }
        VM_CHECK(c, t.elements() == 100, "elements", "elements()=%zu", t.elements());
    }
    VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left", log.blocks);
    VM_COUNT("init_retries", 1);
    c.sig(c.index % 3);
    c.nontrivial();
}
SCENARIO(map_init_retry, 16, 16, 0) { init_retry<MapAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(table_init_retry, 16, 16, 0) { init_retry<TableAdapter<Obj, Obj, LogPolicy>>(c); }
SCENARIO(set_init_retry, 16, 16, 0) { init_retry<SetAdapter<uint32_t, LogPolicy>>(c); }

// The policy object supplied, used and exposed is one and the same.
template <typename A>
static void policy_identity(vm::Case& c) {
    AllocLog log, log2;
    g_mode = kHashMix;
    {
        uint64_t id = c.rng.next();
        typename A::Ctr t(LogPolicy(&log, id));
        const typename A::Ctr& ct = t;
        VM_CHECK(c, t.allocPolicy().id == id && t.allocPolicy().log == &log, "policy-exposed", "allocPolicy() is not the policy supplied");
        VM_CHECK(c, ct.allocPolicy().id == id, "policy-exposed", "const allocPolicy() is not the policy supplied");
        VM_CHECK(c, &ct.allocPolicy() == &t.allocPolicy(), "policy-exposed", "const and non-const allocPolicy() name different objects");
        if (c.rng.coin()) {  // reconfigured through the accessor before first use
            t.allocPolicy().log = &log2;
            VM_CHECK(c, t.init(16), "init", "init() failed");
            VM_CHECK(c, log2.mallocs > 0 && log.mallocs == 0, "policy-used", "the policy allocPolicy() exposes is not the one that allocates");
            for (uint32_t i = 0; i < 60; i++)
                A::insert(t, i, 1, 0, false);
            VM_CHECK(c, log.mallocs == 0, "policy-used", "growth allocates from another policy object");
        } else {
            VM_CHECK(c, t.init(16), "init", "init() failed");
            VM_CHECK(c, log.mallocs > 0, "policy-used", "init() does not allocate from the policy supplied");
            t.allocPolicy().log->fail_in = 0;  // a failure set through the accessor has to bite
            Added r = kExisted;
            uint32_t i = 0;
            for (; i < 60 && r != kFailed; i++)
                r = A::insert(t, i, 1, 0, false);
            VM_CHECK(c, r == kFailed, "policy-used", "an armed failure never reached the table");
            VM_CHECK(c, t.elements() == i - 1, "elements", "elements()=%zu", t.elements());
        }
        size_t n = t.elements();
        typename A::Ctr m(std::move(t));
        VM_CHECK(c, m.allocPolicy().id == id, "policy-exposed", "allocPolicy() of a moved container is not the policy supplied");
        VM_CHECK(c, m.elements() == n, "elements", "elements()=%zu after the move, %zu before", m.elements(), n);
        for (uint32_t i = 100; i < 200; i++)
            VM_CHECK(c, A::insert(m, i, 1, 0, false) == kAdded, "add", "add after move failed");
    }
    VM_CHECK(c, log.blocks == 0 && log2.blocks == 0, "block-leak", "blocks left");
    VM_COUNT("policy_identity_cases", 1);
    c.sig(c.rng.next());
    c.nontrivial();
}
SCENARIO(map_policy, 40, 200, 0) { policy_identity<MapAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(table_policy, 40, 200, 0) { policy_identity<TableAdapter<uint32_t, uint32_t, LogPolicy>>(c); }
SCENARIO(set_policy, 40, 200, 0) { policy_identity<SetAdapter<uint32_t, LogPolicy>>(c); }

// Capacities from 2^8 to 2^63: either a block of at least that size is asked for, or the overflow
// is reported; never a smaller block, never success.
template <typename A, size_t kPayload>
static void init_sizes(vm::Case& c) {
    AllocLog log;
    log.refuse_huge = true;
    unsigned bit = 4 + (unsigned)(c.index % 60);
    size_t cap = (size_t)1 << bit;
    g_mode = kHashMix;
    {
        typename A::Ctr t{LogPolicy(&log)};
        bool ok = t.init(cap);
        c.log("init(2^%u) -> %d overflow=%" PRIu64 " largest request=%" PRIu64, bit, ok, log.overflow_reports, log.max_request);
        bool fits64 = bit < 32 && (unsigned __int128)cap * kPayload < ((unsigned __int128)1 << 63);
        if (ok) {
            VM_CHECK(c, log.max_request >= (unsigned __int128)cap * kPayload, "under-allocated", "init(2^%u) succeeded with a block of %" PRIu64 " bytes", bit, log.max_request);
            VM_CHECK(c, A::insert(t, 1, 1, 0, false) == kAdded, "add", "add failed");
        } else {
            VM_CHECK(c, log.overflow_reports > 0 || log.failures > 0, "overflow-not-reported", "init(2^%u) failed without a report", bit);
            VM_CHECK(c, log.max_request == 0 || log.max_request >= (unsigned __int128)cap * kPayload, "under-allocated", "init(2^%u) asked for %" PRIu64 " bytes", bit, log.max_request);
            VM_CHECK(c, t.elements() == 0, "elements", "elements()=%zu", t.elements());
            VM_COUNT("overflow_reports", log.overflow_reports);
        }
        if (!fits64) {
            VM_CHECK(c, !ok, "overflow-accepted", "init(2^%u) succeeded", bit);
            VM_CHECK(c, log.overflow_reports == 1, "overflow-not-reported", "init(2^%u) made %" PRIu64 " overflow reports", bit, log.overflow_reports);
        }
        if (!ok && (c.index & 1)) {
            VM_CHECK(c, t.init(16), "init-retry", "init(16) fails after an overflow");
            VM_CHECK(c, A::insert(t, 1, 1, 0, false) == kAdded, "add", "add failed");
        }
    }
    VM_CHECK(c, log.blocks == 0, "block-leak", "blocks left");
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(map_sizes, 120, 120, 0) { init_sizes<MapAdapter<uint32_t, uint32_t, LogPolicy>, 8>(c); }
SCENARIO(set_sizes, 120, 120, 0) { init_sizes<SetAdapter<uint32_t, LogPolicy>, 4>(c); }
SCENARIO(table_big_sizes, 120, 120, 0) { init_sizes<TableAdapter<uint32_t, vm::BigObj, LogPolicy>, sizeof(vm::BigObj)>(c); }

// Payloads so large that growth itself leaves the representable range. Memory is reserved, never
// touched.
template <size_t kMega>
struct Huge {
    int v;
    char pad[kMega * 1024 * 1024];
    Huge() : v(0) {}
    Huge(int x) : v(x) {}
    Huge(Huge&& o) : v(o.v) {}
};
static AllocLog* g_map_log;
struct MapPolicy {
    void reportOutOfMemory() { g_map_log->oom_reports++; }
    void reportAllocationOverflow() { g_map_log->overflow_reports++; }
    void* am_malloc(size_t n) {
        g_map_log->mallocs++;
        g_map_log->max_request = n > g_map_log->max_request ? n : g_map_log->max_request;
        if (n > (9ull << 30)) {
            g_map_log->failures++;
            return nullptr;
        }
        size_t* p = (size_t*)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            g_map_log->failures++;
            return nullptr;
        }
        p[0] = n + 4096;
        g_map_log->blocks++;
        return (char*)p + 4096;
    }
    void am_free(void* q) {
        if (!q)
            return;
        size_t* p = (size_t*)((char*)q - 4096);
        munmap(p, p[0]);
        g_map_log->blocks--;
    }
};
template <size_t kMega>
struct HugePolicy {
    typedef Huge<kMega> Payload;
    static uint32_t hash(int k) { return hash_id((uint32_t)k); }
    static bool matches(int k, const Payload& p) { return k == p.v; }
};
template <size_t kMega>
static void huge_growth(vm::Case& c) {
    AllocLog log;
    g_map_log = &log;
    g_mode = c.index & 1 ? kHashExact : kHashMix;
    {
        typedef ke::HashTable<HugePolicy<kMega>, MapPolicy> Table;
        Table* t = new Table();
        int stored = 0;
        bool ok = t->init(0);
        VM_CHECK(c, ok || log.overflow_reports + log.failures > 0, "overflow-not-reported", "init() failed without a report");
        if (ok) {
            VM_CHECK(c, log.max_request >= 16 * sizeof(Huge<kMega>), "under-allocated", "init() asked for %" PRIu64 " bytes", log.max_request);
            for (int i = 1; i <= 140; i++) {
                auto ins = t->findForAdd(i);
                VM_CHECK(c, !ins.found(), "lookup", "absent key found");
                uint64_t rep = log.overflow_reports + log.failures;
                if (!t->add(ins, i)) {
                    VM_CHECK(c, log.overflow_reports + log.failures > rep, "overflow-not-reported", "add failed without a report at %d entries", stored);
                    c.log("add refused at %d entries, overflow reports=%" PRIu64, stored, log.overflow_reports);
                    VM_COUNT("growth_overflows", log.overflow_reports);
                    break;
                }
                stored++;
                VM_CHECK(c, log.max_request / sizeof(Huge<kMega>) >= (size_t)stored + 1, "under-allocated", "%d entries in a block of %" PRIu64 " bytes", stored, log.max_request);
            }
            VM_CHECK(c, t->elements() == (size_t)stored, "elements", "elements()=%zu, stored %d", t->elements(), stored);
            for (int i = 1; i <= stored; i++)
                VM_CHECK(c, t->find(i).found() && t->find(i)->v == i, "lookup", "key %d lost", i);
            int seen = 0;
            for (typename Table::iterator it(t); !it.empty(); it.next())
                seen++;
            VM_CHECK(c, seen == stored, "iter-missing", "iteration visits %d of %d", seen, stored);
            for (int i = 1; i <= stored; i += 2)
                t->removeIfExists(i);
            VM_CHECK(c, t->elements() == (size_t)(stored / 2), "elements", "elements()=%zu", t->elements());
        }
        delete t;
    }
    VM_CHECK(c, log.blocks == 0, "block-leak", "blocks left");
    VM_COUNT("huge_payload_cases", 1);
    c.sig(kMega);
    c.nontrivial();
}
SCENARIO(huge_32m, 2, 2, 0) { huge_growth<32>(c); }
SCENARIO(huge_60m, 2, 2, 0) { huge_growth<60>(c); }
SCENARIO(huge_100m, 2, 2, 0) { huge_growth<100>(c); }
SCENARIO(huge_200m, 2, 2, 0) { huge_growth<200>(c); }

// ---------------------------------------------------------------------------------------------
// FixedArray.
typedef ke::FixedArray<Obj, LogPolicy> Arr;
static void check_arr(vm::Case& c, Arr& a, size_t n, int v0, const char* what) {
    VM_CHECK(c, a.initialize(), "array-initialize", "initialize() is false %s although nothing failed", what);
    VM_CHECK(c, a.size() == n, "array-size", "size()=%zu, expected %zu %s", a.size(), n, what);
    for (size_t i = 0; i < n; i++)
        VM_CHECK(c, a[i].get() == (v0 ? v0 + (int)i : 0), "array-value", "element %zu is %d %s", i, a[i].get(), what);
}
// Arrays made from vectors take a default-constructed policy.
static AllocLog* g_default_log;
struct DefaultLogPolicy : LogPolicy {
    DefaultLogPolicy() : LogPolicy(g_default_log, 9) {}
};
SCENARIO(array_from_vector_faults, 600, 6000, 0) {
    typedef ke::FixedArray<Obj, DefaultLogPolicy> A;
    AllocLog log;
    g_default_log = &log;
    int64_t live0 = vm::L.live;
    {
        size_t n = (size_t)c.rng.below(20);
        std::vector<Obj> v;
        for (size_t i = 0; i < n; i++)
            v.emplace_back(10 + (int)i);
        int64_t held = vm::L.live;
        bool fail = c.rng.coin(), moved = c.rng.coin();
        c.log("n=%zu fail=%d moved=%d", n, fail, moved);
        c.sig(n * 4 + fail * 2 + moved);
        if (fail)
            log.fail_in = 0;
        A a = moved ? A(std::move(v)) : A(v);
        if (log.failures) {
            VM_CHECK(c, a.initialize() == (n == 0), "array-initialize", "initialize() is %d after the allocation of %zu elements failed", a.initialize(), n);
            VM_CHECK(c, moved ? vm::L.live <= held : vm::L.live == held, "payload-count", "elements exist in an array that was not allocated");
            for (size_t i = 0; !moved && i < v.size(); i++)
                VM_CHECK(c, v.size() == n && v[i].get() == 10 + (int)i, "array-value", "the source of a failed conversion changed");
            VM_COUNT("array_vector_failures", 1);
            if (c.rng.coin()) {
                log.fail_in = -1;
                A b(v);
                a = b;
                VM_CHECK(c, a.initialize() && a == b, "array-value", "assignment to a failed array");
            }
        } else {
            VM_CHECK(c, a.initialize() && a.size() == n, "array-size", "the array has %zu elements, expected %zu", a.size(), n);
            for (size_t i = 0; i < n; i++) {
                VM_CHECK(c, a[i].get() == 10 + (int)i, "array-value", "element %zu is %d after conversion", i, a[i].get());
                VM_CHECK(c, moved || v[i].get() == 10 + (int)i, "array-value", "the source of a copy changed");
            }
        }
        log.fail_in = -1;
    }
    VM_CHECK(c, vm::L.live == live0, "payload-count", "%lld elements were not destroyed", (long long)(vm::L.live - live0));
    VM_CHECK(c, log.bytes == 0, "array-leak", "%zu bytes are not freed", (size_t)log.bytes);
    c.nontrivial();
}
SCENARIO(array_faults, 3000, 60000, 0) {
    AllocLog log;
    int64_t live0 = vm::L.live;
    {
        size_t n = (size_t)c.rng.below(40), m = c.rng.chance(1, 3) ? n : (size_t)c.rng.below(40);
        unsigned what = (unsigned)c.rng.below(8);
        bool fail1 = what < 4;
        c.log("n=%zu m=%zu what=%u", n, m, what);
        if (fail1)
            log.fail_in = 0;
        Arr a(n, LogPolicy(&log, 3));
        VM_CHECK(c, log.mallocs > 0 || n == 0, "policy-used", "the array did not allocate from the policy supplied");
        if (fail1 && log.failures) {
            VM_CHECK(c, a.initialize() == (n == 0), "array-initialize", "initialize() is %d after the allocation of %zu elements failed", a.initialize(), n);
            VM_CHECK(c, vm::L.live == live0, "payload-count", "elements exist in an array that was not allocated");
            VM_COUNT("array_alloc_failures", 1);
        } else {
            check_arr(c, a, n, 0, "after construction");
        }
        log.fail_in = -1;
        Arr b(m, LogPolicy(&log, 4));
        check_arr(c, b, m, 0, "after construction");
        for (size_t i = 0; i < m; i++)
            b[i] = Obj(10 + (int)i);
        switch (what) {
            case 0:  // destroy the failed one
                break;
            case 1:  // a failed array can be assigned to
                a = b;
                check_arr(c, a, m, m ? 10 : 0, "after assignment to a failed array");
                break;
            case 2:
                a = std::move(b);
                check_arr(c, a, m, m ? 10 : 0, "after move assignment to a failed array");
                VM_CHECK(c, b.size() == 0, "array-moved", "the source of a move has %zu elements", b.size());
                break;
            case 3: {  // a failed array as a source
                Arr d(std::move(a));
                VM_CHECK(c, !d.initialize() || d.size() == 0, "array-initialize", "an array moved from a failed one claims %zu elements", d.size());
                break;
            }
            case 4:  // assignment fails
                if (n != m) {
                    log.fail_in = 0;
                    a = b;
                    if (log.failures) {
                        VM_CHECK(c, !a.initialize() || (a.size() == 0 && m == 0), "array-initialize", "initialize() is true after a failed assignment of %zu elements", m);
                        VM_COUNT("array_assign_failures", 1);
                    }
                    log.fail_in = -1;
                    check_arr(c, b, m, m ? 10 : 0, "as the source of a failed assignment");
                    a = b;
                    check_arr(c, a, m, m ? 10 : 0, "after the retry of a failed assignment");
                }
                break;
            case 5: {  // copy construction fails
                log.fail_in = 0;
                Arr d(b);
                if (log.failures) {
                    VM_CHECK(c, !d.initialize() || m == 0, "array-initialize", "initialize() is true after a failed copy");
                    VM_COUNT("array_copy_failures", 1);
                } else {
                    log.fail_in = -1;
                    check_arr(c, d, m, m ? 10 : 0, "after copy");
                }
                log.fail_in = -1;
                if (m && c.rng.coin()) {
                    d = b;
                    check_arr(c, d, m, 10, "after the retry of a failed copy");
                }
                break;
            }
            case 6: {  // moves never allocate
                uint64_t k = log.mallocs;
                log.fail_in = 0;
                Arr d(std::move(b));
                check_arr(c, d, m, m ? 10 : 0, "after move");
                a = std::move(d);
                check_arr(c, a, m, m ? 10 : 0, "after move assignment");
                VM_CHECK(c, log.mallocs == k, "array-move-allocates", "a move allocates");
                break;
            }
            default: {  // copy of a failed array
                log.fail_in = 0;
                Arr d(5, LogPolicy(&log, 6));
                log.fail_in = -1;
                Arr e(d);
                VM_CHECK(c, !e.initialize() || e.size() == 0, "array-initialize", "a copy of a failed array claims %zu elements", e.size());
                b = d;
                VM_CHECK(c, !b.initialize() || b.size() == 0, "array-initialize", "assignment from a failed array yields %zu elements", b.size());
            }
        }
        c.sig(what);
        c.sig(n);
        c.sig(m);
    }
    VM_CHECK(c, vm::L.live == live0, "payload-leak", "%" PRId64 " elements left", vm::L.live - live0);
    VM_CHECK(c, log.blocks == 0, "block-leak", "%" PRId64 " blocks left", log.blocks);
    c.nontrivial();
}
template <typename T>
static void array_sizes(vm::Case& c) {
    AllocLog log;
    log.refuse_huge = true;
    size_t n;
    switch (c.rng.below(7)) {
        case 5: case 6: {
            // Anything that wraps; the product, reduced, can be larger than the count.
            unsigned __int128 k = 1 + c.rng.below(sizeof(T) > 1 ? sizeof(T) - 1 : 1);
            uint64_t low = c.rng.next() >> c.rng.below(60);
            n = (size_t)((((k << 64) | low) + sizeof(T) - 1) / sizeof(T));
            break;
        }
        case 0: n = SIZE_MAX / sizeof(T) + 1 + c.rng.below(100); break;  // wraps to a small size
        case 1: n = SIZE_MAX - c.rng.below(4); break;
        case 2: n = (size_t)1 << c.rng.range(40, 63); break;
        case 3: n = ((size_t)1 << c.rng.range(58, 63)) + c.rng.below(8); break;
        default: n = SIZE_MAX / sizeof(T) - c.rng.below(3); break;
    }
    bool wraps = n > SIZE_MAX / sizeof(T);
    {
        ke::FixedArray<T, LogPolicy> a(n, LogPolicy(&log, 1));
        c.log("FixedArray(%zu x %zu bytes) init=%d overflow=%" PRIu64 " request=%" PRIu64, n, sizeof(T), a.initialize(), log.overflow_reports, log.max_request);
        VM_CHECK(c, !a.initialize(), "array-overflow-accepted", "an array of %zu x %zu bytes claims to be initialised", n, sizeof(T));
        VM_CHECK(c, log.max_request == 0 || (!wraps && log.max_request >= n * sizeof(T)), "under-allocated",
                 "an array of %zu x %zu bytes asks for %" PRIu64 " bytes", n, sizeof(T), log.max_request);
        if (wraps && n * sizeof(T) >= n)
            VM_COUNT("array_overflows_above_the_count", 1);
        if (wraps)
            VM_CHECK(c, log.overflow_reports > 0, "overflow-not-reported", "the overflow of %zu x %zu bytes was not reported", n, sizeof(T));
        VM_COUNT("array_overflows", wraps);
    }
    VM_CHECK(c, log.blocks == 0, "block-leak", "blocks left");
    c.sig(n);
    c.nontrivial();
}
SCENARIO(array_sizes_obj, 300, 3000, 0) { array_sizes<Obj>(c); }
SCENARIO(array_sizes_int, 300, 3000, 0) { array_sizes<int>(c); }
struct Three { char x[3]; };
struct Forty { uint64_t x[5]; };
SCENARIO(array_sizes_3, 300, 3000, 0) { array_sizes<Three>(c); }
SCENARIO(array_sizes_40, 300, 3000, 0) { array_sizes<Forty>(c); }
SCENARIO(array_sizes_24, 300, 3000, 0) { array_sizes<std::string>(c); }

// ---------------------------------------------------------------------------------------------
// The default policy aborts instead of returning null; so do containers that use it.
SCENARIO(default_policy, 40, 40, vm::kNoLeakCheck) {
    ke::SystemAllocatorPolicy ap;
    for (int i = 0; i < 50; i++) {
        size_t n = (size_t)c.rng.below(1 + (1u << c.rng.below(16)));
        void* p = ap.am_malloc(n);
        VM_CHECK(c, p, "default-null", "am_malloc(%zu) returned null", n);
        memset(p, 1, n);
        ap.am_free(p);
    }
    ap.am_free(nullptr);
    auto died = [&](const char* what, int st) {
        VM_COUNT("abort_children", 1);
        VM_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "default-no-abort", "%s does not abort (wait status %x)", what, st);
    };
    switch (c.index % 8) {
        case 0: died("am_malloc(2^62)", vm::in_child([&] { void* volatile p = ap.am_malloc((size_t)1 << 62); _exit(p ? 1 : 2); })); break;
        case 1: died("am_malloc(2^63-1)", vm::in_child([&] { void* volatile p = ap.am_malloc(((size_t)1 << 63) - 1); _exit(p ? 1 : 2); })); break;
        case 2: died("reportOutOfMemory", vm::in_child([&] { ap.reportOutOfMemory(); })); break;
        case 3: died("reportAllocationOverflow", vm::in_child([&] { ap.reportAllocationOverflow(); })); break;
        case 4: died("HashMap::init(2^40)", vm::in_child([&] {
                    ke::HashMap<uint32_t, uint32_t, HPol<uint32_t>> m;
                    _exit(m.init((size_t)1 << 40) ? 1 : 2);
                })); break;
        case 5: died("FixedArray of 2^61 ints", vm::in_child([&] {
                    ke::FixedArray<int> a((size_t)1 << 61);
                    _exit(a.initialize() ? 1 : 2);
                })); break;
        case 6: died("FixedArray of 2^62+1 ints (size wraps)", vm::in_child([&] {
                    ke::FixedArray<int> a(((size_t)1 << 62) + 1);
                    _exit(a.initialize() ? 1 : 2);
                })); break;
        default: died("HashSet::init(2^33)", vm::in_child([&] {
                    ke::HashSet<uint32_t, HPol<uint32_t>> m;
                    _exit(m.init((size_t)1 << 33) ? 1 : 2);
                })); break;
    }
    c.sig(c.index % 8);
    c.nontrivial();
}
