// C06: PriorityQueue against a model.
#include <amtl/am-priority-queue.h>

#include <map>
#include <memory>
#include <set>

#include "vm.h"
using vm::BigObj;
using vm::MoveObj;
using vm::Obj;

// An item is a number; its rank under the comparator decides its priority.
struct Ranks {
    uint32_t mod = 1 << 30, mul = 1;
    bool reverse = false;
    uint64_t calls = 0;
    uint32_t rank(int id) const {
        uint32_t r = (uint32_t)id * mul % mod;
        return reverse ? 0xFFFFFFFFu - r : r;
    }
};
template <typename T>
struct Id {
    static int get(const T& t) { return t.get(); }
    static T make(int v) { return T(v); }
};
template <>
struct Id<int> {
    static int get(int t) { return t; }
    static int make(int v) { return v; }
};
template <>
struct Id<std::unique_ptr<int>> {
    static int get(const std::unique_ptr<int>& t) {
        if (!t)
            vm::fail("compared-moved-from", "the comparator or caller is given a moved-from item");
        return *t;
    }
    static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); }
};
template <>
struct Id<std::string> {
    static int get(const std::string& t) {
        if (t.size() < 20)
            vm::fail("compared-moved-from", "the comparator or caller is given a moved-from item");
        return atoi(t.c_str() + 16) - 1000000;
    }
    static std::string make(int v) { return "an item, number " + std::to_string(1000000 + v); }
};
struct ByRank {  // stateful comparator
    Ranks* r;
    explicit ByRank(Ranks* r_ = nullptr) : r(r_) {}
    template <typename T>
    bool operator()(const T& a, const T& b) const {
        if (!r)
            vm::fail("comparator-lost", "a comparator other than the one given is called");
        r->calls++;
        return r->rank(Id<T>::get(a)) < r->rank(Id<T>::get(b));
    }
};

// Lvalues, which must come out as they were.
template <typename T, typename Q>
static typename std::enable_if<std::is_copy_constructible<T>::value>::type add_lvalue(Q& q, int id, bool emplace) {
    T t = Id<T>::make(id);
    if (emplace)
        q.emplace(t);
    else
        q.add(t);
    if (Id<T>::get(t) != id)
        vm::fail("lvalue-changed", "%s() changes the lvalue it is given (%d)", emplace ? "emplace" : "add", id);
    VM_COUNT("lvalues_added", 1);
}
template <typename T, typename Q>
static typename std::enable_if<!std::is_copy_constructible<T>::value>::type add_lvalue(Q& q, int id, bool emplace) {
    if (emplace)
        q.emplace(Id<T>::make(id));
    else
        q.add(Id<T>::make(id));
}
template <typename T>
struct Fuzz {
    typedef ke::PriorityQueue<T, ByRank> Q;
    vm::Case& c;
    Ranks ranks;
    std::unique_ptr<Q> q;
    std::map<uint32_t, std::multiset<int>> model;  // rank -> ids
    size_t n = 0;
    int next_id = 0;
    uint64_t pops = 0, ties = 0;
    size_t peak = 0;
    explicit Fuzz(vm::Case& c_) : c(c_) {}
    uint32_t rank(int id) {
        return ranks.rank(id);
    }
    int idof(const T& t) { return Id<T>::get(t); }
    void start() {
        switch (c.rng.below(5)) {
            case 0: break;
            case 1: ranks.reverse = true; break;
            case 2: ranks.mod = 1 + (uint32_t)c.rng.below(4); break;  // many ties
            case 3: ranks.mod = 1009; ranks.mul = 7919; break;
            default: ranks.mod = 97; ranks.mul = 31; ranks.reverse = true; break;
        }
        q.reset(new Q(ByRank(&ranks)));
    }
    void add(int id, unsigned how) {
        switch (how) {
            case 0: q->add(Id<T>::make(id)); break;
            case 1: {
                T t = Id<T>::make(id);
                q->add(std::move(t));
                break;
            }
            case 2: q->emplace(Id<T>::make(id)); break;
            default: add_lvalue<T>(*q, id, how & 1); break;
        }
        model[rank(id)].insert(id);
        n++;
        if (n > peak)
            peak = n;
        VM_COUNT("adds", 1);
    }
    void peek() {
        const Q& cq = *q;
        const T& t = cq.peek();
        int id = idof(t);
        auto top = model.begin();
        VM_CHECK(c, top->second.count(id), "peek", "peek() shows item %d of rank %u; best rank queued is %u (%zu queued)", id, rank(id), top->first, n);
    }
    int pop() {
        T t = q->pop();
        int id = idof(t);
        auto top = model.begin();
        auto it = top->second.find(id);
        if (it == top->second.end()) {
            auto m = model.find(rank(id));
            bool queued = m != model.end() && m->second.count(id);
            VM_CHECK(c, queued, "pop-not-queued", "pop() returns item %d, which is not queued (%zu queued)", id, n);
            VM_CHECK(c, false, "pop-order", "pop() returns item %d of rank %u; rank %u is queued (%zu queued)", id, rank(id), top->first, n);
        }
        if (top->second.size() > 1)
            ties++;
        top->second.erase(it);
        if (top->second.empty())
            model.erase(top);
        n--;
        pops++;
        VM_COUNT("pops", 1);
        return id;
    }
    void empty() {
        const Q& cq = *q;
        VM_CHECK(c, cq.empty() == (n == 0), "empty", "empty() is %d with %zu items queued", cq.empty(), n);
    }
    void move() {
        std::unique_ptr<Q> m(new Q(std::move(*q)));
        q.reset();
        q = std::move(m);
        VM_COUNT("moves", 1);
    }
    void live(int64_t base) {
        if (std::is_same<T, Obj>::value || std::is_same<T, MoveObj>::value)
            VM_CHECK(c, vm::L.live - base == (int64_t)n, "payload-count", "%" PRId64 " items live, %zu queued", vm::L.live - base, n);
    }
};
template <typename T>
static void history(vm::Case& c) {
    int64_t base = vm::L.live;
    {
        Fuzz<T> f(c);
        f.start();
        int steps = (int)c.rng.range(10, 400);
        int bias = 50;
        for (int i = 0; i < steps; i++) {
            if (i % 50 == 0)
                bias = (int)c.rng.range(20, 85);
            unsigned r = (unsigned)c.rng.below(100);
            f.empty();
            if (f.n == 0 || (int)r < bias) {
                int id = c.rng.chance(1, 5) ? (int)c.rng.below(20) : c.rng.coin() ? f.next_id++ : (int)c.rng.below(100000);
                c.log("add %d", id);
                f.add(id, (unsigned)c.rng.below(5));
                c.sig((uint64_t)id);
            } else {
                f.peek();
                int id = f.pop();
                c.log("pop %d", id);
                c.sig(~(uint64_t)id);
            }
            if (f.n)
                f.peek();
            if (c.rng.chance(1, 60))
                f.move();
            f.live(base);
        }
        bool drain = c.rng.chance(3, 4);
        while (drain && f.n) {
            f.pop();
            f.empty();
            f.live(base);
        }
        VM_COUNT("ties_popped", f.ties);
        if (f.peak >= 4)
            c.nontrivial();
    }
    VM_CHECK(c, vm::L.live == base, "payload-leak", "%" PRId64 " items left", vm::L.live - base);
}
SCENARIO(q_int, 1500, 60000, 0) { history<int>(c); }
SCENARIO(q_string, 700, 30000, 0) { history<std::string>(c); }
SCENARIO(q_obj, 700, 30000, 0) { history<Obj>(c); }
SCENARIO(q_move, 700, 30000, 0) { history<MoveObj>(c); }
SCENARIO(q_unique_ptr, 700, 30000, 0) { history<std::unique_ptr<int>>(c); }
SCENARIO(q_big, 300, 10000, 0) { history<BigObj>(c); }

// Deep heaps.
SCENARIO(deep, 16, 200, 0) {
    Fuzz<int> f(c);
    f.start();
    // More items than 16 bits count, in some.
    int n = (int)(c.index % 8 == 7 ? c.rng.range(200000, 300000) : c.index % 8 == 3 ? c.rng.range(70000, 140000) : c.rng.range(3000, 30000));
    for (int i = 0; i < n; i++) {
        f.add((int)c.rng.below(1u << 30), 0);
        if (f.n > 65536)
            VM_COUNT("adds_beyond_64k", 1);
        if (c.rng.chance(1, c.index % 4 == 3 ? 20 : 3))
            f.pop();
        if (f.n)
            f.peek();
    }
    while (f.n) {
        f.peek();
        f.pop();
    }
    f.empty();
    c.log("n=%d ties=%" PRIu64, n, f.ties);
    c.sig(n);
    c.nontrivial();
    VM_COUNT("deep_items", n);
}
// Every sequence of up to 8 priorities over three levels (with ties), added and then drained, and
// every interleaving pattern of ten add/pop steps for a few priority orders.
SCENARIO(enumerate_adds, 6561, 6561, 0) {
    Fuzz<int> f(c);
    f.ranks.mod = 3;
    f.q.reset(new Fuzz<int>::Q(ByRank(&f.ranks)));
    uint64_t x = c.index;
    for (int i = 0; i < 8; i++, x /= 3) {
        f.add((int)(x % 3) + 3 * i, (unsigned)(i % 3));
        f.peek();
    }
    while (f.n) {
        f.pop();
        f.empty();
    }
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(enumerate_permutations, 5040, 40320, 0) {
    Fuzz<MoveObj> f(c);
    f.q.reset(new Fuzz<MoveObj>::Q(ByRank(&f.ranks)));
    int m = c.thorough() ? 8 : 7;
    std::vector<int> items;
    for (int i = 0; i < m; i++)
        items.push_back(i);
    uint64_t x = c.index;
    for (int i = m; i > 0; i--) {
        int k = (int)(x % i);
        x /= i;
        f.add(items[k], 0);
        items.erase(items.begin() + k);
        f.peek();
    }
    int last = -1;
    while (f.n) {
        int id = f.pop();
        VM_CHECK(c, id > last, "pop-order", "popped %d after %d", id, last);
        last = id;
    }
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(enumerate_interleavings, 4096, 65536, 0) {
    Fuzz<int> f(c);
    f.start();
    int bits = c.thorough() ? 16 : 12;
    for (int i = 0; i < bits; i++) {
        if ((c.index >> i & 1) || f.n == 0)
            f.add((int)c.rng.below(30), 0);
        else
            f.pop();
        f.empty();
    }
    while (f.n)
        f.pop();
    f.empty();
    c.sig(c.index);
    c.nontrivial();
}
// The default comparator, std::greater, lambdas and function pointers; adding a reference to the
// queue's own element; const lvalues.
static bool by_len(const std::string& a, const std::string& b) { return a.size() < b.size(); }
SCENARIO(comparators, 300, 3000, 0) {
    int n = (int)c.rng.range(1, 60);
    ke::PriorityQueue<int> lo;
    ke::PriorityQueue<int, std::greater<int>> hi;
    auto lambda = [](int a, int b) { return (a & 15) > (b & 15); };
    ke::PriorityQueue<int, decltype(lambda)> lam(lambda);
    ke::PriorityQueue<std::string, bool (*)(const std::string&, const std::string&)> fn(by_len);
    std::vector<int> all;
    for (int i = 0; i < n; i++) {
        int v = (int)c.rng.below(500) - 250;
        const int cv = v;
        lo.add(v);
        hi.add(cv);
        lam.emplace(v);
        fn.emplace((size_t)(v + 250) / 10, 'x');
        all.push_back(v);
    }
    if (n > 2) {
        std::string own = fn.peek();
        fn.add(fn.peek());  // an item of the queue itself
        VM_CHECK(c, fn.peek().size() == own.size(), "add-own", "adding a reference to the top element changed it");
    }
    std::sort(all.begin(), all.end());
    size_t last = 0, cnt = 0;
    ke::PriorityQueue<std::string, bool (*)(const std::string&, const std::string&)> fn2(std::move(fn));
    while (!fn2.empty()) {
        std::string s = fn2.pop();
        VM_CHECK(c, s.size() >= last && s.find_first_not_of('x') == std::string::npos, "pop-order", "length %zu after %zu", s.size(), last);
        last = s.size();
        cnt++;
    }
    VM_CHECK(c, cnt == (size_t)n + (n > 2), "pop-count", "%zu items popped of %d", cnt, n);
    int lastk = 16;
    std::multiset<int> seen;
    for (int i = 0; i < n; i++) {
        VM_CHECK(c, lo.peek() == all[i] && lo.pop() == all[i], "pop-order", "default comparator");
        VM_CHECK(c, hi.peek() == all[n - 1 - i] && hi.pop() == all[n - 1 - i], "pop-order", "std::greater");
        int v = lam.pop();
        VM_CHECK(c, (v & 15) <= lastk, "pop-order", "lambda comparator");
        lastk = v & 15;
        seen.insert(v);
    }
    VM_CHECK(c, lo.empty() && hi.empty() && lam.empty(), "empty", "queues not empty after draining");
    VM_CHECK(c, std::multiset<int>(all.begin(), all.end()) == seen, "pop-count", "items lost or duplicated");
    c.sig(c.rng.next());
    c.nontrivial();
    VM_COUNT("comparator_cases", 1);
}
