// C07: InlineList over many lists and nodes against vectors.
#include <amtl/am-inlinelist.h>
#include <assert.h>

#include <algorithm>
#include <memory>

#include "vm.h"

struct Other {
    virtual ~Other() {}
    uint64_t guard1 = 0x1111;
};
// The node is not at offset 0, so that a wrong cast shows.
struct Node : public Other, public ke::InlineListNode<Node> {
    uint64_t guard2 = 0x2222;
    int id;
    bool ok() const { return guard1 == 0x1111 && guard2 == 0x2222; }
};
struct Plain : public ke::InlineListNode<Plain> {
    int id;
    bool ok() const { return true; }
};

template <typename N>
struct World {
    typedef ke::InlineList<N> List;
    vm::Case& c;
    static const int kLists = 3;
    std::unique_ptr<List> lists[kLists];
    std::vector<int> model[kLists];
    std::vector<std::unique_ptr<N>> nodes;
    std::vector<int> where;  // list of each node, -1 = in none, -2 = destroyed list (release build)
    explicit World(vm::Case& c_, int n) : c(c_) {
        for (auto& l : lists)
            l.reset(new List());
        for (int i = 0; i < n; i++) {
            nodes.emplace_back(new N());
            nodes.back()->id = i;
            where.push_back(-1);
        }
    }
    ~World() {  // a node outlives the list it is in
        for (auto& l : lists)
            l.reset();
    }
    template <typename It>
    void step(It& it, bool postfix, const char* what) {
        N* at = *it;
        if (postfix) {
            It old = it++;
            VM_CHECK(c, *old == at && old != it, "postfix", "it++ does not return the position left, after %s", what);
        } else {
            It& now = ++it;
            VM_CHECK(c, &now == &it, "prefix", "++it does not return the iterator, after %s", what);
        }
    }
    void verify(const char* what) {
        for (int k = 0; k < kLists; k++) {
            List& l = *lists[k];
            const List& cl = l;
            std::vector<int>& m = model[k];
            VM_CHECK(c, cl.empty() == m.empty(), "empty", "empty() is %d with %zu members after %s", cl.empty(), m.size(), what);
            size_t i = 0;
            for (typename List::iterator it = l.begin(); it != l.end(); step(it, i & 1, what), i++) {
                VM_CHECK(c, i < m.size(), "forward", "forward walk is longer than %zu members after %s", m.size(), what);
                VM_CHECK(c, (*it)->id == m[i] && it->id == m[i] && *it == nodes[m[i]].get() && it->ok(), "forward",
                         "forward walk yields node %d at %zu, expected %d, after %s", it->id, i, m[i], what);
                VM_CHECK(c, !(it == l.end()), "iterator-compare", "== and != of iterators agree with each other");
            }
            VM_CHECK(c, i == m.size(), "forward", "forward walk ends after %zu of %zu members after %s", i, m.size(), what);
            i = 0;
            for (typename List::reverse_iterator it = l.rbegin(); it != l.rend(); step(it, i & 1, what), i++) {
                VM_CHECK(c, i < m.size(), "backward", "backward walk is longer than %zu members after %s", m.size(), what);
                int want = m[m.size() - 1 - i];
                VM_CHECK(c, (*it)->id == want && it->id == want && *it == nodes[want].get(), "backward",
                         "backward walk yields node %d at %zu, expected %d, after %s", it->id, i, want, what);
                VM_CHECK(c, !(it == l.rend()), "iterator-compare", "== and != of iterators agree with each other");
            }
            VM_CHECK(c, i == m.size(), "backward", "backward walk ends after %zu of %zu members after %s", i, m.size(), what);
            VM_CHECK(c, cl.length() == m.size(), "length", "length() is %zu with %zu members after %s", cl.length(), m.size(), what);
            i = 0;
            for (N* n : l)
                VM_CHECK(c, n->id == m[i++], "forward", "range-for differs after %s", what);
        }
        for (size_t i = 0; i < nodes.size(); i++) {
            if (where[i] == -2)
                continue;
            VM_CHECK(c, nodes[i]->isInList() == (where[i] >= 0), "is-in-list", "isInList() of node %zu is %d after %s (it is in list %d)", i,
                     nodes[i]->isInList(), what, where[i]);
        }
        VM_COUNT("verifications", 1);
    }
    void unlink(int id) {
        auto& m = model[where[id]];
        m.erase(std::find(m.begin(), m.end(), id));
        where[id] = -1;
    }
    void append(int k, int id) {
        lists[k]->append(nodes[id].get());
        model[k].push_back(id);
        where[id] = k;
        VM_COUNT("appends", 1);
    }
    void fresh(int id) {  // replaces a node that is in no list by a new one
        nodes[id].reset(new N());
        nodes[id]->id = id;
        where[id] = -1;
    }
    template <typename It>
    void erase_at(int k, It it, It end, bool forward, int pos) {
        auto& m = model[k];
        for (int i = 0; i < pos; i++)
            ++it;
        int id = it->id;
        size_t at = std::find(m.begin(), m.end(), id) - m.begin();
        It next = lists[k]->erase(it);
        m.erase(m.begin() + at);
        where[id] = -1;
        if (forward) {
            bool last = at == m.size();
            VM_CHECK(c, (next == end) == last, "erase-next", "erase returns %s the end", last ? "something before" : "");
            if (!last)
                VM_CHECK(c, next->id == m[at], "erase-next", "erase returns node %d, expected %d", next->id, m[at]);
        } else {
            bool last = at == 0;
            VM_CHECK(c, (next == end) == last, "erase-next", "reverse erase returns %s the end", last ? "something before" : "");
            if (!last)
                VM_CHECK(c, next->id == m[at - 1], "erase-next", "reverse erase returns node %d, expected %d", next->id, m[at - 1]);
        }
        VM_COUNT("erasures", 1);
    }
    template <typename It>
    void erase_if(int k, It it, It end, uint64_t mask) {
        std::vector<int> keep;
        for (int id : model[k])
            if (!(mask >> id & 1))
                keep.push_back(id);
        size_t visited = 0, n = model[k].size();
        while (it != end) {
            int id = it->id;
            VM_CHECK(c, ++visited <= n, "erase-loop", "erasing while iterating visits more nodes than there are");
            if (mask >> id & 1) {
                it = lists[k]->erase(it);
                where[id] = -1;
            } else {
                it++;
            }
        }
        VM_CHECK(c, visited == n, "erase-loop", "erasing while iterating visits %zu of %zu nodes", visited, n);
        model[k] = keep;
        VM_COUNT("erase_loops", 1);
    }
    void step() {
        int k = (int)c.rng.below(kLists);
        int id = (int)c.rng.below(nodes.size());
        unsigned op = (unsigned)c.rng.below(16);
        const char* what = "nothing";
        if (op < 6) {
            if (where[id] == -2)
                fresh(id);
            if (where[id] == -1) {
                what = "append";
                append(k, id);
            }
        } else if (op < 8) {
            if (where[id] >= 0) {
                what = "remove";
                lists[where[id]]->remove(nodes[id].get());
                unlink(id);
                if (c.rng.chance(1, 3))
                    fresh(id);  // the removed node's memory goes away
                VM_COUNT("removes", 1);
            }
        } else if (op < 10) {
            if (where[id] >= 0) {
                what = "removeFromParentList";
                nodes[id]->removeFromParentList();
                unlink(id);
                if (c.rng.chance(1, 3))
                    fresh(id);
                VM_COUNT("parent_removals", 1);
            }
        } else if (op < 12) {
            if (!model[k].empty()) {
                int pos = (int)c.rng.below(model[k].size());
                if (c.rng.coin()) {
                    what = "erase";
                    erase_at(k, lists[k]->begin(), lists[k]->end(), true, pos);
                } else {
                    what = "reverse erase";
                    erase_at(k, lists[k]->rbegin(), lists[k]->rend(), false, pos);
                }
            }
        } else if (op == 12) {
            what = "erase loop";
            erase_if(k, lists[k]->begin(), lists[k]->end(), c.rng.next());
        } else if (op == 13) {
            what = "reverse erase loop";
            erase_if(k, lists[k]->rbegin(), lists[k]->rend(), c.rng.next());
        } else if (op == 14) {
            what = "move to another list";
            if (where[id] >= 0 && where[id] != k) {
                if (c.rng.coin())
                    lists[where[id]]->remove(nodes[id].get());
                else
                    nodes[id]->removeFromParentList();
                unlink(id);
                append(k, id);
            }
        } else {
            if (c.rng.chance(1, 4)) {
                what = "destroy list";
                lists[k].reset(new List());
#if defined(NDEBUG)
                // Nodes need not be removed before their list dies; here they are not reused.
                for (int i : model[k])
                    where[i] = -2;
#else
                for (int i : model[k])
                    where[i] = -1;
#endif
                model[k].clear();
                VM_COUNT("list_destructions", 1);
            }
        }
        c.log("%s k=%d id=%d", what, k, id);
        c.sig(op * 64 + id * 4 + k);
        verify(what);
    }
};
template <typename N>
static void history(vm::Case& c) {
    World<N> w(c, (int)c.rng.range(1, 14));
    w.verify("construction");
    int steps = (int)c.rng.range(5, 250);
    for (int i = 0; i < steps; i++)
        w.step();
    c.nontrivial();
    VM_COUNT("steps", steps);
}
SCENARIO(hist_node, 1500, 60000, 0) { history<Node>(c); }
SCENARIO(hist_plain, 1500, 60000, 0) { history<Plain>(c); }

// All orders of removing the members of lists of up to four nodes, by each means.
SCENARIO(enumerate, 4 * 256 * 24, 4 * 256 * 24, 0) {
    int n = 1 + (int)(c.index % 4);
    uint64_t x = c.index / 4;
    unsigned means = (unsigned)(x % 256);
    uint64_t perm = x / 256;
    World<Node> w(c, n);
    for (int i = 0; i < n; i++)
        w.append(0, i);
    w.verify("append");
    std::vector<int> left;
    for (int i = 0; i < n; i++)
        left.push_back(i);
    for (int i = n; i > 0; i--) {
        int at = (int)(perm % i);
        perm /= i;
        int id = left[at];
        left.erase(left.begin() + at);
        int pos = (int)(std::find(w.model[0].begin(), w.model[0].end(), id) - w.model[0].begin());
        switch (means & 3) {
            case 0: w.lists[0]->remove(w.nodes[id].get()); w.unlink(id); break;
            case 1: w.nodes[id]->removeFromParentList(); w.unlink(id); break;
            case 2: w.erase_at(0, w.lists[0]->begin(), w.lists[0]->end(), true, pos); break;
            default: w.erase_at(0, w.lists[0]->rbegin(), w.lists[0]->rend(), false, (int)w.model[0].size() - 1 - pos); break;
        }
        means >>= 2;
        w.verify("removal");
        w.append(1, id);
        w.verify("append to another list");
    }
    c.sig(c.index);
    c.nontrivial();
}
// Nodes outlive their list, and the list outlives its removed nodes.
SCENARIO(lifetimes, 200, 2000, 0) {
    std::vector<std::unique_ptr<Node>> nodes;
    int n = (int)c.rng.range(0, 30);
    {
        ke::InlineList<Node> l;
        for (int i = 0; i < n; i++) {
            nodes.emplace_back(new Node());
            nodes.back()->id = i;
            VM_CHECK(c, !nodes.back()->isInList(), "is-in-list", "a new node is in a list");
            l.append(nodes.back().get());
        }
        size_t left = (size_t)n;
        for (int i = 0; i < n; i++) {
            if (c.rng.coin()) {
                if (c.rng.coin())
                    l.remove(nodes[i].get());
                else
                    nodes[i]->removeFromParentList();
                VM_CHECK(c, !nodes[i]->isInList(), "is-in-list", "a removed node is in a list");
                nodes[i].reset();
                left--;
            }
        }
        size_t k = 0;
        int last = -1;
        for (Node* x : l) {
            VM_CHECK(c, x->id > last, "forward", "order lost");
            last = x->id;
            k++;
        }
        VM_CHECK(c, k == left && l.length() == left, "length", "%zu walked, length()=%zu, expected %zu", k, l.length(), left);
        c.sig(left);
    }
    for (auto& x : nodes) {
        if (x)
            VM_CHECK(c, x->ok(), "node-overwritten", "a node was overwritten");
    }
    nodes.clear();
    c.sig(n);
    c.nontrivial();
}

// Long lists: more nodes than 16 bits count.
SCENARIO(long_lists, 3, 30, 0) {
    size_t n = (size_t)c.rng.range(66000, 140000);
    std::vector<Plain> nodes(n);
    std::vector<char> in(n, 1);
    {
        ke::InlineList<Plain> l, away;
        for (size_t i = 0; i < n; i++) {
            nodes[i].id = (int)i;
            l.append(&nodes[i]);
            if ((i & 0x1fff) == 0 || (i > 65530 && i < 65540))
                VM_CHECK(c, l.length() == i + 1, "length", "length() is %zu after appending %zu nodes", l.length(), i + 1);
        }
        size_t left = n;
        auto walk = [&](const char* what) {
            size_t k = 0, at = 0;
            for (Plain* x : l) {
                while (at < n && in[at] != 1)
                    at++;
                VM_CHECK(c, at < n && x == &nodes[at], "forward", "wrong node at position %zu after %s", k, what);
                at++;
                k++;
            }
            VM_CHECK(c, k == left && l.length() == left && !l.empty(), "length", "%zu walked, length()=%zu, expected %zu after %s", k, l.length(), left, what);
            k = 0;
            at = n;
            for (auto it = l.rbegin(); it != l.rend(); it++) {
                do
                    at--;
                while (in[at] != 1);
                VM_CHECK(c, *it == &nodes[at], "backward", "wrong node at reverse position %zu after %s", k, what);
                k++;
            }
            VM_CHECK(c, k == left, "backward", "%zu walked backward, expected %zu", k, left);
        };
        walk("appending");
        for (size_t i = 0; i < n; i++) {
            if (!c.rng.chance(1, 4))
                continue;
            l.remove(&nodes[i]);
            in[i] = 0;
            left--;
            if (c.rng.coin()) {
                away.append(&nodes[i]);
                in[i] = 2;
            }
        }
        walk("removal");
        for (auto it = l.begin(); it != l.end();) {
            if (c.rng.chance(1, 3)) {
                in[(*it)->id] = 0;
                it = l.erase(it);
                left--;
            } else {
                it++;
            }
        }
        walk("erase");
    }
    VM_COUNT("long_list_nodes", n);
    c.sig(n);
    c.nontrivial();
}
