// C18: scope helpers over random nestings, moves, cancellations and exits.
#include <amtl/am-raii.h>
#include <assert.h>

#include <functional>
#include <memory>
#include <string>

#include "vm.h"

struct Unwind {
    int level;
};
struct Before {
    virtual ~Before() {}
    uint64_t filler = 0x5a5a;
};
struct Chain : public Before, public ke::StackLinked<Chain> {  // the link is not at the start of the object
    int id;
    Chain(Chain** prevp, int i) : ke::StackLinked<Chain>(prevp), id(i) {}
    Chain* prev() const { return prev_; }
};
struct Loose {  // equality looks at a part of it only
    int key, rest;
    bool operator==(const Loose& o) const { return key == o.key; }
    bool operator!=(const Loose& o) const { return key != o.key; }
};
struct World {
    vm::Case& c;
    int next = 0;
    std::vector<int> stack;       // ids of live, uncancelled guards, innermost last
    std::vector<int> runs;        // how often each guard ran
    Chain* chain[2] = {nullptr, nullptr};
    std::vector<int> chain_model[2];
    int number = 7;
    std::string text = "the initial text, long enough for the heap";
    vm::Obj obj{3};
    double real = -0.0;
    Loose loose{1, 2};
    int* pointer = nullptr;
    explicit World(vm::Case& c_) : c(c_) {}

    int new_guard() {
        runs.push_back(0);
        stack.push_back(next);
        return next++;
    }
    void ran(int id) {
        runs[id]++;
        VM_CHECK(c, runs[id] == 1, "guard-twice", "the callback of guard %d runs a second time", id);
        VM_CHECK(c, !stack.empty() && stack.back() == id, "guard-order", "the callback of guard %d runs out of order or although it is cancelled", id);
        stack.pop_back();
        VM_COUNT("callbacks", 1);
    }
    void check_chain(int k) {
        Chain* p = chain[k];
        for (size_t i = chain_model[k].size(); i > 0; i--) {
            VM_CHECK(c, p && p->id == chain_model[k][i - 1], "chain", "the chain names the wrong object");
            p = p->prev();
        }
        VM_CHECK(c, !p, "chain", "the chain has more objects than live ones");
        VM_COUNT("chain_walks", 1);
    }
    void scope(int depth);
    void body(int depth) {
        int n = (int)c.rng.below(depth > 5 ? 2 : 3);
        for (int i = 0; i < n; i++)
            scope(depth + 1);
        if (c.rng.chance(1, 12) && depth > 0) {
            VM_COUNT("exceptions", 1);
            throw Unwind{(int)c.rng.below((uint64_t)depth)};
        }
    }
    template <typename F>
    void guarded(int depth, F inner) {  // runs inner; lets an exception for an outer level pass
        try {
            inner();
        } catch (Unwind& u) {
            after(depth);
            if (u.level < depth)
                throw;
        }
    }
    void after(int) {
        check_chain(0);
        check_chain(1);
    }
    template <typename G>
    void moves(G g, int left, int depth, bool* cancelled, int id) {  // a guard that moves down the stack
        if (left == 0) {
            if (*cancelled)
                g.cancel();
            body(depth);
            return;
        }
        moves(G(std::move(g)), left - 1, depth, cancelled, id);
        // What was moved from never runs, and cancelling it does nothing.
        g.cancel();
    }
};
void World::scope(int depth) {
    unsigned what = (unsigned)c.rng.below(15);
    c.sig(what * 16 + (unsigned)depth);
    c.log("depth %d kind %u", depth, what);
    size_t before = stack.size();
    switch (what) {
        case 0: case 1: {  // plain
            int id = -1;
            bool reached = false;
            guarded(depth, [&] {
                id = new_guard();
                auto g = ke::MakeScopeGuard([this, id] { ran(id); });
                VM_CHECK(c, runs[id] == 0, "guard-early", "a callback runs before its scope ends");
                body(depth);
                VM_CHECK(c, runs[id] == 0, "guard-early", "a callback runs before its scope ends");
                reached = true;
            });
            VM_CHECK(c, runs[id] == 1, "guard-count", "the callback of guard %d ran %d times", id, runs[id]);
            break;
        }
        case 2: {  // cancelled, at the start or the end
            int id = -1;
            bool early = c.rng.coin(), done = false;
            guarded(depth, [&] {
                id = new_guard();
                auto g = ke::MakeScopeGuard([this, id] { ran(id); });
                if (early) {
                    g.cancel();
                    stack.pop_back();
                    done = true;
                }
                body(depth);
                if (!early) {
                    g.cancel();
                    stack.pop_back();
                    done = true;
                    if (c.rng.coin())
                        g.cancel();
                }
            });
            VM_CHECK(c, runs[id] == (done ? 0 : 1), "guard-cancel", "the callback of a %s guard ran %d times", done ? "cancelled" : "live", runs[id]);
            VM_COUNT("cancelled", done);
            break;
        }
        case 3: case 4: {  // moved down the stack
            int id = -1, n = (int)c.rng.range(1, 4);
            bool cancel = c.rng.chance(1, 3);
            guarded(depth, [&] {
                id = new_guard();
                if (cancel)
                    stack.pop_back();
                moves(ke::MakeScopeGuard([this, id] { ran(id); }), n, depth, &cancel, id);
            });
            VM_CHECK(c, runs[id] == (cancel ? 0 : 1), "guard-move", "the callback of a guard moved %d times ran %d times%s", n, runs[id], cancel ? " although cancelled" : "");
            VM_COUNT("moved", 1);
            break;
        }
        case 5: {  // moved to an outer place and back, with a std::function
            int id = -1;
            bool cancel = c.rng.chance(1, 3);
            guarded(depth, [&] {
                id = new_guard();
                typedef ke::ScopeGuard<std::function<void()>> G;
                std::unique_ptr<G> outer;
                {
                    G g(std::function<void()>([this, id] { ran(id); }));
                    outer.reset(new G(std::move(g)));
                }
                VM_CHECK(c, runs[id] == 0, "guard-move", "destroying a moved-from guard runs the callback");
                {
                    G* a = new G(std::move(*outer));
                    outer.reset(a);
                }
                VM_CHECK(c, runs[id] == 0, "guard-move", "destroying a moved-from guard runs the callback");
                if (cancel) {
                    outer->cancel();
                    stack.pop_back();
                    if (c.rng.coin())
                        outer.reset(new G(std::move(*outer)));
                }
                body(depth);
            });
            VM_CHECK(c, runs[id] == (cancel ? 0 : 1), "guard-move", "the callback of a moved guard ran %d times%s", runs[id], cancel ? " although cancelled" : "");
            VM_COUNT("moved", 1);
            break;
        }
        case 6: {
            int old = number, v = (int)c.rng.below(100);
            bool alias = c.rng.chance(1, 5);
            guarded(depth, [&] {
                ke::SaveAndSet<int> s(&number, alias ? number : v);
                VM_CHECK(c, number == (alias ? old : v), "save-set", "SaveAndSet does not set the value");
                if (c.rng.coin())
                    number = -5;
                int now = number;
                body(depth);
                VM_CHECK(c, number == now, "save-restore", "inner scopes did not restore the number");
            });
            VM_CHECK(c, number == old, "save-restore", "SaveAndSet leaves %d, expected %d", number, old);
            VM_COUNT("saves", 1);
            break;
        }
        case 7: {
            std::string old = text, v = "another text, with number " + std::to_string(c.rng.below(1000));
            guarded(depth, [&] {
                ke::SaveAndSet<std::string> s(&text, v);
                VM_CHECK(c, text == v, "save-set", "SaveAndSet does not set the value");
                body(depth);
                VM_CHECK(c, text == v, "save-restore", "inner scopes did not restore the text");
                text.clear();
            });
            VM_CHECK(c, text == old, "save-restore", "SaveAndSet does not restore a string");
            VM_COUNT("saves", 1);
            break;
        }
        case 8: {
            int old = obj.get(), v = (int)c.rng.below(100);
            guarded(depth, [&] {
                ke::SaveAndSet<vm::Obj> s(&obj, vm::Obj(v));
                VM_CHECK(c, obj.get() == v, "save-set", "SaveAndSet does not set the value");
                body(depth);
                VM_CHECK(c, obj.get() == v, "save-restore", "inner scopes did not restore the object");
            });
            VM_CHECK(c, obj.get() == old, "save-restore", "SaveAndSet does not restore an object");
            VM_COUNT("saves", 1);
            break;
        }
        case 13: {  // values that compare equal without being the same, and the reverse
            static const double values[] = {0.0, -0.0, 1.5, __builtin_nan("1"), -__builtin_inf()};
            double old = real, v = values[c.rng.below(5)];
            guarded(depth, [&] {
                ke::SaveAndSet<double> s(&real, v);
                VM_CHECK(c, !memcmp(&real, &v, sizeof(v)), "save-set", "SaveAndSet does not set the double %g, but %g", v, real);
                body(depth);
                VM_CHECK(c, !memcmp(&real, &v, sizeof(v)), "save-restore", "inner scopes did not restore the double");
                if (c.rng.coin())
                    real = -real;
            });
            VM_CHECK(c, !memcmp(&real, &old, sizeof(old)), "save-restore", "SaveAndSet leaves %g, expected %g", real, old);
            VM_COUNT("saves", 1);
            break;
        }
        case 14: {
            Loose old = loose, v{(int)c.rng.below(3), (int)c.rng.below(100)};
            guarded(depth, [&] {
                ke::SaveAndSet<Loose> s(&loose, v);
                VM_CHECK(c, loose.key == v.key && loose.rest == v.rest, "save-set", "SaveAndSet does not set the value");
                body(depth);
                VM_CHECK(c, loose.key == v.key && loose.rest == v.rest, "save-restore", "inner scopes did not restore the value");
            });
            VM_CHECK(c, loose.key == old.key && loose.rest == old.rest, "save-restore", "SaveAndSet leaves a value that is equal but not the same");
            VM_COUNT("saves", 1);
            break;
        }
        case 9: case 10: {
            int k = (int)c.rng.below(2);
            Chain* old = chain[k];
            guarded(depth, [&] {
                struct Pop {
                    std::vector<int>& m;
                    ~Pop() { m.pop_back(); }
                };
                int id = (int)c.rng.below(100000);
                chain_model[k].push_back(id);
                Pop pop{chain_model[k]};
                Chain link(&chain[k], id);
                VM_CHECK(c, chain[k] == &link && link.prev() == old, "chain", "a new object is not the innermost one");
                check_chain(k);
                body(depth);
                VM_CHECK(c, chain[k] == &link, "chain", "the innermost live object is not the one named");
                check_chain(k);
            });
            VM_CHECK(c, chain[k] == old, "chain", "the chain is not restored at scope exit");
            break;
        }
        case 11: {
            int v = (int)c.rng.below(100) + 1;
            int n = v;
            VM_CHECK(c, ke::ReturnAndVoid(n) == v && n == 0, "return-and-void", "ReturnAndVoid of an int");
            int* p = &n;
            VM_CHECK(c, ke::ReturnAndVoid(p) == &n && p == nullptr, "return-and-void", "ReturnAndVoid of a pointer");
            std::string s = text, s2 = ke::ReturnAndVoid(s);
            VM_CHECK(c, s.empty() && s2 == text, "return-and-void", "ReturnAndVoid of a string");
            std::shared_ptr<int> sp = std::make_shared<int>(v), sp2 = ke::ReturnAndVoid(sp);
            VM_CHECK(c, !sp && sp2.use_count() == 1 && *sp2 == v, "return-and-void", "ReturnAndVoid of a shared_ptr");
            std::vector<int> vec(5, v), vec2 = ke::ReturnAndVoid(vec);
            VM_CHECK(c, vec.empty() && vec2.size() == 5 && vec2[4] == v, "return-and-void", "ReturnAndVoid of a vector");
            vm::Obj o(v), o2(ke::ReturnAndVoid(o));
            VM_CHECK(c, o.get() == 0 && o2.get() == v, "return-and-void", "ReturnAndVoid of an object");
            bool b = true;
            VM_CHECK(c, ke::ReturnAndVoid(b) && !b, "return-and-void", "ReturnAndVoid of a bool");
            double d = 2.5;
            VM_CHECK(c, ke::ReturnAndVoid(d) == 2.5 && d == 0, "return-and-void", "ReturnAndVoid of a double");
            VM_COUNT("voids", 1);
            body(depth);
            break;
        }
        default: {  // leaving a loop or function early
            int id = -1, n = (int)c.rng.range(1, 5), got = 0;
            for (int i = 0; i < n; i++) {
                id = new_guard();
                auto g = ke::MakeScopeGuard([this, id, &got] { ran(id); got++; });
                if (i == 2)
                    break;
                if (i & 1)
                    continue;
            }
            int want = n < 3 ? n : 3;
            VM_CHECK(c, got == want, "guard-count", "%d callbacks ran in a loop of %d scopes", got, want);
            int r = [&]() -> int {
                id = new_guard();
                auto g = ke::MakeScopeGuard([this, id, &got] { ran(id); got = -1; });
                return got;
            }();
            VM_CHECK(c, r == want && got == -1, "guard-early", "the callback runs before the return value is made");
#if __cplusplus >= 201703L
            id = new_guard();
            auto fn = [this, id] { ran(id); };
            {
                auto g = ke::MakeScopeGuard(fn);  // by reference
            }
            VM_CHECK(c, runs[id] == 1, "guard-count", "a guard of an lvalue callback");
#endif
            break;
        }
    }
    VM_CHECK(c, stack.size() == before, "guard-count", "%zu guards are pending after a scope, expected %zu", stack.size(), before);
    after(depth);
}
SCENARIO(nestings, 5000, 200000, 0) {
    World w(c);
    for (int i = 0; i < 4; i++) {
        try {
            w.scope(0);
        } catch (Unwind&) {
        }
    }
    w.check_chain(0);
    w.check_chain(1);
    VM_CHECK(c, w.stack.empty() && !w.chain[0] && !w.chain[1], "guard-count", "guards are pending at the end");
    VM_CHECK(c, w.number == 7 && w.obj.get() == 3 && w.text.size() == 42, "save-restore", "values are not restored at the end");
    for (int r : w.runs)
        VM_CHECK(c, r <= 1, "guard-twice", "a callback ran %d times", r);
    c.nontrivial();
    VM_COUNT("guards", w.runs.size());
}
// The callback owns resources: it must be destroyed, once, also when it is cancelled or moved.
template <typename O>
struct Owner {
    O o;
    std::unique_ptr<int> kept;
    int* r;
    void operator()() {
        if (o.get() != 1 || !kept || *kept != 2)
            vm::fail("callback-lifetime", "the callback that runs is not the one given");
        ++*r;
    }
};
SCENARIO(move_only_callbacks, 200, 2000, 0) {
    vm::L.reset();
    int runs = 0, n = (int)c.rng.below(4);
    bool cancel = c.rng.coin();
    {
        typedef ke::ScopeGuard<Owner<vm::MoveObj>> G;
        Owner<vm::MoveObj> given{vm::MoveObj(1), std::unique_ptr<int>(new int(2)), &runs};
        std::unique_ptr<G> g(new G(std::move(given)));
        for (int i = 0; i < n; i++)
            g.reset(new G(std::move(*g)));
        auto made = ke::MakeScopeGuard(Owner<vm::MoveObj>{vm::MoveObj(1), std::unique_ptr<int>(new int(2)), &runs});
        VM_CHECK(c, runs == 0, "guard-early", "a callback ran before its scope ended");
        if (cancel) {
            g->cancel();
            made.cancel();
        }
    }
    VM_CHECK(c, runs == (cancel ? 0 : 2), "guard-count", "two callbacks ran %d times", runs);
    VM_CHECK(c, vm::L.live == 0, "callback-lifetime", "%" PRId64 " callback objects are left", vm::L.live);
    VM_COUNT("move_only_callbacks", 2);
    c.sig((uint64_t)(n * 2 + cancel));
    c.nontrivial();
}
SCENARIO(callback_lifetimes, 500, 5000, 0) {
    vm::L.reset();
    int runs = 0, n = (int)c.rng.below(6);
    bool cancel = c.rng.coin();
    {
        struct Cb {
            vm::Obj o;
            int* r;
            void operator()() {
                o.get();
                ++*r;
            }
        };
        typedef ke::ScopeGuard<Cb> G;
        std::unique_ptr<G> g(new G(Cb{vm::Obj(1), &runs}));
        for (int i = 0; i < n; i++)
            g.reset(new G(std::move(*g)));
        VM_CHECK(c, runs == 0, "guard-early", "a callback ran before its scope ended");
        if (cancel)
            g->cancel();
    }
    VM_CHECK(c, runs == !cancel, "guard-count", "a callback ran %d times", runs);
    VM_CHECK(c, vm::L.live == 0, "callback-lifetime", "%" PRId64 " callback objects are left", vm::L.live);
    c.sig((uint64_t)(n * 2 + cancel));
    c.nontrivial();
}
