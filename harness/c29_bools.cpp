// C29, apart: std::vector<bool>, whose elements are not references. A tree that does not accept it is
// not blamed for that (see "optional" in checks.py); one that does must get it right.
#include "vm.h"

#include <amtl/am-vector.h>

typedef std::vector<int> Model;
static void same(vm::Case& c, const char* op, const std::vector<bool>& got, const Model& want) {
    VM_CHECK(c, got.size() == want.size(), "size", "%s on bool leaves %zu elements, expected %zu", op, got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++)
        VM_CHECK(c, got[i] == (bool)want[i], "content", "%s on bool leaves %d at %zu, expected %d", op, (int)got[i], i, want[i]);
    VM_COUNT("verifications", 1);
}
SCENARIO(bools, 400, 4000, 0) {
    std::vector<bool> v, w;
    Model m, mw;
    for (size_t i = c.rng.below(200); i > 0; i--) { bool b = c.rng.coin(); v.push_back(b); m.push_back(b); }
    for (size_t i = c.rng.below(200); i > 0; i--) { bool b = c.rng.coin(); w.push_back(b); mw.push_back(b); }
    ke::MoveExtend(&v, &w);
    m.insert(m.end(), mw.begin(), mw.end());
    same(c, "MoveExtend", v, m);
    VM_CHECK(c, w.empty(), "source", "MoveExtend leaves elements in its source");
    while (m.size() > 5) {
        switch (c.rng.below(3)) {
            case 0: {
                bool x = ke::PopBack(&v);
                VM_CHECK(c, x == (bool)m.back(), "popped", "PopBack(vector<bool>) returns a wrong value");
                m.pop_back();
                break;
            }
            case 1: {
                size_t at = c.rng.below(m.size());
                ke::RemoveAt(&v, at);
                m.erase(m.begin() + at);
                break;
            }
            default: {
                size_t at = c.rng.below(m.size() + 1);
                if (c.rng.chance(1, 3)) {
                    const bool b = c.rng.coin();
                    ke::InsertAt(&v, at, b);
                    m.insert(m.begin() + at, b);
                }
                break;
            }
        }
        same(c, "a helper", v, m);
        c.sig(m.size());
    }
    c.nontrivial();
}
