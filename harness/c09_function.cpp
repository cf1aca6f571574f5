// C09 (what a Function calls) and C10 (-DOWNERSHIP: what it owns, copies and allocates).
#include <amtl/am-function.h>

#include <memory>
#include <string>

#include "vm.h"

#if defined(OWNERSHIP)
static const bool kOwner = true;
#    define FN_FLAGS 0
#else
static const bool kOwner = false;
#    define FN_FLAGS vm::kNoLeakCheck
#endif

struct Out {  // a move-only result
    int id, n, arg;
    std::unique_ptr<int> back;
    vm::Obj* ref;
};
typedef Out Sig(int, vm::Obj&, std::unique_ptr<int>);
typedef ke::Function<Sig> Fn;

static struct {
    int64_t live;
    uint64_t copies, moves, dtors, calls;
    int last_id;
} K;

static Out answer(int id, int n, int arg, vm::Obj& o, std::unique_ptr<int> p) {
    K.calls++;
    K.last_id = id;
    Out out{id, n, arg, std::move(p), &o};
    return out;
}
// A callable of a given size and alignment that knows where it lives and counts its own calls.
template <size_t Size, size_t Align>
struct alignas(Align) Call {
    const Call* self;
    int id;
    mutable int n;
    unsigned char pad[Size > 16 ? Size - 16 : 1];
    static const size_t kSize = Size;
    void begin() {
        if ((uintptr_t)this % Align)
            vm::fail(kOwner ? "alignment" : "callable", "a callable of alignment %zu is stored at %p", Align, (const void*)this);
        self = this;
        K.live++;
        memset(pad, 0x77, sizeof(pad));
    }
    void check(const char* what) const {
        if (self != this)
            vm::fail(kOwner ? "lifetime" : "callable", "%s of a callable that is not alive", what);
        for (unsigned char c : pad)
            if (c != 0x77)
                vm::fail("callable-overwritten", "%s of an overwritten callable", what);
    }
    explicit Call(int i, int n_ = 0) : id(i), n(n_) { begin(); }
    Call(const Call& o) : id(o.id), n(o.n) {
        o.check("copy");
        begin();
        K.copies++;
    }
    Call(Call&& o) : id(o.id), n(o.n) {
        o.check("move");
        begin();
        K.moves++;
        o.id = -1;
    }
    ~Call() {
        check("destruction");
        self = nullptr;
        K.live--;
        K.dtors++;
    }
    Out operator()(int arg, vm::Obj& o, std::unique_ptr<int> p) const {
        check("call");
        n++;
        return answer(id, n, arg, o, std::move(p));
    }
};
// 16 bytes of state need the pad byte, so the exact small sizes are separate.
template <size_t Align>
struct alignas(Align) Call<16, Align> {
    const Call* self;
    int id;
    mutable int n;
    static const size_t kSize = 16;
    void begin() {
        if ((uintptr_t)this % Align)
            vm::fail(kOwner ? "alignment" : "callable", "a callable of alignment %zu is stored at %p", Align, (const void*)this);
        self = this;
        K.live++;
    }
    void check(const char* what) const {
        if (self != this)
            vm::fail(kOwner ? "lifetime" : "callable", "%s of a callable that is not alive", what);
    }
    explicit Call(int i, int n_ = 0) : id(i), n(n_) { begin(); }
    Call(const Call& o) : id(o.id), n(o.n) { o.check("copy"); begin(); K.copies++; }
    Call(Call&& o) : id(o.id), n(o.n) { o.check("move"); begin(); K.moves++; o.id = -1; }
    ~Call() { check("destruction"); self = nullptr; K.live--; K.dtors++; }
    Out operator()(int arg, vm::Obj& o, std::unique_ptr<int> p) const {
        check("call");
        n++;
        return answer(id, n, arg, o, std::move(p));
    }
};
static_assert(sizeof(Call<16, 8>) == 16 && sizeof(Call<24, 8>) == 24 && sizeof(Call<32, 8>) == 32 && sizeof(Call<40, 8>) == 40, "sizes");
static Out plain_fn(int arg, vm::Obj& o, std::unique_ptr<int> p) { return answer(-7, 0, arg, o, std::move(p)); }
static Out other_fn(int arg, vm::Obj& o, std::unique_ptr<int> p) { return answer(-8, 0, arg, o, std::move(p)); }

enum Kind { kNone, kPlain, kOther, kLambda, k16, k24, k32, k40, k200, kA16, kA32, kA64, kAs16, kKinds };
static bool tracked(Kind k) { return k >= k16; }
struct Slot;
static bool inlined(const Slot& s);
static bool small_callable(Kind k) { return k != kNone && k <= k24; }  // at most three words

struct Slot {
    Kind kind = kNone;
    int id = 0, n = 0;
    bool heap = false;  // known finding: it descends from a copy of a non-const Function
};
static bool inlined(const Slot& s) { return small_callable(s.kind) && !s.heap; }
struct World {
    vm::Case& c;
    static const int kSlots = 5;
    std::unique_ptr<Fn> f[kSlots];
    Slot m[kSlots];
    int next_id = 1;
    int64_t extra = 0;  // callables alive outside of Functions
    explicit World(vm::Case& c_) : c(c_) {
        for (auto& x : f)
            x.reset(new Fn());
        memset(&K, 0, sizeof(K));
    }
    void verify(const char* what) {
        int64_t want = extra;
        for (int i = 0; i < kSlots; i++) {
            bool has = m[i].kind != kNone;
            VM_CHECK(c, (bool)*f[i] == has, "emptiness", "Function %d is %s after %s", i, has ? "empty but holds a callable" : "non-empty but holds none", what);
            want += tracked(m[i].kind);
            if (kOwner && inlined(m[i]))
                VM_CHECK(c, f[i]->usingInlineStorage(), "inline", "a callable of at most three words is not stored inline");
        }
        if (kOwner)
            VM_CHECK(c, K.live == want, "live", "%" PRId64 " callables are alive, expected %" PRId64 ", after %s", K.live, want, what);
        VM_COUNT("verifications", 1);
    }
    void call(int i) {
        if (m[i].kind == kNone)
            return;
        int arg = (int)c.rng.below(1000000);
        vm::Obj o(arg);
        std::unique_ptr<int> p(new int(arg + 1));
        int* raw = p.get();
        uint64_t calls = K.calls;
        uint64_t copies = vm::L.copy;
        const Fn& fn = *f[i];
        Out out = fn(arg, o, std::move(p));
        if (tracked(m[i].kind) || m[i].kind == kLambda)
            m[i].n++;
        VM_CHECK(c, K.calls == calls + 1, "call-count", "one call invokes the callable %" PRIu64 " times", K.calls - calls);
        VM_CHECK(c, out.id == m[i].id, "wrong-callable", "Function %d calls callable %d, expected %d", i, out.id, m[i].id);
        VM_CHECK(c, out.n == m[i].n, "state", "Function %d calls its callable in state %d, expected %d: copies are not independent", i, out.n, m[i].n);
        VM_CHECK(c, out.arg == arg && out.ref == &o && out.back.get() == raw && *raw == arg + 1 && o.get() == arg && vm::L.copy == copies, "arguments", "the arguments or the result are not passed on");
        VM_COUNT("calls", 1);
    }
    // Runs an operation that must neither copy callables nor (if small) allocate.
    template <typename Op>
    void watched(const char* what, bool nocopy, bool noalloc, Op op) {
        uint64_t copies = K.copies, allocs = vm::allocs();
        op();
        allocs = vm::allocs() - allocs;
        if (!kOwner)
            return;
        if (nocopy) {
            VM_CHECK(c, K.copies == copies, "copied", "%s copies the callable", what);
            VM_COUNT("copy_free_operations", 1);
        }
        if (noalloc) {
            VM_CHECK(c, allocs == 0, "allocated", "%s of a callable of at most three words allocates memory", what);
            VM_COUNT("allocation_free_operations", 1);
        }
    }
    template <typename T>
    void put(int i, Kind kind, T&& obj, bool by_move, bool construct) {
        bool sm = small_callable(kind);
        if (construct) {
            void* mem;
            Fn* raw;
            {
                raw = f[i].release();
                delete raw;
                mem = operator new(sizeof(Fn));
            }
            watched("construction", by_move, sm, [&] { raw = new (mem) Fn(std::forward<T>(obj)); });
            f[i].reset(raw);
            VM_COUNT("constructions", 1);
        } else {
            Fn* r = nullptr;
            watched("assignment", by_move, sm, [&] { r = &(*f[i] = std::forward<T>(obj)); });
            VM_CHECK(c, r == f[i].get(), "assign-result", "assignment does not return the Function");
            VM_COUNT("assignments", 1);
        }
    }
    template <typename C>
    void put_tracked(int i, Kind kind, unsigned how, bool construct) {
        Slot s;
        s.kind = kind;
        s.id = next_id++;
        s.n = (int)c.rng.below(100);
        switch (how % 4) {
            case 0: {  // a temporary
                C obj(s.id, s.n);
                put(i, kind, std::move(obj), true, construct);
                VM_CHECK(c, obj.id == -1 || !kOwner, "copied", "an rvalue callable is copied");
                break;
            }
            case 1: {  // an lvalue; it stays intact and independent
                C obj(s.id, s.n);
                put(i, kind, obj, false, construct);
                VM_CHECK(c, obj.id == s.id && obj.n == s.n, "source-changed", "an lvalue callable is changed by storing it");
                obj.n += 50;
                break;
            }
            case 2: {
                const C obj(s.id, s.n);
                put(i, kind, obj, false, construct);
                VM_CHECK(c, obj.id == s.id, "source-changed", "a const callable is changed by storing it");
                obj.n += 50;
                break;
            }
            default: {  // through a temporary Function
                C obj(s.id, s.n);
                if (construct)
                    f[i].reset(new Fn(Fn(std::move(obj))));
                else
                    *f[i] = Fn(std::move(obj));
                break;
            }
        }
        m[i] = s;
    }
    void put_any(int i, Kind kind, unsigned how, bool construct) {
        Slot s;
        s.kind = kind;
        switch (kind) {
            case kPlain:
                s.id = -7;
                if (how & 1) {
                    put(i, kind, plain_fn, true, construct);
                } else {
                    put(i, kind, &plain_fn, true, construct);
                }
                m[i] = s;
                break;
            case kOther: {
                s.id = -8;
                Out (*fp)(int, vm::Obj&, std::unique_ptr<int>) = other_fn;
                put(i, kind, fp, true, construct);
                fp = plain_fn;
                m[i] = s;
                break;
            }
            case kLambda: {
                s.id = next_id++;
                auto state = std::make_shared<int>(0);  // 16 bytes; deep copies share it
                int id = s.id;
                (void)state;
                auto fn = [id, n = 0](int a, vm::Obj& o, std::unique_ptr<int> p) -> Out { return answer(id, const_cast<int&>(n) += 1, a, o, std::move(p)); };
                if (how & 1)
                    put(i, kind, fn, true, construct);
                else
                    put(i, kind, std::move(fn), true, construct);
                m[i] = s;
                break;
            }
            case k16: put_tracked<Call<16, 8>>(i, kind, how, construct); break;
            case k24: put_tracked<Call<24, 8>>(i, kind, how, construct); break;
            case k32: put_tracked<Call<32, 8>>(i, kind, how, construct); break;
            case k40: put_tracked<Call<40, 8>>(i, kind, how, construct); break;
            case k200: put_tracked<Call<200, 8>>(i, kind, how, construct); break;
            case kAs16: put_tracked<Call<16, 16>>(i, kind, how, construct); break;
            case kA16: put_tracked<Call<24, 16>>(i, kind, how, construct); break;
#if __cplusplus >= 201703L
            case kA32: put_tracked<Call<24, 32>>(i, kind, how, construct); break;
            case kA64: put_tracked<Call<24, 64>>(i, kind, how, construct); break;
#endif
            default: break;
        }
    }
    void copied_from_nonconst(Slot& s, Fn& copy, uint64_t allocs) {
        if (!kOwner || !inlined(s) || (copy.usingInlineStorage() && !allocs))
            return;
        vm::known_or_fail("copy-of-nonconst-function-allocates", "copy construction from a non-const Function that holds a callable of at most three words allocates memory");
        s.heap = true;
    }
    void step() {
        int i = (int)c.rng.below(kSlots), j = (int)c.rng.below(kSlots);
        unsigned op = (unsigned)c.rng.below(20), how = (unsigned)c.rng.below(8);
        const char* what = "nothing";
        Fn& a = *f[i];
        Fn& b = *f[j];
        if (op < 6) {
            what = "storing a callable";
            put_any(i, (Kind)c.rng.range(kPlain, kKinds - 1), how, c.rng.chance(1, 3));
        } else if (op < 8) {
            what = how & 1 ? "copy assignment from a const Function" : "copy assignment";
            Fn* r;
            watched(what, false, inlined(m[j]), [&] { r = how & 1 ? &(a = (const Fn&)b) : &(a = b); });
            VM_CHECK(c, r == &a, "assign-result", "assignment does not return the Function");
            m[i] = m[j];
            if (i == j)
                VM_COUNT("self_assignments", 1);
            if (m[j].kind == kNone)
                VM_COUNT("empty_copies", 1);
            VM_COUNT("copies", 1);
        } else if (op < 10) {
            what = "move assignment";
            bool has = m[i].kind != kNone;
            watched(what, true, small_callable(m[j].kind), [&] { a = std::move(b); });
            if (i == j) {
                // Only required to leave it intact or empty.
                if (!a && has)
                    m[i] = Slot();
                VM_COUNT("self_moves", 1);
            } else {
                m[i] = m[j];
                m[j] = Slot();
            }
            VM_COUNT("moves", 1);
        } else if (op < 12 && i != j) {
            what = how & 1 ? "copy construction from a const Function" : "copy construction";
            f[i].reset();
            void* mem = operator new(sizeof(Fn));
            Fn* p = nullptr;
            uint64_t allocs = vm::allocs();
            watched(what, false, inlined(m[j]) && (how & 1), [&] { p = how & 1 ? new (mem) Fn((const Fn&)b) : new (mem) Fn(b); });
            allocs = vm::allocs() - allocs;
            f[i].reset(p);
            m[i] = m[j];
            if (!(how & 1))
                copied_from_nonconst(m[i], *p, allocs);
            if (m[j].kind == kNone)
                VM_COUNT("empty_copies", 1);
            VM_COUNT("copies", 1);
        } else if (op < 14 && i != j) {
            what = "move construction";
            f[i].reset();
            void* mem = operator new(sizeof(Fn));
            Fn* p = nullptr;
            watched(what, true, small_callable(m[j].kind), [&] { p = new (mem) Fn(std::move(b)); });
            f[i].reset(p);
            m[i] = m[j];
            m[j] = Slot();
            VM_COUNT("moves", 1);
        } else if (op == 14) {
            what = "null assignment";
            if (how & 1)
                a = nullptr;
            else if (how & 2)
                f[i].reset(new Fn(nullptr));
            else
                f[i].reset(new Fn());
            m[i] = Slot();
        } else if (op == 15) {
            what = "copy through a value parameter";
            auto pass = [](Fn x) -> Fn { return x; };
            Fn* p = new Fn(pass(b));
            m[i] = m[j];
            copied_from_nonconst(m[i], *p, 0);
            f[i].reset(p);
        } else if (op == 16) {
            what = "swap";
            std::swap(a, b);
            if (i != j)
                std::swap(m[i], m[j]);
            else if (!a)
                m[i] = Slot();
        } else if (op == 17) {
            what = "vector growth";
            std::vector<Fn> v;
            for (int k = 0; k < 3; k++)
                v.push_back(*f[j]);
            v.push_back(std::move(*f[j]));
            Slot s = m[j];
            m[j] = Slot();
            *f[i] = std::move(v[(size_t)c.rng.below(4)]);
            m[i] = s;
        } else {
            what = "call";
            call(i);
            call(i);
        }
        c.log("%s i=%d j=%d", what, i, j);
        c.sig(op * 100 + i * 10 + j);
        verify(what);
        if (c.rng.chance(1, 3))
            for (int k = 0; k < kSlots; k++)
                call(k);
    }
};
SCENARIO(histories, 3000, 120000, FN_FLAGS) {
    World w(c);
    int steps = (int)c.rng.range(5, 120);
    for (int i = 0; i < steps; i++)
        w.step();
    for (int k = 0; k < World::kSlots; k++)
        w.call(k);
    for (int k = 0; k < World::kSlots; k++) {
        w.f[k].reset();
        w.m[k] = Slot();
    }
    if (kOwner)
        VM_CHECK(c, K.live == 0, "live", "%" PRId64 " callables outlive their Functions", K.live);
    c.nontrivial();
    VM_COUNT("steps", steps);
}
// Every pair of operations on every pair of kinds.
SCENARIO(pairs, kKinds * kKinds * 8, kKinds * kKinds * 8, FN_FLAGS) {
    World w(c);
    Kind x = (Kind)(c.index % kKinds), y = (Kind)(c.index / kKinds % kKinds);
    unsigned op = (unsigned)(c.index / kKinds / kKinds);
#if __cplusplus < 201703L
    if (x >= kA32 || y >= kA32)
        return;
#endif
    for (unsigned how = 0; how < 4; how++) {
        w.put_any(0, x, how, how & 1);
        if (x == kNone)
            w.f[0].reset(new Fn()), w.m[0] = Slot();
        w.put_any(1, y, how / 2, how & 2);
        if (y == kNone)
            *w.f[1] = nullptr, w.m[1] = Slot();
        w.verify("storing callables");
        w.call(0);
        Fn &a = *w.f[0], &b = *w.f[1];
        Fn& a2 = a;
        switch (op) {
            case 0: a = b; w.m[0] = w.m[1]; break;
            case 1: a = (const Fn&)b; w.m[0] = w.m[1]; break;
            case 2: a = std::move(b); w.m[0] = w.m[1]; w.m[1] = Slot(); break;
            case 3: a = a2; break;
            case 4: a = (const Fn&)a2; break;
            case 5: w.f[2].reset(new Fn(a)); w.m[2] = w.m[0]; w.copied_from_nonconst(w.m[2], *w.f[2], 0); a = b; w.m[0] = w.m[1]; break;
            case 6: w.f[2].reset(new Fn(std::move(a))); w.m[2] = w.m[0]; w.m[0] = Slot(); break;
            default: std::swap(a, b); std::swap(w.m[0], w.m[1]); break;
        }
        w.verify("the operation");
        for (int k = 0; k < World::kSlots; k++)
            w.call(k), w.call(k);
        // The copies do not depend on each other's lifetime.
        w.f[1].reset(new Fn());
        w.m[1] = Slot();
        w.verify("destruction of the source");
        w.call(0);
        w.call(2);
    }
    c.sig(c.index);
    c.nontrivial();
    c.log("kinds %d and %d, operation %u", x, y, op);
}
// Assigning to a Function something that lives inside the callable it holds.
struct Link {
    ke::Function<int(int)>* where_next;
    std::shared_ptr<ke::Function<int(int)>> next;
    int id;
    char pad[64];
    int operator()(int x) const { return x * 10 + id; }
};
struct Inner {  // holds a Function by value and tells where it is
    ke::Function<int(int)> next;
    int id;
    mutable const ke::Function<int(int)>** tell;
    int operator()(int x) const {
        if (tell)
            *tell = &next;
        return x * 10 + id;
    }
};
SCENARIO(chains, 200, 5000, FN_FLAGS) {
    int n = (int)c.rng.range(2, 12);
    const ke::Function<int(int)>* seen = nullptr;
    ke::Function<int(int)> head;
    for (int i = 0; i < n; i++) {
        Inner in{head, i, &seen};
        head = in;
    }
    for (int i = n - 1; i > 0; i--) {
        VM_CHECK(c, head && head(7) == 70 + i, "wrong-callable", "element %d of a chain of Functions", i);
        if (c.rng.coin())
            head = *seen;
        else
            head = std::move(*const_cast<ke::Function<int(int)>*>(seen));
        VM_COUNT("chain_assignments", 1);
    }
    VM_CHECK(c, head(7) == 70, "wrong-callable", "end of a chain of Functions");
    head = *seen;
    VM_CHECK(c, !head, "emptiness", "the Function after the last of a chain is not empty");
    c.sig((uint64_t)n);
    c.nontrivial();
}
// Signatures: void, references, const, rvalue references, no and many arguments.
SCENARIO(signatures, 100, 1000, FN_FLAGS) {
    int v = (int)c.rng.below(1000);
    int hits = 0;
    ke::Function<void()> f0 = [&] { hits++; };
    ke::Function<void()> f0b(f0);
    f0();
    f0b();
    f0b = std::move(f0);
    f0b();
    VM_CHECK(c, hits == 3 && !f0 && f0b, "signature", "void() was called %d of 3 times", hits);
    ke::Function<int&(int&)> f1 = [](int& x) -> int& { x++; return x; };
    int before = v;
    int& r = f1(v);
    VM_CHECK(c, &r == &v && v == before + 1, "signature", "int&(int&)");
    ke::Function<const std::string&(const std::string&)> f2 = [](const std::string& s) -> const std::string& { return s; };
    std::string s = "a string that is long enough to be allocated " + std::to_string(v);
    VM_CHECK(c, &f2(s) == &s, "signature", "const std::string&(const std::string&)");
    ke::Function<std::string(std::string)> f3 = [](std::string x) { return x + x; };
    VM_CHECK(c, f3(s) == s + s && s.size() > 20, "signature", "std::string(std::string)");
    ke::Function<int(std::unique_ptr<int>&&)> f4 = [](std::unique_ptr<int>&& p) { return *p; };
    std::unique_ptr<int> p(new int(v));
    VM_CHECK(c, f4(std::move(p)) == v && p, "signature", "int(std::unique_ptr<int>&&) took the object");
    ke::Function<int(std::unique_ptr<int>&&)> f5 = [](std::unique_ptr<int>&& q) { std::unique_ptr<int> t(std::move(q)); return *t; };
    VM_CHECK(c, f5(std::move(p)) == v && !p, "signature", "int(std::unique_ptr<int>&&) did not hand over the object");
    ke::Function<long(char, short, int, long, float, double, void*, bool)> f6 = [](char a, short b, int d, long e, float f, double g, void* h, bool i) {
        return (long)(a + b * 2 + d * 3 + e * 4 + (long)f * 5 + (long)g * 6 + (h ? 7 : 0) + (i ? 8 : 0));
    };
    VM_CHECK(c, f6(1, 2, 3, 4, 5.0f, 6.0, &v, true) == 1 + 4 + 9 + 16 + 25 + 36 + 15, "signature", "eight arguments");
    vm::L.reset();
    {
        ke::Function<int(vm::Obj)> f7 = [](vm::Obj o) { return o.get(); };
        vm::Obj o(v);
        VM_CHECK(c, f7(o) == v && o.get() == v, "signature", "int(Obj)");
        VM_CHECK(c, f7(std::move(o)) == v && o.moved(), "signature", "int(Obj) from an rvalue");
        ke::Function<vm::MoveObj(vm::MoveObj)> f8 = [](vm::MoveObj x) { return vm::MoveObj(std::move(x)); };
        vm::MoveObj mo(v);
        vm::MoveObj out(f8(std::move(mo)));
        VM_CHECK(c, out.get() == v && mo.moved(), "signature", "MoveObj(MoveObj)");
        // Conversion of the result and of arguments, and a Function as an argument.
        ke::Function<double(int)> f9 = [](long x) -> int { return (int)x * 2; };
        VM_CHECK(c, f9(v) == v * 2.0, "signature", "double(int) from int(long)");
        ke::Function<int(ke::Function<int(int)>, int)> f10 = [](ke::Function<int(int)> g, int x) { return g ? g(x) : -1; };
        VM_CHECK(c, f10([](int x) { return x + 5; }, v) == v + 5 && f10(nullptr, v) == -1, "signature", "a Function as argument");
    }
    VM_CHECK(c, vm::L.live == 0, "arguments", "an argument object is destroyed more or less than once");
    c.sig((uint64_t)v);
    c.nontrivial();
    VM_COUNT("signatures", 1);
}
