// C36: no hidden shared state. Threads that use objects of their own, or only read a shared one, get what they would
// get alone, and nothing they do is a data race (ThreadSanitizer watches the memory, this program the results).
#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>
#include <amtl/am-deque.h>
#include <amtl/am-enum.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-flags.h>
#include <amtl/am-float.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-mutex.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
#include <amtl/am-thread.h>
#include <amtl/am-threadlocal.h>
#include <amtl/am-time.h>
#include <amtl/am-utility.h>
#include <amtl/am-vector.h>
#include <amtl/experimental/am-argparser.h>
#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>

#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "conc.h"

typedef vm::Rng Rng;
static std::string num(uint64_t x) { return std::to_string(x); }
static std::string word(Rng& r, size_t most) {
    std::string s;
    for (size_t n = r.below(most + 1); s.size() < n;)
        s += "abcXYZ ,.\\/%"[r.below(11)];
    return s;
}

struct IntHash {
    static uint32_t hash(int k) { return ke::HashInt32(k); }
    static bool matches(int a, int b) { return a == b; }
};
struct StrHash {
    static uint32_t hash(const std::string& s) { return ke::HashCharSequence(s.data(), s.size()); }
    static bool matches(const std::string& a, const std::string& b) { return a == b; }
};
struct Item : ke::InlineListNode<Item> {
    int v = 0;
};
struct Counted : ke::Refcounted<Counted> {
    std::string text;
    explicit Counted(const std::string& t) : text(t) {}
};
struct Atomic : ke::RefcountedThreadsafe<Atomic> {
    std::string text;
    explicit Atomic(const std::string& t) : text(t) {}
};
enum class Bit : uint16_t { a = 1, b = 2, c = 4, d = 0x8000 };
KE_DEFINE_ENUM_OPERATORS(Bit)
struct Linked : ke::StackLinked<Linked> {
    explicit Linked(Linked** p) : ke::StackLinked<Linked>(p) {}
    Linked* prev() { return prev_; }
};

// ---- what one thread does with things of its own: a function of the seed alone --------------------
static std::string va(bool path, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string out;
    if (path) {
        char b[64];
        size_t n = ke::path::FormatVa(b, sizeof(b), fmt, ap);
        out = std::string(b, n);
    } else {
        out = ke::StringPrintfVa(fmt, ap);
    }
    va_end(ap);
    return out;
}
enum { kOwnKinds = 26, kUmask = 027 };
static std::string own(unsigned kind, Rng r) {
    std::string out;
    switch (kind) {
        case 0: {
            std::string w = word(r, r.chance(1, 8) ? 3000 : 40);
            int k = (int)r.wide();
            out = ke::StringPrintf("%d:%s:%08x", k, w.c_str(), (unsigned)k);
            auto s = ke::Sprintf("<%s|%*d>", w.c_str(), (int)r.below(12), k);
            out += s.get();
            out += va(false, "%s-%d-%g", w.c_str(), k, k / 7.0);
            break;
        }
        case 1: {
            std::string w = word(r, 60);
            char b[50];
            size_t lim = 1 + (size_t)r.below(50);
            size_t n = ke::SafeSprintf(b, lim, "%s/%u", w.c_str(), (unsigned)r.below(1000));
            out.assign(b, n);
            n = ke::path::Format(b, lim, "%s\\%u", w.c_str(), (unsigned)r.below(1000));
            out.append(b, n);
            out += va(true, "a\\%.40s", w.c_str());
            break;
        }
        case 2: {
            std::string s;
            for (int i = (int)r.below(30); i > 0; i--)
                s += word(r, 9) + ", ";
            auto p = ke::Split(s, ", ");
            auto q = ke::Split(s.c_str(), ",");
            out = num(p.size()) + "/" + num(q.size()) + ke::Join(p, "; ") + ke::Join(q, "");
            break;
        }
        case 3: {
            std::string a = word(r, 30), b = word(r, 4);
            out = ke::Uppercase(a.c_str()) + ke::Lowercase(a.c_str()) + num(ke::StartsWith(a, b.c_str())) + num(ke::StartsWith(a.c_str(), b.c_str())) +
                  num(ke::EndsWith(a, b)) + num(ke::StrCaseCmp(a.c_str(), b.c_str()) < 0);
            break;
        }
        case 4: {
            std::string a = word(r, 40), b = word(r, 40);
            char d[48];
            size_t lim = 1 + (size_t)r.below(47);
            out = num(ke::SafeStrcpy(d, lim, a.c_str()));
            out += d;
            out += num(ke::SafeStrcpyN(d, lim, a.c_str(), (size_t)r.below(40)));
            out += d;
            out += num(ke::SafeStrcat(d, lim, b.c_str()));
            out += d;
            break;
        }
        case 5: {
            std::string a = word(r, 200);
            ke::CharacterStreamHasher h;
            h.add(a.data(), a.size());
            h.add('x');
            out = num(h.result()) + "," + num(ke::HashCharSequence(a.data(), a.size())) + "," + num(ke::FastHashCharSequence(a.data(), a.size())) + "," +
                  num(ke::HashInt32((int32_t)r.wide())) + "," + num(ke::HashInt64((int64_t)r.wide())) + "," + num(ke::HashPointer((void*)(uintptr_t)r.wide())) +
                  "," + num(ke::HashCombine((uint32_t)r.wide(), (uint32_t)r.wide()));
            break;
        }
        case 6: {
            uint64_t o = 7;
            uint32_t p = 7;
            out = num(ke::TryUint64Multiply(r.wide(), r.wide(), &o)) + num(o) + num(ke::TryUint64Add(r.wide(), r.wide(), &o)) + num(o) +
                  num(ke::TryUint32Add((uint32_t)r.wide(), (uint32_t)r.wide(), &p)) + num(p) + num(ke::IsUint32AddSafe((uint32_t)r.wide(), (uint32_t)r.wide())) +
                  num(ke::IsUintPtrMultiplySafe(r.wide(), r.wide()));
            uint64_t n = r.wide() | 1;
            out += num(ke::Log2(n)) + num(ke::FindLeftmostBit32((uint32_t)n)) + num(ke::FindLeftmostBit64(n)) + num(ke::FindRightmostBit(n << r.below(64) | (1ull << 63))) +
                   num(ke::IsPowerOfTwo(n)) + num(ke::Align(n >> 8, (size_t)1 << r.below(20)));
            break;
        }
        case 7: {
            double x = (double)(int64_t)r.wide() / 3, y = (double)(1 + r.below(1000)) / 8;
            out = ke::StringPrintf("%a %a %d%d", ke::FloatModulo(x, y), (double)ke::FloatModulo((float)x, (float)y), (int)ke::IsNaN(x), (int)ke::IsInfinite(y));
            break;
        }
        case 8: {
            struct tm tm = {};
            tm.tm_year = (int)r.below(200);
            tm.tm_mon = (int)r.below(12);
            tm.tm_mday = 1 + (int)r.below(28);
            tm.tm_wday = (int)r.below(7);
            tm.tm_hour = (int)r.below(24);
            out = ke::FormatTime(tm, r.coin() ? "%Y-%m-%d %H:%M:%S" : "%A %d %B %Y") + ke::FormatTime(tm, std::string("%j%%"));
            timespec ts = {(time_t)r.below(1u << 31), (long)r.below(1000000000)};
            out += num((uint64_t)ke::TimespecToDuration(ts).count());
            out += num((uint64_t)ke::TimespecToTimePoint<std::chrono::system_clock>(ts).time_since_epoch().count());
            break;
        }
        case 9: {
            char b[80];
            int code = (int)r.below(160);
            ke::FormatSystemErrorCode(code, b, 1 + (size_t)r.below(80));
            out = b;
            errno = (int)r.below(140);
            ke::FormatSystemError(b, sizeof(b));
            out += b;
            break;
        }
        case 10: {
            static const char* const paths[] = {"/", "/dev/null", "/proc/self/exe", "/nonexistent", "/etc/passwd", "", "/etc/passwd/x", "."};
            const char* p = paths[r.below(8)];
            out = std::string(p) + num(ke::file::PathExists(p)) + num(ke::file::IsFile(p)) + num(ke::file::IsDirectory(p));
            break;
        }
        case 11: {
            char b[200];
            std::string p = "/nonexistent/lib" + num(r.below(1000)) + ".so";
            ke::RefPtr<ke::SharedLib> lib = ke::SharedLib::Open(p.c_str(), b, 1 + (size_t)r.below(200));
            out = num(!!lib.get()) + b;
            break;
        }
        case 12: {
            ke::HashMap<int, std::string, IntHash> m;
            m.init(16);
            for (int i = (int)r.below(200); i > 0; i--) {
                int k = (int)r.below(60);
                if (r.chance(1, 3)) {
                    m.removeIfExists(k);
                } else {
                    auto a = m.findForAdd(k);
                    if (a.found())
                        a->value += "+";
                    else
                        m.add(a, k, num((uint64_t)i));
                }
                if (r.chance(1, 90))
                    m.clear();
            }
            std::map<int, std::string> sorted;
            for (auto i = m.iter(); !i.empty(); i.next())
                sorted[i->key] = i->value;
            for (auto& e : sorted)
                out += num((uint64_t)e.first) + "=" + e.second + ";";
            out += num(m.elements());
            ke::HashMap<int, std::string, IntHash> n(std::move(m));
            out += num(n.elements());
            break;
        }
        case 13: {
            ke::HashSet<std::string, StrHash> s;
            s.init();
            for (int i = (int)r.below(100); i > 0; i--)
                s.add(num(r.below(50)));
            for (int i = 0; i < 50; i++) {
                if (r.coin())
                    s.removeIfExists(num((uint64_t)i));
                out += num(s.has(num((uint64_t)i)));
            }
            break;
        }
        case 14: {
            ke::PriorityQueue<std::string> q;
            for (int i = (int)r.below(80); i > 0; i--) {
                q.add(word(r, 6));
                if (r.chance(1, 4))
                    out += q.pop();
            }
            while (!q.empty())
                out += q.pop() + "|";
            break;
        }
        case 15: {
            Item items[12];
            ke::InlineList<Item> l, k;
            for (auto& i : items) {
                i.v = (int)r.below(100);
                (r.coin() ? l : k).append(&i);
            }
            for (auto i = l.begin(); i != l.end();) {
                if (r.chance(1, 3)) {
                    Item* x = *i;
                    i = l.erase(i);
                    k.append(x);
                } else {
                    out += num((uint64_t)i->v) + ",";
                    i++;
                }
            }
            for (auto i = k.rbegin(); i != k.rend(); ++i)
                out += num((uint64_t)i->v) + ".";
            out += num(k.length());
            break;
        }
        case 16: {
            ke::FixedArray<std::string> a((size_t)r.below(20));
            for (auto& s : a)
                s = word(r, 20);
            ke::FixedArray<std::string> b(a), c(std::move(a));
            for (auto& s : b)
                out += s;
            out += num(b == c) + num(a.size());
            break;
        }
        case 17: {
            std::string w = word(r, 30);
            std::vector<int> big(r.below(3) ? 1 : 40, (int)r.below(100));
            ke::Function<std::string(int)> f([w](int k) { return w + num((uint64_t)k); }), g;
            ke::Function<int()> h([big] { return (int)big.size() + big[0]; });
            g = f;
            ke::Function<std::string(int)> t(std::move(f));
            out = g((int)r.below(9)) + t((int)r.below(9)) + num((uint64_t)h()) + num(!!f);
            break;
        }
        case 18: {
            ke::Maybe<std::string> a, b = ke::Some(word(r, 30));
            a = b;
            ke::Maybe<std::string> d(std::move(b));
            out = *a + d.get() + num(b.isValid());
            a = ke::Maybe<std::string>();
            out += num(a.isValid());
            break;
        }
        case 19: {
            ke::RefPtr<Counted> a(new Counted(word(r, 20)));
            ke::RefPtr<Counted> b(a), d;
            d = std::move(a);
            a = b.take();
            out = d->text + num(!!a) + num(!!b);
            break;
        }
        case 20: {
            int x = 1;
            Linked* top = nullptr;
            {
                auto g = ke::MakeScopeGuard([&] { out += "g" + num((uint64_t)x); });
                ke::SaveAndSet<int> s(&x, (int)r.below(9));
                Linked l(&top), m(&top);
                out += num((uint64_t)x) + num(top == &m) + num(m.prev() == &l);
                if (r.coin())
                    g.cancel();
            }
            out += num(ke::ReturnAndVoid(x) == 1) + num((uint64_t)x) + num(top == nullptr);
            break;
        }
        case 21: {
            std::vector<std::string> v, w;
            for (int i = (int)r.below(20); i > 0; i--)
                v.push_back(word(r, 9));
            for (int i = (int)r.below(20); i > 0; i--)
                w.push_back(word(r, 9));
            ke::MoveExtend(&v, &w);
            ke::EraseIf(&v, [](const std::string& s) { return s.size() > 5; });
            ke::InsertAt(&v, v.size() / 2, std::string("mid"));
            ke::RemoveAt(&v, 0);
            for (auto& s : v)
                out += s + "|";
            std::deque<std::string> d{"a", "b"};
            out += ke::PopFront(&d) + num(w.size());
            break;
        }
        case 22: {
            ke::Flags<Bit> f(Bit::a);
            f += Bit::d;
            f -= Bit::a;
            Bit e = Bit::a | Bit::c;
            e &= ~Bit::a;
            out = num(f.bits()) + num((uint64_t)e) + num(r.below(5));
            break;
        }
        case 23: {
            ke::Mutex mutex;
            ke::ThreadLocal<int> a, b;
            ke::ThreadLocal<Item*> none;
            {
                std::lock_guard<ke::Mutex> lock(mutex);
                mutex.AssertCurrentThreadOwns();
                a = (int)r.below(1000);
            }
            out = num(mutex.try_lock());
            mutex.unlock();
            std::string w = word(r, 20);
            {
                ke::AtomicRef<Atomic> cell;
                ke::RefPtr<Atomic> x(new Atomic(w)), y(new Atomic("y"));
                cell = x;
                ke::RefPtr<Atomic> z = cell.get();
                cell = y;
                out += num(z == x) + z->text + cell.get()->text;
            }
            {
                std::string given = w, got;
                auto t = ke::NewThread("c36", [&got](const std::string& s) { got = s + "!"; }, given);
                given = "?";
                t->join();
                out += got;
            }
            b = (int)r.below(1000);
            out += num((uint64_t)a.get()) + "," + num((uint64_t)b.get()) + num(!none);
            break;
        }
        case 24: {  // directories of its own, below one of its own
            static std::atomic<uint64_t> wrong;
            const char* e = getenv("VM_SCRATCH");
            std::string root = std::string(e && *e ? e : "/tmp") + "/vm36-XXXXXX";
            if (!mkdtemp(&root[0]))
                break;
            for (int i = 0; i < 6; i++) {
                static const unsigned modes[] = {0777, 0755, 0733, 0700, 0767};
                unsigned mode = modes[r.below(5)];
                std::string p = root + "/" + num(r.below(4));
                struct stat st;
                bool was = stat(p.c_str(), &st) == 0;
                bool made = ke::file::CreateDirectory(p.c_str(), mode);
                out += num(made) + num(ke::file::IsDirectory(p.c_str())) + num(ke::file::IsFile(p.c_str())) + num(ke::file::PathExists((p + "/x").c_str()));
                if (!was && (stat(p.c_str(), &st) != 0 || (st.st_mode & 0777) != (mode & ~(unsigned)kUmask)))
                    out += "wrong mode " + num(++wrong);  // never equal
            }
            for (int i = 0; i < 4; i++)
                rmdir((root + "/" + num((uint64_t)i)).c_str());
            rmdir(root.c_str());
            break;
        }
        default: {
            ke::args::Parser p("the help");
            if (r.coin())
                p.enable_inline_values();
            p.collect_extra_args();
            p.allow_passthrough_args();
            ke::args::IntOption n(p, "n", "num", ke::Some(4), "A number for the program.");
            ke::args::ToggleOption t(p, "t", "tog", ke::Some(false), "Switches something on that is off.");
            ke::args::StringOption s(p, "s", "str", {}, "Some text.");
            ke::args::StringOption pos(p, "file", "The file to read.");
            std::vector<std::string> args;
            for (int i = (int)r.below(7); i > 0; i--) {
                static const char* const pool[] = {"-n", "17", "--num=3", "-t", "--no-tog", "-s", "text", "a.cpp", "--", "-n5", "--str=x", "-x", "b"};
                args.push_back(pool[r.below(13)]);
            }
            out = num(p.parse(args)) + num((uint64_t)n.value()) + num(t.value()) + (s.hasValue() ? s.value() : "-") + (pos.hasValue() ? pos.value() : "-");
            for (auto& x : p.extra_args())
                out += "," + x;
            for (auto& x : p.passthrough_args())
                out += ";" + x;
            char* text = nullptr;
            size_t size = 0;
            FILE* f = open_memstream(&text, &size);
            std::vector<char*> argv;
            std::string prog = "prog";
            argv.push_back(&prog[0]);
            for (auto& a : args)
                argv.push_back(&a[0]);
            argv.push_back(nullptr);
            p.usage(f, (int)argv.size() - 1, argv.data());
            fclose(f);
            out.append(text, size);
            free(text);
            p.reset();
            out += num(p.parse(std::vector<std::string>{"q"}));
            break;
        }
    }
    return out;
}
struct Task {
    unsigned kind;
    uint64_t seed;
};
// Threads with objects of their own. The expected results come from a thread that is alone: half of the time before
// the others have run, half of the time after (so that nothing has been set up for them).
static void apart(vm::Case& c, int nt, unsigned per_thread) {
    std::vector<Task> tasks;
    unsigned kinds = 1 + (unsigned)c.rng.below(3);  // few kinds: more of them at the same time
    unsigned pick[3];
    for (auto& k : pick)
        k = (unsigned)c.rng.below(kOwnKinds);
    if (c.rng.chance(1, 3))
        kinds = 0;
    for (unsigned i = 0; i < 24; i++)
        tasks.push_back({kinds ? pick[c.rng.below(kinds)] : (unsigned)c.rng.below(kOwnKinds), c.rng.next()});
    std::vector<std::string> want(tasks.size());
    auto alone = [&] {
        for (size_t i = 0; i < tasks.size(); i++)
            want[i] = own(tasks[i].kind, Rng(tasks[i].seed));
    };
    bool first = c.rng.coin();
    if (first)
        alone();
    struct Out {
        std::vector<std::pair<size_t, std::string>> got;
    };
    std::vector<Out> outs((size_t)nt);
    uint64_t seed = c.rng.next();
    conc::Gate gate;
    conc::threads(nt, [&](int t) {
        Rng r(seed + (uint64_t)t);
        gate.arrive(nt);
        for (unsigned i = 0; i < per_thread; i++) {
            size_t k = (size_t)r.below(tasks.size());
            outs[(size_t)t].got.emplace_back(k, own(tasks[k].kind, Rng(tasks[k].seed)));
        }
    });
    if (!first)
        alone();
    uint64_t n = 0;
    for (auto& o : outs) {
        for (auto& g : o.got) {
            VM_CHECK(c, g.second == want[g.first], "result", "operations of kind %u with things of their own give \"%.120s\" in a thread among others, \"%.120s\" alone", tasks[g.first].kind,
                     g.second.c_str(), want[g.first].c_str());
            n++;
        }
    }
    for (auto& t : tasks)
        c.sig(t.kind);
    c.nontrivial();
    VM_COUNT("own_operations", n);
    VM_COUNT("thread_groups", 1);
}
// The very first uses in a process are the ones of threads: whatever is set up on first use is set up by them. This
// needs a process of its own, which runs before main() does anything.
struct FirstUse {
    FirstUse() {
        umask(kUmask);
        const char* e = getenv("VM_FIRST_USE");
        if (!e)
            return;
        unsigned kind = 0;
        unsigned long long seed = 0;
        sscanf(e, "%u:%llu", &kind, &seed);
        const int nt = 3;
        std::string got[nt][6];
        {
            conc::Gate gate;
            conc::threads(nt, [&](int t) {
                gate.arrive(nt);
                for (unsigned i = 0; i < 6; i++)
                    got[t][i] = own(kind, Rng(seed + i));
            });
        }
        for (unsigned i = 0; i < 6; i++) {
            std::string want = own(kind, Rng(seed + i));
            for (auto& g : got) {
                if (g[i] != want) {
                    fprintf(stderr, "kind %u: \"%.200s\" in a thread among others, \"%.200s\" alone\n", kind, g[i].c_str(), want.c_str());
                    _exit(3);
                }
            }
        }
        _exit(0);
    }
};

SCENARIO(first_use, kOwnKinds, kOwnKinds * 10, vm::kNoLeakCheck) {
    unsigned kind = (unsigned)(c.index % kOwnKinds);
    char env[80];
    snprintf(env, sizeof(env), "%u:%llu", kind, (unsigned long long)(c.rng.next() >> 1));
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        setenv("VM_FIRST_USE", env, 1);
        execl("/proc/self/exe", "first_use", (char*)nullptr);
        _exit(127);
    }
    int st = -1;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    VM_CHECK(c, WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 127), "first-use", "threads whose operations of kind %u with things of their own are the first of the process: status 0x%x", kind,
             (unsigned)st);
    if (WEXITSTATUS(st) == 0)
        VM_COUNT("first_uses", 1);
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(own_objects, 500, 20000, 0) { apart(c, 2 + (int)c.rng.below(3), 30); }
SCENARIO(own_objects_each_kind, kOwnKinds * 4, kOwnKinds * 40, 0) {
    // Every kind of operation against itself, not set up before.
    unsigned kind = (unsigned)(c.index % kOwnKinds);
    uint64_t seed = c.rng.next();
    const int nt = 3;
    std::vector<std::string> got[nt];
    conc::Gate gate;
    conc::threads(nt, [&](int t) {
        gate.arrive(nt);
        for (unsigned i = 0; i < 12; i++)
            got[t].push_back(own(kind, Rng(seed + (i + (unsigned)t) % 12)));
    });
    for (unsigned i = 0; i < 12; i++) {
        std::string want = own(kind, Rng(seed + i));
        for (int t = 0; t < nt; t++) {
            const std::string& g = got[t][(i + 12 - (unsigned)t) % 12];
            VM_CHECK(c, g == want, "result", "operations of kind %u with things of their own give \"%.120s\" in a thread among others, \"%.120s\" alone", kind, g.c_str(), want.c_str());
        }
    }
    VM_COUNT("own_operations", 36);
    c.sig(c.index);
    c.nontrivial();
}

// Copies, made beforehand, of one original: each thread changes its own.
SCENARIO(handed_copies, 200, 8000, 0) {
    const int nt = 3;
    std::string w = word(c.rng, 40);
    struct Tally {
        mutable std::string text;
        mutable int n;
        int operator()(int k) const {
            n += k;
            text += "x";
            return n + (int)text.size();
        }
    };
    struct Kit {
        ke::Function<int(int)> small, big;
        ke::FixedArray<std::string> array;
        ke::Maybe<std::string> maybe;
        ke::Flags<Bit> flags;
        explicit Kit(const std::string& w)
         : big(nullptr), array(4), maybe(ke::Some(w)), flags(Bit::a)
        {}
    };
    int start = (int)c.rng.below(100);
    Kit kit(w);
    const int* keep = new int(start);  // something that copies of the small callable share by pointer, read only
    struct Sum {
        mutable int n;
        const int* at;
        int operator()(int k) const { return n += k + *at - *at; }
    };
    kit.small = Sum{start, keep};
    Tally tally = {w, start};
    kit.big = tally;
    for (auto& s : kit.array)
        s = w;
    std::vector<Kit> kits((size_t)nt + 1, kit);
    conc::Gate gate;
    auto use = [&](Kit& k, int t) -> std::string {
        std::string out;
        for (int i = 0; i < 8; i++) {
            out += num((uint64_t)k.small(t + i)) + "," + num((uint64_t)k.big(t + i)) + ",";
            k.array[(size_t)(i % 4)] += num((uint64_t)t);
            *k.maybe += "m";
            k.flags += Bit::b;
            if (i == 4) {
                ke::Function<int(int)> f(std::move(k.small)), g(k.big);
                k.small = f;
                out += num((uint64_t)g(1)) + "/";
            }
            if (i == 6)
                k.flags -= Bit::a;
        }
        for (auto& s : k.array)
            out += s;
        return out + *k.maybe + num(k.flags.bits());
    };
    std::string got[nt];
    conc::threads(nt, [&](int t) {
        gate.arrive(nt);
        got[t] = use(kits[(size_t)t], t);
    });
    for (int t = 0; t < nt; t++) {
        Kit alone(kit);
        std::string want = use(alone, t);
        VM_CHECK(c, got[t] == want, "copies", "a thread with a copy of its own gets \"%.150s\", alone \"%.150s\"", got[t].c_str(), want.c_str());
    }
    VM_CHECK(c, kit.small(0) == start && kit.array[0] == w && *kit.maybe == w && kit.flags.bits() == 1, "copies", "the original changed with its copies");
    delete keep;
    VM_COUNT("handed_copies", nt);
    c.sig(vm::hash_str(w.c_str()));
    c.nontrivial();
}

// ---- one object, and threads that only read it ----------------------------------------------------
template <typename F>
static void readers(vm::Case& c, F read) {
    int nt = 2 + (int)c.rng.below(3);
    uint64_t seed = c.rng.next();
    conc::Gate gate;
    conc::threads(nt, [&](int t) {
        Rng r(seed + (uint64_t)t);
        gate.arrive(nt);
        read(r);
    });
    VM_COUNT("reader_threads", nt);
    c.nontrivial();
}
template <typename Map>
static void read_map(vm::Case& c, size_t initial) {
    Map m;
    m.init(initial);
    std::map<int, std::string> model;
    int range = 1 + (int)c.rng.below(300);
    for (int i = (int)c.rng.below(400); i > 0; i--) {
        int k = (int)c.rng.below((uint64_t)range);
        if (c.rng.chance(1, 3)) {
            m.removeIfExists(k);
            model.erase(k);
        } else {
            auto a = m.findForAdd(k);
            if (!a.found()) {
                m.add(a, k, num((uint64_t)i));
                model[k] = num((uint64_t)i);
            }
        }
    }
    const Map& cm = m;
    readers(c, [&](Rng& r) {
        for (int i = 0; i < 60; i++) {
            int k = (int)r.below((uint64_t)range + 3);
            auto f = cm.find(k);
            auto w = model.find(k);
            if (f.found() != (w != model.end()) || (f.found() && (f->value != w->second || f->key != k)))
                vm::fail("shared-read", "find(%d) on a shared map finds something else than it does alone", k);
        }
        if (cm.elements() != model.size())
            vm::fail("shared-read", "elements() of a shared map is %zu, not %zu", cm.elements(), model.size());
        size_t mem = cm.estimateMemoryUse();
        size_t n = 0;
        for (auto i = m.iter(); !i.empty(); i.next(), n++) {
            auto w = model.find(i->key);
            if (w == model.end() || w->second != i->value)
                vm::fail("shared-read", "a walk over a shared map meets the key %d", i->key);
        }
        if (n != model.size() || mem != cm.estimateMemoryUse())
            vm::fail("shared-read", "a walk over a shared map meets %zu entries of %zu", n, model.size());
    });
    VM_COUNT("shared_maps", 1);
    c.sig(model.size());
}
SCENARIO(shared_map, 150, 6000, 0) { read_map<ke::HashMap<int, std::string, IntHash>>(c, (size_t)16 << c.rng.below(4)); }
SCENARIO(shared_set, 100, 4000, 0) {
    ke::HashSet<std::string, StrHash> s;
    s.init();
    std::set<std::string> model;
    for (int i = (int)c.rng.below(200); i > 0; i--) {
        std::string k = num(c.rng.below(100));
        if (c.rng.chance(1, 3)) {
            s.removeIfExists(k);
            model.erase(k);
        } else {
            s.add(k);
            model.insert(k);
        }
    }
    const auto& cs = s;
    readers(c, [&](Rng& r) {
        for (int i = 0; i < 60; i++) {
            std::string k = num(r.below(110));
            if (s.has(k) != (model.count(k) != 0) || s.find(k).found() != s.has(k))
                vm::fail("shared-read", "has(%s) on a shared set is %d", k.c_str(), (int)s.has(k));
        }
        if (cs.elements() != model.size())
            vm::fail("shared-read", "elements() of a shared set");
    });
    VM_COUNT("shared_sets", 1);
    c.sig(model.size());
}
SCENARIO(shared_sequences, 150, 6000, 0) {
    Item items[10];
    ke::InlineList<Item> list;
    int n = (int)c.rng.below(10);
    for (int i = 0; i < n; i++) {
        items[i].v = i;
        list.append(&items[i]);
    }
    ke::PriorityQueue<std::string, std::greater<std::string>> q;
    std::string top;  // nothing is read before the threads do
    for (int i = 1 + (int)c.rng.below(20); i > 0; i--) {
        std::string w = word(c.rng, 30);
        if (top < w)
            top = w;
        q.add(w);
    }
    ke::FixedArray<std::string> a((size_t)c.rng.below(20));
    size_t total = 0;
    for (auto& s : a)
        total += (s = word(c.rng, 40)).size();
    const auto& ca = a;
    readers(c, [&](Rng& r) {
        for (int i = 0; i < 10; i++) {
            int k = 0;
            for (auto it = list.begin(); it != list.end(); ++it, k++) {
                if (it->v != k || !it->isInList())
                    vm::fail("shared-read", "a walk over a shared list");
            }
            for (auto it = list.rbegin(); it != list.rend(); it++)
                k--;
            if (k || list.length() != (size_t)n || list.empty() != (n == 0) || items[9].isInList())
                vm::fail("shared-read", "a shared list of %d nodes", n);
            if (q.empty() || q.peek() != top)
                vm::fail("shared-read", "peek() on a shared queue");
            size_t sum = 0;
            for (auto& s : ca)
                sum += s.size();
            for (size_t j = 0; j < ca.size(); j++)
                sum -= ca[j].size();
            if (sum || !(ca == a) || ca != a || !ca.initialize())
                vm::fail("shared-read", "a shared array");
            if (r.coin()) {
                ke::FixedArray<std::string> copy(ca);
                size_t got = 0;
                for (size_t j = 0; j < copy.size(); j++)
                    got += copy.at(j).size();
                if (got != total || copy != ca)
                    vm::fail("shared-read", "a copy of a shared array");
            }
        }
    });
    VM_COUNT("shared_sequences", 1);
    c.sig((uint64_t)n * 100 + a.size());
}
SCENARIO(shared_values, 200, 8000, 0) {
    std::string w = word(c.rng, 60);
    std::vector<int> big(40, (int)c.rng.below(100));
    const ke::Function<std::string(int)> f([w](int k) { return w + num((uint64_t)k); });
    const bool g_sum = c.rng.coin();
    const ke::Function<std::string(int)> g(g_sum ? ke::Function<std::string(int)>([w, big](int k) { return w + num((uint64_t)(k + big[3])); }) : f);
    const ke::Function<void()> none;
    std::string g3 = g_sum ? w + num((uint64_t)(3 + big[3])) : w + "3";
    ke::Maybe<std::string> full = ke::Some(w), empty;
    const auto &cf = full, &ce = empty;
    const ke::RefPtr<Counted> p(new Counted(w));
    ke::Flags<Bit> flags(Bit::a);
    flags += Bit::d;
    const auto& cflags = flags;
    readers(c, [&](Rng& r) {
        for (int i = 0; i < 20; i++) {
            int k = (int)r.below(100);
            if (f(k) != w + num((uint64_t)k) || g(3) != g3 || none)
                vm::fail("shared-read", "a call of a shared function");
            if (r.chance(1, 4)) {
                ke::Function<std::string(int)> own_f(f), own_g(g), own_n;
                if (own_f(1) != w + "1" || own_g(3) != g3 || own_f.usingInlineStorage() != f.usingInlineStorage())
                    vm::fail("shared-read", "a copy of a shared function");
                own_n = own_g;
                if (own_n(3) != g3)
                    vm::fail("shared-read", "a copy of a copy of a shared function");
            }
            if (!cf || !cf.isValid() || *cf != w || cf.get() != w || cf->size() != w.size() || ce)
                vm::fail("shared-read", "a shared Maybe");
            if (r.chance(1, 4)) {
                ke::Maybe<std::string> m(cf), e(ce);
                e = cf;
                if (*m != w || *e != w)
                    vm::fail("shared-read", "a copy of a shared Maybe");
            }
            if (!p || p->text != w || p == nullptr)
                vm::fail("shared-read", "a shared reference");
            if (!(cflags == flags) || cflags.bits() != 0x8001 || !cflags)
                vm::fail("shared-read", "shared flags");
        }
    });
    VM_COUNT("shared_values", 1);
    c.sig(vm::hash_str(w.c_str()));
}
SCENARIO(shared_parser, 60, 2000, 0) {
    // The values that were parsed, and a library.
    ke::args::Parser p("help");
    p.collect_extra_args();
    ke::args::IntOption n(p, "n", "num", ke::Some(4), "A number.");
    ke::args::StringOption s(p, "s", "str", {}, "Text.");
    ke::args::RepeatOption<std::string> rep(p, "r", "rep", "Texts.");
    std::string text = "x" + word(c.rng, 30);
    int k = (int)c.rng.below(1000);
    std::vector<std::string> args{"-n", num((uint64_t)k), "-s", text, "extra"};
    size_t reps = (size_t)c.rng.below(4);
    for (size_t i = 0; i < reps; i++) {
        args.push_back("-r");
        args.push_back(num(i));
    }
    VM_CHECK(c, p.parse(args), "parse", "a command line is refused");
    ke::RefPtr<ke::SharedLib> lib = ke::SharedLib::Open("libm.so.6");
    void* handle = dlopen("libm.so.6", RTLD_NOW);
    void* sym = handle ? dlsym(handle, "cos") : nullptr;
    readers(c, [&](Rng& r) {
        for (int i = 0; i < 10; i++) {
            if (n.value() != k || !s.hasValue() || s.value() != text || rep.values().size() != reps || (reps && rep.values()[0] != "0") || p.extra_args().size() != 1)
                vm::fail("shared-read", "the values of a shared parser");
            if (lib && (!lib->valid() || lib->lookup("cos") != sym || lib->lookup(r.coin() ? "no_such_symbol" : "neither")))
                vm::fail("shared-read", "a lookup in a shared library");
        }
    });
    if (handle)
        dlclose(handle);
    VM_COUNT("shared_parsers", 1);
    c.sig(c.index);
}

static FirstUse first_use_only;
