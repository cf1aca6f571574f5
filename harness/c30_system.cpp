// C30: file tests, shared libraries and system errors report the true OS state.
// Everything happens in a scratch directory ($VM_SCRATCH) that the driver removes.
#include <amtl/os/am-fsutil.h>
#include "vm.h"

#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>
#include <dlfcn.h>
#include <grp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <memory>

static const std::string& scratch() {
    static std::string* s = nullptr;
    if (!s) {
        vm::NoCount nc;
        const char* e = getenv("VM_SCRATCH");
        char tmpl[] = "/tmp/vm_c30_XXXXXX";
        s = new std::string(std::string(e && *e ? e : mkdtemp(tmpl)) + "/fs" + std::to_string(getpid()));
        if (e)
            chmod(e, 0755);
        mkdir(s->c_str(), 0755);
        chmod(s->c_str(), 0755);
    }
    return *s;
}

// --- file tests ------------------------------------------------------------------------------
struct Truth {
    bool exists, file, dir;
};
// Through another system call than the code under test uses.
static Truth truth(const std::string& p) {
    Truth t = {false, false, false};
    int fd = open(p.c_str(), O_PATH | O_CLOEXEC);
    if (fd < 0)
        return t;
    struct stat st;
    if (fstat(fd, &st) == 0) {
        t.exists = true;
        t.file = (st.st_mode & S_IFMT) == S_IFREG;
        t.dir = (st.st_mode & S_IFMT) == S_IFDIR;
    }
    close(fd);
    return t;
}
static void check_path(vm::Case& c, const std::string& p) {
    std::unique_ptr<char[]> exact(new char[p.size() + 1]);
    memcpy(exact.get(), p.c_str(), p.size() + 1);
    Truth t = truth(p);
    bool e = ke::file::PathExists(exact.get()), f = ke::file::IsFile(exact.get()), d = ke::file::IsDirectory(exact.get());
    VM_CHECK(c, e == t.exists, "path-exists", "PathExists(\"%s\") is %d", p.substr(0, 300).c_str(), e);
    VM_CHECK(c, f == t.file, "is-file", "IsFile(\"%s\") is %d", p.substr(0, 300).c_str(), f);
    VM_CHECK(c, d == t.dir, "is-directory", "IsDirectory(\"%s\") is %d", p.substr(0, 300).c_str(), d);
    VM_COUNT("paths", 1);
    if (t.file) VM_COUNT("files", 1);
    else if (t.dir) VM_COUNT("directories", 1);
    else if (t.exists) VM_COUNT("other_kinds", 1);
    else VM_COUNT("missing", 1);
    c.sig(vm::hash_str(p.c_str()) * 4 + t.file * 2 + t.dir);
}
static void make_socket(const std::string& p) {
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    if (s < 0)
        return;
    struct sockaddr_un a;
    memset(&a, 0, sizeof(a));
    a.sun_family = AF_UNIX;
    if (p.size() < sizeof(a.sun_path)) {
        strcpy(a.sun_path, p.c_str());
        if (bind(s, (struct sockaddr*)&a, sizeof(a))) {
        }
    }
    close(s);
}
static int g_serial;
// A random tree; returns the names made in it, relative to the root.
static std::vector<std::string> grow(vm::Case& c, const std::string& root) {
    std::vector<std::string> dirs = {""}, all;
    unsigned n = 6 + (unsigned)c.rng.below(20);
    for (unsigned i = 0; i < n; i++) {
        std::string name = dirs[c.rng.below(dirs.size())] + "/n" + std::to_string(i);
        std::string p = root + name;
        switch (c.rng.below(10)) {
            case 0: case 1:
                mkdir(p.c_str(), c.rng.coin() ? 0755 : 0);
                dirs.push_back(name);
                break;
            case 2: case 3: {
                int fd = open(p.c_str(), O_CREAT | O_WRONLY, c.rng.coin() ? 0644 : 0);
                if (fd >= 0) {
                    if (c.rng.chance(1, 6) && ftruncate(fd, 6ll << 30)) {
                    }
                    close(fd);
                }
                break;
            }
            case 4: case 5: case 6: {  // a link: to something there, to itself, or to nothing
                std::string to;
                switch (c.rng.below(7)) {
                    case 0: to = "nowhere"; break;
                    case 1: to = p; break;
                    case 2: to = "/dev/null"; break;
                    case 3: to = "."; break;
                    case 4: to = "/proc/self/fd/1"; break;
                    default: to = all.empty() ? "x" : root + all[c.rng.below(all.size())]; break;
                }
                if (symlink(to.c_str(), p.c_str())) {
                }
                break;
            }
            case 7: mkfifo(p.c_str(), 0644); break;
            case 8: make_socket(p); break;
            default: {
                if (!all.empty() && link((root + all[c.rng.below(all.size())]).c_str(), p.c_str())) {
                }
                break;
            }
        }
        all.push_back(name);
    }
    return all;
}
static std::string remove_tree(const std::string& root) {  // only ever below scratch()
    std::string cmd = "rm -rf '" + root + "'";
    if (root.compare(0, scratch().size() + 1, scratch() + "/") == 0 && system(cmd.c_str())) {
    }
    return cmd;
}
static std::vector<std::string> variants(const std::string& root, const std::vector<std::string>& names) {
    std::vector<std::string> ps = {"", "/", ".", "..", "/dev/null", "/dev", "/nonexistent/x", root, root + "/", root + "//.", "/dev/null/x", root + "/" + std::string(300, 'n'), std::string(5000, '/') , root + "/" + std::string(5000, 'a')};
    for (auto& n : names) {
        std::string p = root + n;
        ps.push_back(p);
        ps.push_back(p + "/");
        ps.push_back(p + "/.");
        ps.push_back(p + "/..");
        ps.push_back(p + "/none");
        ps.push_back(p + "x");
        ps.push_back(root + "/." + n);
    }
    return ps;
}
SCENARIO(trees, 160, 4000, vm::kNoLeakCheck) {
    std::string root = scratch() + "/t" + std::to_string(g_serial++);
    mkdir(root.c_str(), 0755);
    auto names = grow(c, root);
    auto ps = variants(root, names);
    for (auto& p : ps)
        check_path(c, p);
    // Relative to a working directory.
    if (chdir(root.c_str()) == 0) {
        for (auto& n : names) {
            check_path(c, n.substr(1));
            check_path(c, "./" + n.substr(1) + "/../" + n.substr(1));
        }
        if (chdir("/")) {
        }
    }
    // As somebody who may not look into every directory.
    if (geteuid() == 0 && c.rng.chance(1, 2)) {
        int st = vm::in_child([&] {
            if (setgroups(0, nullptr) || setgid(65534) || setuid(65534))
                _exit(0);
            bool hidden = false;
            for (auto& p : ps) {
                check_path(c, p);
                struct stat s;
                hidden |= lstat(p.c_str(), &s) != 0 && errno == EACCES;
            }
            _exit(hidden ? 42 : 41);
        }, false);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 70)
            _exit(70);
        VM_CHECK(c, WIFEXITED(st), "unprivileged", "looking at files as another user ends with status %x", st);
        if (WEXITSTATUS(st) == 42) VM_COUNT("trees_with_unreachable_paths", 1);
    }
    remove_tree(root);
    VM_COUNT("trees", 1);
    c.nontrivial();
}

SCENARIO(mkdirs, 120, 3000, vm::kNoLeakCheck) {
    std::string root = scratch() + "/m" + std::to_string(g_serial++);
    mkdir(root.c_str(), 0755);
    auto names = grow(c, root);
    for (int i = 0; i < 40; i++) {
        std::string p;
        switch (c.rng.below(5)) {
            case 0: p = root + names[c.rng.below(names.size())]; break;
            case 1: p = root + names[c.rng.below(names.size())] + "/d" + std::to_string(i); break;
            case 2: p = root + "/none/" + (c.rng.coin() ? "d" : "e/f"); break;
            case 3: p = root + "/d" + std::to_string(i) + "/"; break;
            default: p = root + "/d" + std::to_string(i); break;
        }
        if (c.rng.chance(1, 30))
            p = root + "/" + std::string(300, 'x');
        bool default_mode = c.rng.chance(1, 4);
        unsigned mode = default_mode ? 0755 : (unsigned)c.rng.below(c.rng.chance(1, 3) ? 02000 : 01000);  // the sticky bit, too
        mode_t mask = (mode_t)c.rng.below(01000);
        std::string bare = p;
        while (bare.size() > 1 && bare.back() == '/')
            bare.pop_back();
        struct stat before, after, up;
        bool was = lstat(bare.c_str(), &before) == 0;
        std::string parent = bare.substr(0, bare.rfind('/'));
        bool had_parent = lstat(parent.c_str(), &up) == 0;
        mode_t old = umask(mask);
        bool ok = default_mode ? ke::file::CreateDirectory(p.c_str()) : ke::file::CreateDirectory(p.c_str(), mode);
        umask(old);
        bool is = lstat(bare.c_str(), &after) == 0;
        VM_CHECK(c, had_parent == (lstat(parent.c_str(), &up) == 0), "parent", "CreateDirectory(\"%s\") %s its parent", p.c_str(), had_parent ? "removes" : "creates");
        VM_COUNT("missing_parents", !had_parent);
        if (ok) {
            VM_CHECK(c, !was && is && S_ISDIR(after.st_mode), "created", "CreateDirectory(\"%s\") claims to have created what %s", p.c_str(), was ? "was there before" : "is not there");
            VM_CHECK(c, (after.st_mode & 01777) == (mode & 01777 & ~mask), "mode", "CreateDirectory(\"%s\", %o) with umask %o gives mode %o", p.c_str(), mode, mask, after.st_mode & 07777);
            VM_COUNT("created", 1);
        } else {
            VM_CHECK(c, is == was, "created", "CreateDirectory(\"%s\") fails but creates something", p.c_str());
            if (was)
                VM_CHECK(c, before.st_ino == after.st_ino && before.st_mode == after.st_mode, "changed", "CreateDirectory(\"%s\") changes what was there", p.c_str());
            bool possible = access(bare.substr(0, bare.rfind('/')).c_str(), F_OK) == 0;
            if (!was && possible) {
                // It could not be made for a reason: it cannot be made now either.
                int rv = mkdir(p.c_str(), 0700);
                VM_CHECK(c, rv != 0, "not-created", "CreateDirectory(\"%s\") fails although the directory can be created", p.c_str());
            }
            VM_COUNT("not_created", 1);
        }
        c.sig(mode * 512 + mask + ok);
    }
    remove_tree(root);
    c.nontrivial();
}

// --- shared libraries ------------------------------------------------------------------------
static const int kLibs = 6;
struct Libs {
    std::string dir;
    std::string path[kLibs];
    std::string undefined, text, cut, directory, missing;
    bool ok = false;
};
static bool compile(const std::string& src, const std::string& out, const char* extra) {
    std::string c = out + ".c";
    FILE* f = fopen(c.c_str(), "w");
    if (!f)
        return false;
    fputs(src.c_str(), f);
    fclose(f);
    // -z lazy: whether undefined functions are found at once is up to dlopen()'s caller.
    std::string cmd = std::string("gcc -shared -fPIC -O1 ") + extra + " -o '" + out + "' '" + c + "' > /dev/null 2>&1";
    return system(cmd.c_str()) == 0;
}
static Libs& libs() {
    static Libs* l = nullptr;
    if (l)
        return *l;
    vm::NoCount nc;
    l = new Libs;
    l->dir = scratch() + "/libs";
    mkdir(l->dir.c_str(), 0755);
    bool ok = true;
    // "common" is in every library; lib<i> also has one that only it has.
    for (int i = 0; i < kLibs; i++) {
        l->path[i] = l->dir + "/lib" + std::to_string(i) + ".so";
        char src[2000];
        snprintf(src, sizeof(src),
                 "static int n; int common(void) { return %d; } int only%d(int x) { return x + %d; }\n"
                 "int data = %d; const char name[] = \"lib%d\"; int next(void) { return ++n; }\n"
                 "static int hidden(void) { return 1; } int use(void) { return hidden(); } int malloc_like(void) { return 0; }\n",
                 1000 + i, i, i * 10, 77 + i, i);
        // Without the C library, so that no symbol of others is reached through it.
        ok &= compile(src, l->path[i], "-nostdlib");
    }
    l->undefined = l->dir + "/undefined.so";
    ok &= compile("extern int nobody_has_this(void); int common(void) { return nobody_has_this(); }", l->undefined, "-Wl,-z,lazy");
    l->text = l->dir + "/text.so";
    if (FILE* f = fopen(l->text.c_str(), "w")) {
        fputs("this is not a library, and a rather long text\n", f);
        fclose(f);
    }
    l->cut = l->dir + "/cut.so";
    std::string cmd = "head -c 200 '" + l->path[0] + "' > '" + l->cut + "'";
    ok &= system(cmd.c_str()) == 0;
    l->directory = l->dir;
    l->missing = l->dir + "/missing-" + std::string(120, 'm') + ".so";
    l->ok = ok;
    if (!ok)
        vm::fail("setup", "cannot build the libraries in %s", l->dir.c_str());
    return *l;
}
static bool loaded(const std::string& path) {
    void* h = dlopen(path.c_str(), RTLD_NOLOAD | RTLD_NOW);
    if (h)
        dlclose(h);
    return h != nullptr;
}
struct Buf {
    std::unique_ptr<char[]> p;
    size_t n;
    // With no room, strerror_r returns the buffer as it is; ASan's interceptor wants a terminator.
    explicit Buf(size_t limit) : p(new char[limit + (limit ? 1 : 2)]), n(limit) {
        memset(p.get(), 0x5d, limit + 1);
        if (!limit)
            p[1] = '\0';
    }
};
static void check_text(vm::Case& c, const char* what, const Buf& b, const std::string& full) {
    VM_CHECK(c, b.p[b.n] == 0x5d, "overrun", "%s writes past its limit of %zu", what, b.n);
    if (b.n == 0)
        return;
    std::string want = full.substr(0, b.n - 1);
    const char* end = (const char*)memchr(b.p.get(), 0, b.n);
    VM_CHECK(c, end != nullptr, "termination", "%s does not terminate its text (limit %zu)", what, b.n);
    VM_CHECK(c, want == b.p.get(), "text", "%s writes \"%s\", expected \"%s\" (limit %zu)", what, b.p.get(), want.c_str(), b.n);
}
SCENARIO(library_histories, 600, 20000, 0) {
    Libs& l = libs();
    ke::RefPtr<ke::SharedLib> refs[8];
    int holds[8];
    for (int& h : holds)
        h = -1;
    unsigned n = 20 + (unsigned)c.rng.below(40);
    for (unsigned i = 0; i < n; i++) {
        unsigned r = (unsigned)c.rng.below(8), s = (unsigned)c.rng.below(8), op = (unsigned)c.rng.below(7);
        int lib = (int)c.rng.below(kLibs);
        c.sig(op * 1000 + r * 100 + s * 10 + lib);
        switch (op) {
            case 0: case 1: {
                if (c.rng.coin()) {
                    refs[r] = ke::SharedLib::Open(l.path[lib].c_str());
                } else {
                    Buf b(c.rng.below(40));
                    refs[r] = ke::SharedLib::Open(l.path[lib].c_str(), b.p.get(), b.n);
                    VM_CHECK(c, b.p[b.n] == 0x5d, "overrun", "Open writes past its error buffer");
                }
                VM_CHECK(c, !!refs[r], "open", "Open fails on a good library");
                VM_CHECK(c, refs[r]->valid() && !!*refs[r], "open", "Open gives an invalid library");
                holds[r] = lib;
                VM_COUNT("opens", 1);
                break;
            }
            case 2: refs[r] = refs[s]; holds[r] = holds[s]; break;
            case 3: refs[r] = nullptr; holds[r] = -1; break;
            case 4:
                refs[r] = std::move(refs[s]);
                if (r != s) {
                    holds[r] = holds[s];
                    holds[s] = -1;
                    refs[s] = nullptr;
                } else {
                    holds[r] = refs[r] ? holds[r] : -1;
                }
                break;
            case 5: {  // through the other constructors
                if (c.rng.coin())
                    refs[r] = new ke::SharedLib(l.path[lib].c_str());
                else
                    refs[r] = new ke::SharedLib(dlopen(l.path[lib].c_str(), RTLD_NOW));
                holds[r] = lib;
                break;
            }
            default: {  // failures leave all as it is
                const std::string* bad[] = {&l.undefined, &l.text, &l.cut, &l.directory, &l.missing};
                const std::string& path = *bad[c.rng.below(5)];
                ke::RefPtr<ke::SharedLib> none = ke::SharedLib::Open(path.c_str());
                VM_CHECK(c, !none, "open-bad", "Open gives a library for %s", path.c_str());
                VM_CHECK(c, !loaded(path), "open-bad", "%s is loaded after Open failed", path.c_str());
                VM_COUNT("failed_opens", 1);
                break;
            }
        }
        for (int k = 0; k < kLibs; k++) {
            bool want = false;
            for (int h : holds)
                want |= h == k;
            bool is = loaded(l.path[k]);
            VM_CHECK(c, is == want, is ? "still-loaded" : "unloaded", "library %d is %s although %s reference to it exists", k, is ? "loaded" : "not loaded", want ? "a" : "no");
            VM_COUNT("load_states", 1);
        }
        if (holds[r] >= 0) {
            int k = holds[r];
            typedef int (*Fn)(void);
            typedef int (*Fn1)(int);
            Fn f = refs[r]->get<Fn>("common");
            VM_CHECK(c, f && f() == 1000 + k, "lookup", "lookup of a function in library %d finds another library's", k);
            char only[32];
            snprintf(only, sizeof(only), "only%d", k);
            Fn1 g = refs[r]->get<Fn1>(only);
            VM_CHECK(c, g && g(5) == k * 10 + 5, "lookup", "lookup does not find %s", only);
            int* d = refs[r]->get<int*>("data");
            VM_CHECK(c, d && *d == 77 + k, "lookup", "lookup finds wrong data");
            VM_CHECK(c, refs[r]->lookup("name") && strcmp((const char*)refs[r]->lookup("name"), refs[r]->get<const char*>("name")) == 0, "lookup", "lookup finds wrong data");
            for (int j = 0; j < kLibs; j++) {
                if (j == k)
                    continue;
                snprintf(only, sizeof(only), "only%d", j);
                VM_CHECK(c, refs[r]->lookup(only) == nullptr && refs[r]->get<Fn1>(only) == nullptr, "lookup-foreign", "lookup in library %d finds a symbol of library %d", k, j);
            }
            for (const char* no : {"hidden", "nothing", "", "Common", "commo", "common1", "main", "getenv", "strlen", "_ZSt4cout"})
                VM_CHECK(c, refs[r]->lookup(no) == nullptr && refs[r]->get<Fn>(no) == nullptr, "lookup-foreign", "lookup finds \"%s\"", no);
            VM_COUNT("lookups", 1);
        }
    }
    ke::SharedLib empty;
    VM_CHECK(c, !empty.valid() && !empty, "empty", "an empty SharedLib is valid");
    for (auto& r : refs)
        r = nullptr;
    for (int k = 0; k < kLibs; k++)
        VM_CHECK(c, !loaded(l.path[k]), "still-loaded", "library %d is loaded after all references are gone", k);
    c.nontrivial();
}
SCENARIO(open_errors, 60, 600, vm::kNoLeakCheck) {
    Libs& l = libs();
    const std::string* bad[] = {&l.undefined, &l.text, &l.cut, &l.directory, &l.missing};
    std::string path = *bad[c.index % 5];
    if (&l.missing == bad[c.index % 5]) {  // the name is part of the text
        static const char* const odd[] = {"%s", "%d%s%n", "%", "%%", "\n", "\t", "\\", " ", "\xc3\xa9", "\xff", ".so", "lib", "x"};
        for (size_t i = c.rng.below(c.rng.chance(1, 4) ? 60 : 6); i; i--)
            path += odd[c.rng.below(sizeof(odd) / sizeof(*odd))];
        VM_COUNT("odd_library_names", 1);
    }
    void* h = dlopen(path.c_str(), RTLD_NOW);
    VM_CHECK(c, h == nullptr, "setup", "%s can be loaded", path.c_str());
    std::string want = dlerror();
    for (int i = 0; i < 40; i++) {
        size_t limit = c.rng.below(want.size() + 20);
        if (i < 6)
            limit = i;
        else if (i < 12)
            limit = want.size() + i - 9;
        Buf b(limit);
        ke::RefPtr<ke::SharedLib> none = ke::SharedLib::Open(path.c_str(), b.p.get(), limit);
        VM_CHECK(c, !none, "open-bad", "Open gives a library for %s", path.c_str());
        check_text(c, "SharedLib::Open", b, want);
        none = ke::SharedLib::Open(path.c_str(), nullptr, limit);
        VM_CHECK(c, !none, "open-bad", "Open gives a library for %s", path.c_str());
        VM_COUNT("open_error_texts", 1);
        c.sig(limit);
    }
    c.nontrivial();
}

// --- system errors ---------------------------------------------------------------------------
static std::string text_of(int code) {
    const char* s = strerrordesc_np(code);
    return s ? s : "Unknown error " + std::to_string(code);
}
static void check_error(vm::Case& c, int code, size_t limit) {
    std::string want = text_of(code);
    {
        Buf b(limit);
        ke::FormatSystemErrorCode(code, b.p.get(), limit);
        check_text(c, "FormatSystemErrorCode", b, want);
    }
    {
        Buf b(limit);
        errno = code;
        ke::FormatSystemError(b.p.get(), limit);
        check_text(c, "FormatSystemError", b, want);
    }
    VM_COUNT("error_texts", 1);
    if (want.size() >= limit) VM_COUNT("error_texts_cut", 1);
    if (want.compare(0, 8, "Unknown ") == 0) VM_COUNT("unknown_errors", 1);
    c.sig((uint64_t)code * 1000 + limit);
}
SCENARIO(errors, 160, 160, vm::kNoLeakCheck) {
    int code = (int)c.index - 10;
    for (size_t limit = 0; limit < 80; limit++)
        check_error(c, code, limit);
    for (int i = 0; i < 20; i++) {
        int big = (int)(uint32_t)c.rng.wide();
        check_error(c, c.rng.coin() ? big : (int)(0 - (unsigned)big), c.rng.below(60));
    }
    c.nontrivial();
}
