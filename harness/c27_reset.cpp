// C27: a reset parser behaves like a new one, however it is called.
#include "argparse_common.h"
using namespace ap;

#if defined(STATIC)
// Options that register themselves before any parser exists, as globals would.
static std::vector<OptSpec> g_static_specs;
static std::vector<IOption*> g_static_opts;
static Spec g_dummy;
static void make_statics() {
    if (!g_static_opts.empty())
        return;
    vm::NoCount nc;
    struct { Kind k; const char* s; const char* l; bool d; const char* def; } t[] = {
        {kToggle, "st", "static-toggle", true, "true"}, {kEnable, "se", "static-enable", true, "true"},
        {kString, "ss", "static-string", true, "dflt"}, {kInt, "si", "static-int", false, ""},
        {kRepString, "sr", "static-rep", false, ""}, {kStop, "sv", "static-stop", false, ""},
        {kBool, "sb", nullptr, false, ""}, {kPosString, nullptr, "static-pos", false, ""}};
    Built* b = new Built(g_dummy);  // kept: owns the strings
    b->strings.reserve(100);
    for (auto& e : t) {
        OptSpec o;
        o.kind = e.k;
        o.shrt = e.s ? e.s : "";
        o.lng = e.l ? e.l : "";
        o.has_default = e.d;
        o.def = e.def;
        o.help = "static help";
        o.is_static = true;
        g_static_specs.push_back(o);
        g_static_opts.push_back(b->create(o));
    }
}
static std::vector<OptSpec>* statics() { make_statics(); return &g_static_specs; }
static std::vector<IOption*>* static_opts() { return &g_static_opts; }
#else
static std::vector<OptSpec>* statics() { return nullptr; }
static std::vector<IOption*>* static_opts() { return nullptr; }
#endif

struct Seen {
    State st;
    std::string usage;
};
static Seen observe(vm::Case& c, Built& b, const std::vector<std::string>& args, int way) {
    Seen s;
    bool ok = b.parse(args, way);
    s.st = b.state(c, ok);
    s.usage = b.usage({});  // shows the error, if there is one
    return s;
}
static void compare_seen(vm::Case& c, const char* what, const Spec& sp, const std::vector<std::string>& args, const Seen& got, const Seen& want) {
    compare(c, what, sp, args, got.st, want.st, true, "as a new parser does");
    VM_CHECK(c, got.usage == want.usage, "error-text", "%s: usage() after %s writes \"%s\", a new parser \"%s\", with %s", what, list(args).c_str(), got.usage.c_str(), want.usage.c_str(), show(sp).c_str());
}

SCENARIO(histories, 3000, 60000, 0) {
    Spec sp = random_spec(c.rng, 7, statics());
    if (c.tracing)
        c.log("%s", show(sp).c_str());
    {
        Built b(sp, static_opts());
        unsigned n = 4 + (unsigned)c.rng.below(8);
        bool had_error = false;
        for (unsigned i = 0; i < n; i++) {
            std::vector<std::string> args = random_args(c.rng, sp, c.rng.chance(1, 5) ? 60 : 6);
            int way = (int)c.rng.below(4);
            Seen want;
            {
                Built fresh(sp, static_opts());
                want = observe(c, fresh, args, (int)c.rng.below(4));
                fresh.parser->reset();
            }
            if (c.tracing)
                c.log("parse %s by way %d: %s", list(args).c_str(), way, want.st.ok ? "ok" : "rejected");
            Seen got = observe(c, b, args, way);
            compare_seen(c, "a reset parser", sp, args, got, want);
            Ref ref(sp);
            State rs = ref.state(args);
            compare(c, "parse()", sp, args, got.st, rs, false, ref.why);
            VM_COUNT("parses", 1);
            if (!got.st.ok) {
                had_error = true;
                VM_COUNT("failed_parses", 1);
            } else if (had_error) {
                VM_COUNT("successes_after_failures", 1);
            }
            if (!got.st.passthrough.empty()) VM_COUNT("with_passthrough", 1);
            if (!got.st.extra.empty()) VM_COUNT("with_extra", 1);
            for (auto& s : args)
                c.sig(vm::hash_str(s.c_str()));
            b.parser->reset();
            if (c.rng.chance(1, 3)) {  // after the reset: as if nothing was ever parsed
                State now = b.state(c, false);
                Built fresh(sp, static_opts());
                State clean = fresh.state(c, false);
                compare(c, "reset()", sp, {}, now, clean, true, "");
                std::string u1 = b.usage({}), u2 = fresh.usage({});
                VM_CHECK(c, u1 == u2, "reset-usage", "usage() after reset() writes \"%s\", a new parser \"%s\"", u1.c_str(), u2.c_str());
                VM_COUNT("reset_states", 1);
            }
            if (c.rng.chance(1, 8)) {
                b.parser->reset();
                VM_COUNT("double_resets", 1);
            }
        }
    }
    c.sig(vm::hash_str(show(sp).c_str()));
    c.nontrivial();
}

// The four ways of passing arguments, on new parsers.
SCENARIO(four_ways, 2000, 40000, 0) {
    Spec sp = random_spec(c.rng, 7, statics());
    for (int i = 0; i < 5; i++) {
        std::vector<std::string> args = random_args(c.rng, sp, c.rng.chance(1, 5) ? 60 : 6);
        if (args.size() > 64)
            args.resize(64);
        Seen first;
        for (int way = 0; way < 4; way++) {
            Built b(sp, static_opts());
            Seen s = observe(c, b, args, way);
            b.parser->reset();
            static const char* names[] = {"parse(argc, argv)", "parse(vector of char*)", "parse(vector of string)", "parsev()"};
            if (way == 0)
                first = s;
            else
                compare_seen(c, names[way], sp, args, s, first);
        }
        VM_COUNT("four_way_lists", 1);
        for (auto& s : args)
            c.sig(vm::hash_str(s.c_str()));
    }
    c.nontrivial();
}

// Memory over many parses and resets with long values: nothing may accumulate.
SCENARIO(accumulation, 60, 1000, 0) {
    Spec sp = random_spec(c.rng, 5, statics());
    OptSpec o;
    o.kind = kString;
    o.shrt = "str";
    o.help = "help";
    sp.opts.push_back(o);
    o.kind = kRepString;
    o.shrt = "rep";
    sp.opts.push_back(o);
    o.kind = kPosString;
    o.shrt = "";
    o.lng = "last";
    sp.opts.push_back(o);
    Built b(sp, static_opts());
    std::string big(300, 'q');
    int64_t blocks = 0;
    for (int i = 0; i < 40; i++) {
        std::vector<std::string> args = {"-str", big, "-rep", big, "-rep=" + big, big};
        b.parse(args, i & 3);
        b.usage({});
        b.parser->reset();
        int64_t now = vm::g_live_blocks.load();
        if (i == 3)
            blocks = now;
        if (i > 3)
            VM_CHECK(c, now <= blocks, "accumulation", "%" PRId64 " more heap blocks after %d parses and resets than after 4", now - blocks, i + 1);
        VM_COUNT("accumulation_rounds", 1);
    }
    c.sig(c.index);
    c.nontrivial();
}
