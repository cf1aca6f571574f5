// C26: argument parsing follows its grammar on every command line.
#include "argparse_common.h"
using namespace ap;

static void one(vm::Case& c, const Spec& sp, const std::vector<std::string>& args, int way) {
    Ref ref(sp);
    State want = ref.state(args);
    Built b(sp);
    bool ok = b.parse(args, way);
    if (c.tracing)
        c.log("%s -> %s (%s)", list(args).c_str(), ok ? "ok" : "rejected", ref.why.c_str());
    State got = b.state(c, ok);
    compare(c, "parse()", sp, args, got, want, false, ref.why);
    VM_COUNT("parses", 1);
    VM_COUNT("arguments", args.size());
    if (want.ok) {
        VM_COUNT("accepted", 1);
        if (!want.extra.empty()) VM_COUNT("accepted_with_extra", 1);
        if (!want.passthrough.empty()) VM_COUNT("accepted_with_passthrough", 1);
    } else {
        VM_COUNT("rejected", 1);
        if (ref.why == "help") VM_COUNT("rejected_help", 1);
        if (ref.why == "unknown --no- option") VM_COUNT("rejected_no_prefix", 1);
        if (ref.why == "unknown option") VM_COUNT("rejected_unknown", 1);
        if (ref.why == "repeated option") VM_COUNT("rejected_repeated", 1);
        if (ref.why == "missing positional") VM_COUNT("rejected_missing_positional", 1);
        if (ref.why == "missing value") VM_COUNT("rejected_missing_value", 1);
        if (ref.why == "bad value" || ref.why == "bad attached value" || ref.why == "bad positional") VM_COUNT("rejected_bad_value", 1);
        if (ref.why == "extra argument") VM_COUNT("rejected_extra", 1);
        if (ref.why == "value for a flag" || ref.why == "value for help") VM_COUNT("rejected_flag_value", 1);
    }
}

SCENARIO(random, 6000, 200000, 0) {
    Spec sp = random_spec(c.rng, 9);
    if (c.tracing)
        c.log("%s", show(sp).c_str());
    for (int i = 0; i < 20; i++) {
        std::vector<std::string> a = random_args(c.rng, sp, c.rng.chance(1, 12) ? 60 : 7);
        for (auto& s : a)
            c.sig(vm::hash_str(s.c_str()));
        one(c, sp, a, (int)c.rng.below(4));
    }
    c.sig(vm::hash_str(show(sp).c_str()));
    c.nontrivial();
}

// One option of each kind, and every list of up to three tokens of an alphabet that has every
// form of naming it, with and without positionals, in every combination of modes.
static const Kind kEach[] = {kToggle, kStop, kEnable, kString, kInt, kBool, kLevel, kRepString, kRepInt, kRepBool, kRepLevel};
SCENARIO(enumerated, 11 * 32, 11 * 32 * 3, 0) {
    Kind k = kEach[c.index % 11];
    unsigned m = (unsigned)(c.index / 11) % 32, variant = (unsigned)(c.index / (11 * 32));
    Spec sp;
    sp.with_help = true;
    sp.help = "help";
    sp.inline_values = m & 1;
    sp.slashes = m & 2;
    sp.extra = m & 4;
    sp.passthrough = m & 8;
    OptSpec o;
    o.kind = k;
    o.shrt = "a";
    o.lng = "alpha";
    o.help = "help";
    if (variant == 1) {
        o.has_default = k <= kLevel;
        o.def = k == kInt || k == kLevel ? "3" : "true";
    } else if (k == kEnable) {
        o.has_default = true;
        o.def = "false";
    }
    sp.opts.push_back(o);
    if (m & 16) {
        OptSpec p;
        p.kind = variant == 2 ? kPosInt : kPosString;
        p.lng = "pos";
        p.help = "help";
        sp.opts.push_back(p);
    }
    static const char* tokens[] = {"-a", "--alpha", "/a", "-a=1", "--alpha=true", "--alpha=x", "-a1", "-a:true", "--alpha:x", "-a=", "--alpha=", "-atrue", "--no-alpha", "--no-beta", "--no-alpha=x", "--", "-", "", "x", "1", "true", "-h", "--help", "/", "-a:x=1", "-ax:1", "--alpha:x=1"};
    const size_t n = sizeof(tokens) / sizeof(tokens[0]);
    std::vector<std::string> args;
    one(c, sp, args, 0);
    for (size_t i = 0; i < n; i++) {
        one(c, sp, {tokens[i]}, (int)(i & 3));
        for (size_t j = 0; j < n; j++) {
            one(c, sp, {tokens[i], tokens[j]}, (int)(j & 3));
            if (c.thorough() || c.rng.chance(1, 6))
                for (size_t l = 0; l < n; l++)
                    one(c, sp, {tokens[i], tokens[j], tokens[l]}, (int)(l & 3));
        }
    }
    VM_COUNT("enumerated_parsers", 1);
    c.sig(c.index);
    c.nontrivial();
}

// Integers: everything around the limits of int, and of long.
SCENARIO(integers, 200, 5000, 0) {
    Spec sp;
    OptSpec o;
    o.kind = c.index & 1 ? kInt : kRepInt;
    o.shrt = "i";
    o.help = "help";
    sp.opts.push_back(o);
    for (int i = 0; i < 50; i++) {
        __int128 v = c.rng.wide();
        if (c.rng.chance(1, 3))
            v = (__int128)INT_MAX + c.rng.range(-3, 3);
        else if (c.rng.chance(1, 4))
            v = (__int128)1 + INT_MAX + c.rng.range(-3, 3);
        else if (c.rng.chance(1, 5))
            v = v * 1000 + c.rng.below(1000);
        std::string s;
        do
            s.insert(s.begin(), char('0' + (int)(v % 10)));
        while (v /= 10);
        if (c.rng.chance(1, 4))
            s = std::string(c.rng.below(20), '0') + s;
        switch (c.rng.below(4)) {
            case 0: s = "-" + s; break;
            case 1: s = "+" + s; break;
        }
        one(c, sp, {"-i", s}, (int)c.rng.below(4));
        VM_COUNT("integers", 1);
        c.sig(vm::hash_str(s.c_str()));
    }
    c.nontrivial();
}

// Long command lines and long arguments: more than 16 bits count.
SCENARIO(many, 8, 80, 0) {
    Spec sp;
    sp.extra = true;
    sp.passthrough = true;
    sp.inline_values = c.index & 1;
    static const Kind kinds[] = {kRepString, kRepInt, kPosString, kString};
    for (int i = 0; i < 4; i++) {
        OptSpec o;
        o.kind = kinds[i];
        if (o.positional()) {
            o.lng = "pos";
        } else {
            o.shrt = std::string(1, (char)('a' + i));
            o.lng = std::string("long-") + (char)('a' + i);
        }
        o.help = "help";
        sp.opts.push_back(o);
    }
    size_t n = (size_t)c.rng.range(66000, 80000);
    std::vector<std::string> args;
    if (c.index % 4 == 0) {  // everything goes to one place
        static const char* lead[] = {"extra", "-a", "--long-b=7", "--"};
        const char* l = lead[c.index / 4 % 4];
        if (!strcmp(l, "--"))
            args = {"p", "--"};
        while (args.size() < n) {
            args.push_back(!strcmp(l, "--") ? "behind" : l);
            if (!strcmp(l, "-a"))
                args.push_back(std::to_string(args.size()));
        }
    } else {
        args.push_back("positional");
        while (args.size() < n) {
            switch (c.rng.below(4)) {
                case 0: args.push_back("-a"); args.push_back(std::to_string(args.size())); break;
                case 1: args.push_back("--long-b=" + std::to_string(args.size())); break;
                case 2: args.push_back("extra " + std::to_string(args.size())); break;
                default: args.push_back("--long-a=" + std::to_string(args.size())); break;
            }
        }
        args[args.size() / 2] = args[args.size() / 2][0] == '-' ? "--long-a=" + std::string(70000, 'v') : args[args.size() / 2];
        if (c.rng.coin()) {
            args.push_back("-d");
            args.push_back(std::string((size_t)c.rng.range(66000, 80000), 'w'));
        }
        if (c.rng.coin()) {
            args.push_back("--");
            args.push_back("-a");
        }
    }
    one(c, sp, args, (int)(c.index % 3));
    VM_COUNT("long_command_lines", 1);
    c.sig(n);
    c.nontrivial();
}
