// Parser specifications, a reference parser, and builders for the argument parser monitors.
#ifndef ARGPARSE_COMMON_H_
#define ARGPARSE_COMMON_H_
#include "vm.h"

#include <amtl/experimental/am-argparser.h>
#include <limits.h>
#include <memory>
#include <string>
#include <vector>

// A user's own value type: a level from 0 to 9, with an optional value (--level means 1).
struct Level {
    int v;
    std::string text;  // not trivial
    bool operator==(const Level& o) const { return v == o.v && text == o.text; }
};
namespace ke {
namespace args {
template <>
struct ValuePolicy<Level> {
    static constexpr bool canOmitValue() { return true; }
    static bool consumeValue(const char* arg, Level* out) {
        if (!arg)
            arg = "1";
        if (arg[0] < '0' || arg[0] > '9' || arg[1])
            return false;
        out->v = arg[0] - '0';
        out->text = "a level, as it was written: " + std::string(arg);
        return true;
    }
};
}  // namespace args
}  // namespace ke

namespace ap {

enum Kind { kToggle, kStop, kEnable, kString, kInt, kBool, kLevel, kRepString, kRepInt, kRepBool, kRepLevel, kPosString, kPosInt, kPosBool, kPosLevel, kKinds };
static const char* kind_name[kKinds] = {"toggle", "stop", "enable", "string", "int", "bool", "level", "strings", "ints", "bools", "levels", "pos-string", "pos-int", "pos-bool", "pos-level"};

struct OptSpec {
    Kind kind;
    std::string shrt, lng;  // without dashes, "" if absent; for positionals the name is in lng
    bool dashes = false;    // pass the names with their dashes
    bool has_default = false;
    std::string def;
    std::string help;
    bool is_static = false;
    bool positional() const { return kind >= kPosString; }
    bool flag() const { return kind <= kEnable; }
    bool optional_value() const { return kind == kBool || kind == kLevel; }
    const char* omitted() const { return kind == kBool ? "true" : "1"; }
    bool rep() const { return kind >= kRepString && kind <= kRepLevel; }
};
struct Spec {
    bool with_help = false;
    std::string help;  // the parser's
    bool inline_values = false, slashes = false, extra = false, passthrough = false;
    std::vector<OptSpec> opts;
    std::string usage_line;
    std::vector<std::pair<std::string, std::string>> usage_lines;
};

// What can be seen after a parse.
struct State {
    bool ok = false;
    std::vector<std::string> values;  // per option, printed
    std::vector<std::string> extra, passthrough;
};
static inline std::string quote(const std::string& s) {
    return "'" + s + "'";
}
static inline std::string list(const std::vector<std::string>& v) {
    std::string r = "[";
    for (auto& s : v)
        r += quote(s) + ",";
    return r + "]";
}
static inline std::string show(const Spec& sp) {
    std::string r = sp.with_help ? "Parser(help)" : "Parser()";
    if (sp.inline_values) r += " inline";
    if (sp.slashes) r += " slashes";
    if (sp.extra) r += " extra";
    if (sp.passthrough) r += " passthrough";
    for (auto& o : sp.opts) {
        r += std::string(" ") + (o.is_static ? "static-" : "") + kind_name[o.kind] + "(" + o.shrt + "," + o.lng;
        if (o.has_default)
            r += " default=" + o.def;
        r += ")";
    }
    return r;
}

// --- the reference --------------------------------------------------------------------------
static inline bool ref_bool(const std::string& s, bool* out) {
    std::string l;
    for (char ch : s)
        l += ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch;
    if (l == "true" || l == "false") {
        *out = l == "true";
        return true;
    }
    return false;
}
static inline bool ref_int(const std::string& s, int* out) {
    size_t i = 0;
    while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')))
        i++;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
        neg = s[i++] == '-';
    if (i == s.size())
        return false;
    long long v = 0;
    for (; i < s.size(); i++) {
        if (s[i] < '0' || s[i] > '9')
            return false;
        if (v < 100000000000LL)
            v = v * 10 + (s[i] - '0');
    }
    if (neg)
        v = -v;
    if (v < INT_MIN || v > INT_MAX)
        return false;
    *out = (int)v;
    return true;
}

struct RefOpt {
    bool set = false;
    std::string value;
    std::vector<std::string> values;
};
struct Ref {
    const Spec& sp;
    std::vector<RefOpt> v;
    bool help_set = false;
    std::vector<std::string> extra, passthrough;
    std::string why;
    int fault = -1;  // the option the failure is about
    explicit Ref(const Spec& s) : sp(s), v(s.opts.size()) {}

    // The value, as printed, or failure.
    static bool convert(Kind k, const std::string& text, std::string* out) {
        int i;
        bool b;
        switch (k) {
            case kString: case kRepString: case kPosString:
                *out = text;
                return !text.empty();
            case kInt: case kRepInt: case kPosInt:
                if (!ref_int(text, &i))
                    return false;
                *out = std::to_string(i);
                return true;
            case kLevel: case kRepLevel: case kPosLevel:
                *out = text;
                return text.size() == 1 && text[0] >= '0' && text[0] <= '9';
            case kBool: case kRepBool: case kPosBool:
                if (!ref_bool(text, &b))
                    return false;
                *out = b ? "true" : "false";
                return true;
            default: return false;
        }
    }
    bool no(const char* w) { why = w; return false; }
    void store(size_t i, const std::string& val) {
        if (sp.opts[i].rep()) {
            v[i].values.push_back(val);
        } else {
            v[i].set = true;
            v[i].value = val;
        }
    }
    // index of an option; -1 none, -2 the help option
    int by_short(const std::string& n) {
        if (n.empty())
            return -1;
        if (sp.with_help && n == "h")
            return -2;
        for (size_t i = 0; i < sp.opts.size(); i++)
            if (!sp.opts[i].positional() && sp.opts[i].shrt == n)
                return (int)i;
        return -1;
    }
    int by_long(const std::string& n) {
        if (n.empty())
            return -1;
        if (sp.with_help && n == "help")
            return -2;
        for (size_t i = 0; i < sp.opts.size(); i++)
            if (!sp.opts[i].positional() && sp.opts[i].lng == n)
                return (int)i;
        return -1;
    }
    bool parse(const std::vector<std::string>& args) {
        std::vector<size_t> pos;
        for (size_t i = 0; i < sp.opts.size(); i++)
            if (sp.opts[i].positional())
                pos.push_back(i);
        size_t npos = 0;
        bool halted = false;
        for (size_t i = 0; i < args.size() && !halted; i++) {
            const std::string& a = args[i];
            if (sp.passthrough && a == "--") {
                passthrough.assign(args.begin() + i + 1, args.end());
                break;
            }
            bool dash = !a.empty() && a[0] == '-', slash = sp.slashes && !a.empty() && a[0] == '/';
            if (!dash && !slash) {
                if (npos < pos.size()) {
                    std::string val;
                    fault = (int)pos[npos];
                    if (!convert(sp.opts[pos[npos]].kind, a, &val))
                        return no("bad positional");
                    store(pos[npos++], val);
                    fault = -1;
                } else if (sp.extra) {
                    extra.push_back(a);
                } else {
                    return no("extra argument");
                }
                continue;
            }
            bool is_long = dash && a.size() > 1 && a[1] == '-';
            std::string body = a.substr(is_long ? 2 : 1);
            // key, and value if one is attached
            bool attached = false;
            std::string key = body, val;
            size_t cut = std::string::npos;
            for (size_t j = 0; j < body.size(); j++) {
                if (body[j] == '=' || (sp.inline_values && body[j] == ':')) {
                    cut = j;
                    break;
                }
            }
            if (cut != std::string::npos && !(sp.inline_values && cut + 1 == body.size())) {
                attached = true;
                key = body.substr(0, cut);
                val = body.substr(cut + 1);
            }
            int opt = is_long ? by_long(key) : by_short(key);
            if (opt == -1 && !is_long && sp.inline_values && !body.empty()) {
                opt = by_short(body.substr(0, 1));
                if (opt != -1) {  // -sVALUE
                    attached = true;
                    val = body.substr(1);
                }
            }
            bool negated = false;
            if (opt == -1 && is_long && key.compare(0, 3, "no-") == 0) {
                opt = by_long(key.substr(3));
                if (opt < 0 || sp.opts[opt].kind != kEnable)
                    return no("unknown --no- option");
                negated = true;
            }
            if (opt == -1)
                return no("unknown option");
            if (opt == -2) {
                if (attached)
                    return no("value for help");
                help_set = true;
                halted = true;
                continue;
            }
            const OptSpec& o = sp.opts[opt];
            fault = opt;
            if (v[opt].set)
                return no("repeated option");
            if (o.flag()) {
                if (attached)
                    return no("value for a flag");
                if (o.kind == kEnable)
                    store(opt, negated ? "false" : "true");
                else
                    store(opt, o.has_default && o.def == "true" ? "false" : "true");
                if (o.kind == kStop)
                    halted = true;
                fault = -1;
                continue;
            }
            std::string out;
            if (attached) {
                if (!convert(o.kind, val, &out))
                    return no("bad attached value");
            } else if (i + 1 < args.size()) {
                if (convert(o.kind, args[i + 1], &out))
                    i++;
                else if (o.optional_value())
                    out = o.omitted();
                else
                    return no("bad value");
            } else if (o.optional_value()) {
                out = o.omitted();
            } else {
                return no("missing value");
            }
            store(opt, out);
            fault = -1;
        }
        if (!halted && npos < pos.size())
            return no("missing positional");
        if (help_set)
            return no("help");
        return true;
    }
    State state(const std::vector<std::string>& args) {
        State s;
        s.ok = parse(args);
        for (size_t i = 0; i < sp.opts.size(); i++) {
            const OptSpec& o = sp.opts[i];
            if (o.rep()) {
                s.values.push_back(list(v[i].values));
            } else if (v[i].set) {
                s.values.push_back(o.flag() ? v[i].value : "set " + quote(v[i].value));
            } else if (o.flag()) {
                s.values.push_back(o.has_default ? o.def : "false");
            } else if (o.has_default) {
                s.values.push_back("set " + quote(o.def));
            } else {
                s.values.push_back("unset");
            }
        }
        s.extra = extra;
        s.passthrough = passthrough;
        return s;
    }
};

// --- the real thing -------------------------------------------------------------------------
// Option names and help texts are given as exact-size heap strings.
struct CStr {
    std::unique_ptr<char[]> p;
    explicit CStr(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
};
using namespace ke::args;

struct Built {
    const Spec& sp;
    std::vector<CStr> strings;
    std::unique_ptr<Parser> parser;
    std::vector<std::unique_ptr<IOption>> own;
    std::vector<IOption*> opts;  // parallel to sp.opts
    std::vector<IOption*>* statics;

    const char* str(const std::string& s) {
        strings.emplace_back(s);
        return strings.back().p.get();
    }
    template <typename Make>
    IOption* make(const OptSpec& o, Make m) {
        return m(o.shrt.empty() ? nullptr : str((o.dashes ? "-" : "") + o.shrt),
                 o.lng.empty() ? nullptr : str((o.dashes ? "--" : "") + o.lng), str(o.help));
    }
    template <typename T>
    static ke::Maybe<T> def(const OptSpec& o, T val) {
        if (!o.has_default)
            return {};
        return ke::Some(std::move(val));
    }
    static Level level(const std::string& s) { return Level{s.empty() ? 0 : s[0] - '0', "a level, as it was written: " + s}; }
    static bool b(const OptSpec& o) { return o.def == "true"; }
    // Either registers with a parser or statically.
    template <typename... P>
    IOption* create(const OptSpec& o, P&... p) {
        typedef const char* C;
        switch (o.kind) {
            case kToggle: return make(o, [&](C s, C l, C h) -> IOption* { return new ToggleOption(p..., s, l, def(o, b(o)), h); });
            case kStop: return make(o, [&](C s, C l, C h) -> IOption* { return new StopOption(p..., s, l, def(o, b(o)), h); });
            case kEnable: return make(o, [&](C s, C l, C h) -> IOption* { return new EnableOption(p..., s, l, b(o), h); });
            case kString: return make(o, [&](C s, C l, C h) -> IOption* { return new StringOption(p..., s, l, def(o, o.def), h); });
            case kInt: return make(o, [&](C s, C l, C h) -> IOption* { return new IntOption(p..., s, l, def(o, atoi(o.def.c_str())), h); });
            case kBool: return make(o, [&](C s, C l, C h) -> IOption* { return new Option<bool>(p..., s, l, def(o, b(o)), h); });
            case kLevel: return make(o, [&](C s, C l, C h) -> IOption* { return new Option<Level>(p..., s, l, def(o, level(o.def)), h); });
            case kRepLevel: return make(o, [&](C s, C l, C h) -> IOption* { return new RepeatOption<Level>(p..., s, l, h); });
            case kPosLevel: return new Option<Level>(p..., str(o.lng), str(o.help));
            case kRepString: return make(o, [&](C s, C l, C h) -> IOption* { return new RepeatOption<std::string>(p..., s, l, h); });
            case kRepInt: return make(o, [&](C s, C l, C h) -> IOption* { return new RepeatOption<int>(p..., s, l, h); });
            case kRepBool: return make(o, [&](C s, C l, C h) -> IOption* { return new RepeatOption<bool>(p..., s, l, h); });
            case kPosString: return new StringOption(p..., str(o.lng), str(o.help));
            case kPosInt: return new IntOption(p..., str(o.lng), str(o.help));
            case kPosBool: return new Option<bool>(p..., str(o.lng), str(o.help));
            default: abort();
        }
    }
    explicit Built(const Spec& s, std::vector<IOption*>* static_opts = nullptr) : sp(s), statics(static_opts) {
        strings.reserve(s.opts.size() * 3 + s.usage_lines.size() * 2 + 4);
        if (s.with_help)
            parser.reset(new Parser(str(s.help)));
        else
            parser.reset(new Parser());
        if (s.inline_values) parser->enable_inline_values();
        if (s.slashes) parser->allow_slashes();
        if (s.extra) parser->collect_extra_args();
        if (s.passthrough) parser->allow_passthrough_args();
        if (!s.usage_line.empty()) parser->set_usage_line(str(s.usage_line));
        size_t nstatic = 0;
        for (auto& o : s.opts) {
            if (o.is_static) {
                opts.push_back((*statics)[nstatic++]);
                continue;
            }
            IOption* op = create(o, *parser);
            own.emplace_back(op);
            opts.push_back(op);
        }
        for (auto& u : s.usage_lines)
            parser->add_usage_line(str(u.first), str(u.second));
    }
    static std::string print(bool v) { return v ? "true" : "false"; }
    static std::string print(const Level& l) {
        std::string v = std::to_string(l.v);
        return l.text == "a level, as it was written: " + v ? v : v + " but " + l.text;
    }
    static std::string print(int v) { return std::to_string(v); }
    static std::string print(const std::string& v) { return v; }
    template <typename T>
    static std::string print_option(vm::Case& c, Option<T>* o) {
        ke::Maybe<T> m = o->maybeValue();
        VM_CHECK(c, m.isValid() == o->hasValue(), "maybe-value", "maybeValue() and hasValue() disagree");
        if (!o->hasValue())
            return "unset";
        VM_CHECK(c, m.get() == o->value(), "maybe-value", "maybeValue() and value() disagree");
        return "set " + quote(print(o->value()));
    }
    template <typename T>
    static std::string print_list(RepeatOption<T>* o) {
        std::vector<std::string> r;
        const RepeatOption<T>* co = o;
        for (size_t i = 0; i < co->values().size(); i++) {
            T v = co->values()[i];
            r.push_back(print(v));
        }
        return list(r);
    }
    State state(vm::Case& c, bool ok) {
        State s;
        s.ok = ok;
        for (size_t i = 0; i < sp.opts.size(); i++) {
            IOption* o = opts[i];
            switch (sp.opts[i].kind) {
                case kToggle: case kStop: s.values.push_back(print(static_cast<ToggleOption*>(o)->value())); break;
                case kEnable: s.values.push_back(print(static_cast<EnableOption*>(o)->value())); break;
                case kString: case kPosString: s.values.push_back(print_option(c, static_cast<StringOption*>(o))); break;
                case kInt: case kPosInt: s.values.push_back(print_option(c, static_cast<IntOption*>(o))); break;
                case kBool: case kPosBool: s.values.push_back(print_option(c, static_cast<Option<bool>*>(o))); break;
                case kLevel: case kPosLevel: s.values.push_back(print_option(c, static_cast<Option<Level>*>(o))); break;
                case kRepLevel: s.values.push_back(print_list(static_cast<RepeatOption<Level>*>(o))); break;
                case kRepString: s.values.push_back(print_list(static_cast<RepeatOption<std::string>*>(o))); break;
                case kRepInt: s.values.push_back(print_list(static_cast<RepeatOption<int>*>(o))); break;
                case kRepBool: s.values.push_back(print_list(static_cast<RepeatOption<bool>*>(o))); break;
                default: abort();
            }
        }
        s.extra = parser->extra_args();
        s.passthrough = parser->passthrough_args();
        return s;
    }
    // way: 0 argc/argv, 1 vector of C strings, 2 vector of strings, 3 variadic (up to 64 arguments)
    bool parse(const std::vector<std::string>& args, int way) {
        if (way == 3 && args.size() > 64)
            way = 0;
        std::vector<CStr> cs;
        for (auto& a : args)
            cs.emplace_back(a);
        switch (way) {
            case 0: {
                std::string prog = "program";
                std::vector<char*> argv;
                argv.push_back(&prog[0]);
                for (auto& x : cs)
                    argv.push_back(x.p.get());
                int argc = (int)argv.size();
                // What follows the given number of arguments is none of the parser's business.
                std::string beyond = "beyond";
                if (args.size() % 2)
                    argv.push_back(&beyond[0]);
                argv.push_back(nullptr);
                return parser->parse(argc, argv.data());
            }
            case 1: {
                std::vector<const char*> v;
                for (auto& x : cs)
                    v.push_back(x.p.get());
                return parser->parse(v);
            }
            case 2: return parser->parse(args);
            default: {
                const char* a[65] = {};
                for (size_t i = 0; i < args.size(); i++)
                    a[i] = cs[i].p.get();
                const char* end = nullptr;
                switch (args.size()) {
                    case 0: return parser->parsev(end);
                    case 1: return parser->parsev(a[0], end);
                    case 2: return parser->parsev(a[0], a[1], end);
                    case 3: return parser->parsev(a[0], a[1], a[2], end);
                    case 4: return parser->parsev(a[0], a[1], a[2], a[3], end);
                    case 5: return parser->parsev(a[0], a[1], a[2], a[3], a[4], end);
                    case 6: return parser->parsev(a[0], a[1], a[2], a[3], a[4], a[5], end);
                    // The list ends at the first null.
                    default: return parsev_all(a, std::make_index_sequence<65>());
                }
            }
        }
    }
    template <size_t... I>
    bool parsev_all(const char* const* a, std::index_sequence<I...>) { return parser->parsev(a[I]...); }
    // usage() with the given arguments (after the program name).
    std::string usage(const std::vector<std::string>& args, const char* program = "program") {
        std::vector<CStr> cs;
        cs.emplace_back(program);
        for (auto& a : args)
            cs.emplace_back(a);
        std::vector<char*> argv;
        for (auto& x : cs)
            argv.push_back(x.p.get());
        int argc = (int)argv.size();
        std::string beyond = "--help";
        if (args.size() % 2)
            argv.push_back(&beyond[0]);
        argv.push_back(nullptr);
        char* buf = nullptr;
        size_t n = 0;
        FILE* f = open_memstream(&buf, &n);
        parser->usage(f, argc, argv.data());
        fclose(f);
        std::string r(buf, n);
        free(buf);
        return r;
    }
};

// Names are distinct; some are prefixes of others, some look like --no- forms.
static inline Spec random_spec(vm::Rng& r, unsigned max_opts, const std::vector<OptSpec>* statics = nullptr) {
    static const char* shorts[] = {"a", "b", "O", "I", "ab", "abc", "out", "x", "no", "D", "n", "aa"};
    static const char* longs[] = {"alpha", "al", "beta", "no", "no-alpha", "gamma-ray", "a", "out", "x", "verbose", "b-c-d", "no-no"};
    Spec sp;
    sp.with_help = r.chance(2, 3);
    sp.help = "help text";
    sp.inline_values = r.coin();
    sp.slashes = r.chance(1, 3);
    sp.extra = r.chance(1, 2);
    sp.passthrough = r.chance(1, 2);
    std::vector<int> us, ul;
    if (statics)
        sp.opts = *statics;
    unsigned n = (unsigned)r.below(max_opts + 1);
    for (unsigned i = 0; i < n; i++) {
        OptSpec o;
        o.kind = (Kind)r.below(kKinds);
        o.help = "help";
        if (o.positional()) {
            if (r.chance(1, 3))
                continue;
            o.lng = "pos" + std::to_string(i);
        } else {
            for (unsigned w = (unsigned)r.below(3); o.shrt.empty() && o.lng.empty();) {
                if (w != 1) {
                    int k = (int)r.below(12);
                    bool used = false;
                    for (int x : us) used |= x == k;
                    if (!used) {
                        us.push_back(k);
                        o.shrt = shorts[k];
                    }
                }
                if (w != 0) {
                    int k = (int)r.below(12);
                    bool used = false;
                    for (int x : ul) used |= x == k;
                    if (!used) {
                        ul.push_back(k);
                        o.lng = longs[k];
                    }
                }
                if (us.size() > 10 || ul.size() > 10)
                    w = 2;
                if (us.size() == 12 && ul.size() == 12)
                    break;
            }
            if (o.shrt.empty() && o.lng.empty())
                continue;
            o.dashes = r.coin();
            switch (o.kind) {
                case kEnable: o.has_default = true; o.def = r.coin() ? "true" : "false"; break;
                case kToggle: case kStop: case kBool: o.has_default = r.coin(); o.def = o.has_default && r.coin() ? "true" : "false"; break;
                case kLevel: o.has_default = r.coin(); o.def = o.has_default ? std::to_string(r.below(10)) : ""; break;
                case kString: o.has_default = r.coin(); o.def = o.has_default ? (r.coin() ? "a default" : "") : ""; break;
                case kInt: o.has_default = r.coin(); o.def = o.has_default ? std::to_string((int)r.range(-5, 5)) : ""; break;
                default: break;
            }
        }
        sp.opts.push_back(o);
    }
    // Long names that differ only near their end.
    if (r.chance(1, 6)) {
        static const unsigned lengths[] = {15, 31, 40, 63, 64, 127, 255, 256, 300};
        std::string front(lengths[r.below(9)], 'q');
        for (auto& o : sp.opts) {
            if (o.is_static)
                continue;
            if (!o.lng.empty() && r.chance(3, 4))
                o.lng = front + o.lng;
            if (!o.shrt.empty() && r.chance(1, 4))
                o.shrt = front + o.shrt;
        }
        VM_COUNT("long_names", 1);
    }
    return sp;
}
static inline std::string random_value(vm::Rng& r, Kind k) {
    static const char* words[] = {"crab", "x", "", "true", "-", "a=b", "c:d", "--", "-a", "/a", "a b", "%s", "=", ":", "no-alpha", "--alpha"};
    static const char* ints[] = {"0", "7", "-1", "+3", " 5", "12x", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "-99999999999999999999", "0x10", "010", "", "-", "4294967296", "\t-8", "5 "};
    static const char* bools[] = {"true", "false", "TRUE", "False", "yes", "", "tru", "truee", "1", "fALSE"};
    if (r.chance(1, 10))
        k = (Kind)r.below(kKinds);
    switch (k) {
        case kInt: case kRepInt: case kPosInt:
            if (r.chance(1, 2))
                return std::to_string((int)r.range(-1000, 1000));
            return ints[r.below(19)];
        case kBool: case kRepBool: case kPosBool: return bools[r.below(10)];
        case kLevel: case kRepLevel: case kPosLevel: return r.chance(3, 4) ? std::to_string(r.below(11)) : bools[r.below(10)];
        default: return r.coin() ? "v" + std::to_string(r.below(100)) : words[r.below(16)];
    }
}
// Something close to what was meant.
static inline void mutate(vm::Rng& r, std::vector<std::string>& a) {
    static const char* leads[] = {"-", "--", "/", "//", "-/", "/-", "---", "--no-", "--no-no-", "", "/no-", "-no-"};
    static const char letters[] = "-=/:nohaOAIx ";
    if (a.empty())
        return;
    std::string& s = a[r.below(a.size())];
    if (s.size() > 12 && r.coin()) {  // a long name cut short
        static const size_t cuts[] = {1, 2, 8, 32, 64, 256};
        s.resize(s.size() - std::min(s.size(), cuts[r.below(6)]));
        return;
    }
    switch (r.below(8)) {
        case 0: case 1: case 2: {
            size_t i = 0;
            while (i < s.size() && i < 2 && (s[i] == '-' || s[i] == '/'))
                i++;
            s = leads[r.below(12)] + s.substr(i);
            break;
        }
        case 3: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
        case 4: s.insert(s.begin() + r.below(s.size() + 1), letters[r.below(sizeof(letters) - 1)]); break;
        case 5: if (!s.empty()) s[r.below(s.size())] = letters[r.below(sizeof(letters) - 1)]; break;
        case 6: std::swap(s, a[r.below(a.size())]); break;
        default: {
            std::string copy = s;
            a.insert(a.begin() + r.below(a.size() + 1), copy);
            break;
        }
    }
    VM_COUNT("mutated_lists", 1);
}
static inline std::vector<std::string> random_args(vm::Rng& r, const Spec& sp, unsigned max_args) {
    std::vector<std::string> a;
    std::vector<size_t> pos, opt;
    for (size_t i = 0; i < sp.opts.size(); i++)
        (sp.opts[i].positional() ? pos : opt).push_back(i);
    std::vector<size_t> reps;  // long lists repeat one of them often
    for (size_t i : opt)
        if (sp.opts[i].rep())
            reps.push_back(i);
    unsigned n = (unsigned)r.below(max_args + 1);
    size_t npos = 0;
    bool tidy = r.chance(3, 5);  // mostly valid
    std::vector<bool> used(sp.opts.size());
    for (unsigned t = 0; t < n; t++) {
        unsigned what = (unsigned)r.below(20);
        if (what < 12 && !opt.empty()) {
            size_t i = !reps.empty() && max_args > 20 && r.coin() ? reps[0] : opt[r.below(opt.size())];
            const OptSpec& o = sp.opts[i];
            bool rep = o.rep();
            if (tidy && used[i] && !rep)
                continue;
            if (tidy && o.kind == kStop && !r.chance(1, 4))
                continue;
            used[i] = true;
            bool lng = !o.lng.empty() && (o.shrt.empty() || r.coin());
            std::string key = lng ? "--" + o.lng : (sp.slashes && r.coin() ? "/" : "-") + o.shrt;
            if (o.kind == kEnable && !o.lng.empty() && r.chance(1, 3))
                key = "--no-" + o.lng;
            else if (!tidy && r.chance(1, 12))
                key = "--no-" + (o.lng.empty() ? o.shrt : o.lng);
            if (o.flag()) {
                if (!tidy && r.chance(1, 6))
                    key += "=" + random_value(r, kBool);
                a.push_back(key);
                continue;
            }
            std::string val = random_value(r, o.kind);
            if (tidy)
                for (int k = 0; k < 5; k++) {
                    std::string out;
                    if (Ref::convert(o.kind, val, &out))
                        break;
                    val = random_value(r, o.kind);
                }
            switch (r.below(sp.inline_values ? 6 : 4)) {
                case 0: case 1: a.push_back(key + "=" + val); break;
                case 2: case 3:
                    a.push_back(key);
                    if (!(o.optional_value() && r.coin()))
                        a.push_back(val);
                    break;
                case 4: a.push_back(key + ":" + val); break;
                default: a.push_back(key + val); break;
            }
        } else if (what < 15) {
            if (npos < pos.size()) {
                std::string val = random_value(r, sp.opts[pos[npos]].kind);
                if (tidy && (val.empty() || val[0] == '-'))
                    val = sp.opts[pos[npos]].kind == kPosInt ? "11" : "true";
                npos++;
                a.push_back(val);
            } else if (sp.extra || !tidy) {
                a.push_back(random_value(r, kString));
            }
        } else if (what < 16) {
            if (sp.passthrough || !tidy)
                a.push_back("--");
        } else if (what < 17 || !tidy) {
            static const char* odd[] = {"-", "--", "/", "---", "--no-", "--no", "-h", "--help", "-zz", "--zz", "", "--no-zz", "--no-zz=1", "-=", "--=", "-:", "//", "/=x", "--no-=", "--no-help", "-no-alpha", "-hx", "--help=1", "-h=1", "--h", "-help"};
            if (!tidy || r.chance(1, 6))
                a.push_back(odd[r.below(26)]);
        }
    }
    if (tidy)
        while (npos < pos.size() && !r.chance(1, 25)) {
            a.insert(a.begin() + 0, sp.opts[pos[npos]].kind == kPosInt ? "-0" : "true");
            if (sp.opts[pos[npos]].kind == kPosInt)
                a[0] = "42";
            npos++;
        }
    if (r.chance(1, 6))
        mutate(r, a);
    return a;
}
static inline void compare(vm::Case& c, const char* what, const Spec& sp, const std::vector<std::string>& args, const State& got, const State& want, bool values_on_failure, const std::string& why) {
    VM_CHECK(c, got.ok == want.ok, "result", "%s returns %s for %s (%s), with %s", what, got.ok ? "true" : "false", list(args).c_str(), want.ok ? "a valid command line" : why.c_str(), show(sp).c_str());
    if (!want.ok && !values_on_failure)
        return;
    for (size_t i = 0; i < sp.opts.size(); i++)
        VM_CHECK(c, got.values[i] == want.values[i], "value", "%s gives %s option %s/%s the value %s, expected %s, for %s, with %s", what, kind_name[sp.opts[i].kind], sp.opts[i].shrt.c_str(), sp.opts[i].lng.c_str(), got.values[i].c_str(), want.values[i].c_str(), list(args).c_str(), show(sp).c_str());
    VM_CHECK(c, got.extra == want.extra, "extra-arguments", "%s gives extra arguments %s, expected %s, for %s, with %s", what, list(got.extra).c_str(), list(want.extra).c_str(), list(args).c_str(), show(sp).c_str());
    VM_CHECK(c, got.passthrough == want.passthrough, "passthrough-arguments", "%s gives passthrough arguments %s, expected %s, for %s, with %s", what, list(got.passthrough).c_str(), list(want.passthrough).c_str(), list(args).c_str(), show(sp).c_str());
}

}  // namespace ap
#endif
