// C28: usage output lists every option and all help text, once and in order.
#include "argparse_common.h"
using namespace ap;

static std::vector<std::string> tokens(const std::string& s) {
    std::vector<std::string> r;
    std::string cur;
    for (char ch : s + " ") {
        if (ch == ' ' || ch == '\n') {
            if (!cur.empty())
                r.push_back(cur);
            cur.clear();
        } else {
            cur += ch;
        }
    }
    return r;
}
static std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> r;
    std::string cur;
    for (char ch : s) {
        if (ch == '\n') {
            r.push_back(cur);
            cur.clear();
        } else {
            cur += ch;
        }
    }
    if (!cur.empty())
        r.push_back(cur);
    return r;
}
struct Entry {
    std::vector<std::string> names;
    std::vector<std::string> words;
};
static std::string suffix(const OptSpec& o) {
    if (o.flag() || o.optional_value())
        return "";
    std::string n = o.lng.empty() ? o.shrt : o.lng, r = "=";
    for (char ch : n)
        r += ch == '-' ? '_' : ch >= 'a' && ch <= 'z' ? char(ch - 32) : ch;
    return r;
}
static std::vector<Entry> expected(const Spec& sp) {
    std::vector<Entry> es;
    for (auto& o : sp.opts)
        if (o.positional())
            es.push_back({{o.lng}, tokens(o.help)});
    if (sp.with_help)
        es.push_back({{"-h,", "--help"}, tokens("Display this help menu.")});
    for (auto& o : sp.opts) {
        if (o.positional())
            continue;
        Entry e;
        if (!o.shrt.empty())
            e.names.push_back("-" + o.shrt);
        if (!o.lng.empty())
            e.names.push_back("--" + o.lng + suffix(o));
        e.words = tokens(o.help);
        es.push_back(e);
    }
    for (auto& u : sp.usage_lines)
        es.push_back({{u.first}, tokens(u.second)});
    return es;
}
// A name, where the option's two names share a cell a comma follows the first one.
static bool is_name(const Entry& e, size_t n, const std::string& t) {
    if (n >= e.names.size())
        return false;
    return t == e.names[n] || (n == 0 && e.names.size() == 2 && t == e.names[0] + ",");
}
static void check_usage_line(vm::Case& c, const Spec& sp, const std::string& line, const std::string& program) {
    std::vector<std::string> t = tokens(line), want;
    want.push_back("Usage:");
    for (auto& x : tokens(program))
        want.push_back(x);
    VM_CHECK(c, t.size() >= want.size() && std::equal(want.begin(), want.end(), t.begin()), "usage-line", "the usage line is \"%s\", without the program name %s", line.c_str(), program.c_str());
    size_t at = want.size();
    if (!sp.usage_line.empty()) {
        std::vector<std::string> rest(t.begin() + at, t.end());
        VM_CHECK(c, rest == tokens(sp.usage_line), "usage-line", "the usage line is \"%s\", not the one that was set: %s", line.c_str(), sp.usage_line.c_str());
        VM_COUNT("usage_lines_set", 1);
        return;
    }
    if (at < t.size() && t[at] == "[-h]")
        at++;
    std::vector<std::string> rest(t.begin() + at, t.end()), pos;
    for (auto& o : sp.opts)
        if (o.positional())
            pos.push_back(o.lng);
    VM_CHECK(c, rest == pos, "usage-line", "the usage line \"%s\" does not name the positionals %s", line.c_str(), list(pos).c_str());
}
static void check_full(vm::Case& c, const Spec& sp, const std::string& text, const std::string& program) {
    std::string rest = text;
    if (sp.with_help && !sp.help.empty()) {
        VM_CHECK(c, rest.compare(0, sp.help.size(), sp.help) == 0, "parser-help", "usage() does not start with the parser's help: %s", text.c_str());
        rest = rest.substr(sp.help.size());
    }
    size_t at = 0;
    while (at < rest.size() && rest[at] == '\n')
        at++;
    rest = rest.substr(at);
    size_t eol = rest.find('\n');
    VM_CHECK(c, eol != std::string::npos, "usage-line", "no usage line in %s", text.c_str());
    check_usage_line(c, sp, rest.substr(0, eol), program);
    rest = rest.substr(eol + 1);

    std::vector<Entry> es = expected(sp);
    size_t e = 0, n = 0, w = 0;
    size_t positionals = 0, options = sp.with_help;
    for (auto& o : sp.opts)
        (o.positional() ? positionals : options)++;
    size_t headings[2] = {0, 0};
    for (auto& line : lines(rest)) {
        if (line.empty())
            continue;
        if (line == "positional arguments:" || line == "optional arguments:") {
            bool optional = line[0] == 'o';
            while (e < es.size() && n == es[e].names.size() && w == es[e].words.size())
                e++, n = w = 0;
            VM_CHECK(c, (optional ? options : positionals) > 0 && n == 0 && w == 0 && e == (optional ? positionals : 0) && !headings[optional]++, "headings",
                     "\"%s\" does not stand before the first of %zu such arguments:\n%s", line.c_str(), optional ? options : positionals, text.c_str());
            VM_COUNT("headings", 1);
            continue;
        }
        size_t words = 0, names = 0;
        for (auto& t : tokens(line)) {
            while (e < es.size() && n == es[e].names.size() && w == es[e].words.size() && !es[e].names.empty())
                e++, n = w = 0;
            VM_CHECK(c, e < es.size(), "surplus", "usage() writes \"%s\" after everything that is to be listed:\n%s", t.c_str(), text.c_str());
            if (is_name(es[e], n, t)) {
                n++, names++;
            } else {
                VM_CHECK(c, n > 0 && w < es[e].words.size() && t == es[e].words[w], "order", "usage() writes \"%s\" where %s %s is expected:\n%s", t.c_str(),
                         w < es[e].words.size() && n ? "the word" : "the name", w < es[e].words.size() && n ? es[e].words[w].c_str() : n < es[e].names.size() ? es[e].names[n].c_str() : "(of the next entry)", text.c_str());
                w++, words++;
            }
        }
        // Names stand in the left column, help texts in the right one.
        size_t in = line.find_first_not_of(' ');
        if (words && in != std::string::npos) {
            if (names == 0)
                VM_CHECK(c, in >= 28, "columns", "a line of help text starts in column %zu: %s", in, line.c_str());
            else
                VM_CHECK(c, line.size() > 28 && line[27] == ' ' && tokens(line.substr(0, 28)).size() == names, "columns", "names and help text do not stand in two columns: %s", line.c_str());
            VM_COUNT("two_columns", 1);
        }
        if (names)
            VM_CHECK(c, in == 2, "columns", "a name stands in column %zu: %s", in, line.c_str());
        // (Both names share a line only where they fit together.)
        if (line.size() > 80) {
            VM_CHECK(c, words <= 1 && names <= 1 + (words == 0 ? 0 : 1), "width", "a line of %zu columns holds %zu words and %zu names: %s", line.size(), words, names, line.c_str());
            VM_COUNT("long_lines", 1);
        }
        VM_COUNT("lines", 1);
    }
    while (e < es.size() && n == es[e].names.size() && w == es[e].words.size())
        e++, n = w = 0;
    VM_CHECK(c, headings[0] == (positionals > 0) && headings[1] == (options > 0), "headings", "%zu positionals and %zu options are listed without their headings:\n%s", positionals, options, text.c_str());
    VM_CHECK(c, e == es.size(), "missing", "usage() does not list %s %s:\n%s", n < es[e].names.size() ? "the name" : "the word", n < es[e].names.size() ? es[e].names[n].c_str() : es[e].words[w].c_str(), text.c_str());
    VM_COUNT("full_usages", 1);
    VM_COUNT("entries", es.size());
}

static std::string words(vm::Rng& r, int* serial) {
    std::string s;
    size_t n = r.below(4) == 0 ? r.below(60) : r.below(12);
    for (size_t i = 0; i < n; i++) {
        if (i)
            s += r.chance(1, 30) ? "  " : " ";
        std::string w = "w" + std::to_string((*serial)++);
        switch (r.below(14)) {
            case 0: w += "%s"; break;
            case 1: w += "%n%d"; break;
            case 2: w += std::string(r.below(12), '.'); break;
            case 3: w += std::string(44 + r.below(14), 'm'); break;  // about the width of a column
            case 4: if (r.chance(1, 4)) w += std::string(r.below(400), 'l'); break;
            case 5: w += ",-x"; break;
            default: w += std::string(r.below(9), 'a'); break;
        }
        s += w;
    }
    if (r.chance(1, 30))
        s = " " + s;
    if (r.chance(1, 30))
        s += " ";
    return s;
}
static std::string name(vm::Rng& r, int* serial) {
    std::string s = "o" + std::to_string((*serial)++);
    size_t want = r.below(3) == 0 ? 16 + r.below(20) : r.below(12);
    if (r.chance(1, 20))
        want = r.below(200);
    while (s.size() < want)
        s += r.chance(1, 6) ? '-' : r.chance(1, 20) ? '%' : char('a' + r.below(26));
    return s;
}
static Spec spec(vm::Rng& r) {
    int serial = 0;
    Spec sp;
    sp.with_help = r.chance(2, 3);
    sp.help = r.chance(1, 4) ? "" : "The %s of\nthis " + words(r, &serial) + ".";
    sp.extra = r.coin();
    sp.passthrough = r.coin();
    unsigned n = (unsigned)r.below(9);
    for (unsigned i = 0; i < n; i++) {
        OptSpec o;
        o.kind = (Kind)r.below(kKinds);
        o.help = words(r, &serial);
        if (o.positional()) {
            o.lng = "p" + name(r, &serial);
        } else {
            unsigned w = (unsigned)r.below(3);
            if (w != 1) o.shrt = r.chance(1, 5) ? name(r, &serial) : "s" + std::to_string(serial++);
            if (w != 0) o.lng = name(r, &serial);
            o.dashes = r.coin();
            o.has_default = o.kind == kEnable;
            o.def = "false";
        }
        sp.opts.push_back(o);
    }
    if (r.chance(1, 4))
        sp.usage_line = "set %d usage" + std::string(r.below(100), 'u');
    for (unsigned i = (unsigned)r.below(3); i > 0; i--)
        sp.usage_lines.push_back({"@" + name(r, &serial), words(r, &serial)});
    return sp;
}

static bool has_word(const std::string& text, const std::string& w) {
    for (size_t at = text.find(w); !w.empty() && at != std::string::npos; at = text.find(w, at + 1)) {
        bool before = at > 0 && isalnum((unsigned char)text[at - 1]);
        bool after = at + w.size() < text.size() && isalnum((unsigned char)text[at + w.size()]);
        if (!before && !after)
            return true;
    }
    return false;
}
static void parse_and_show(vm::Case& c, const Spec& sp, Built& b, const std::vector<std::string>& args, const std::string& program) {
    Ref ref(sp);
    State want = ref.state(args);
    b.parser->reset();
    bool ok = b.parse(args, 0);
    VM_CHECK(c, ok == want.ok, "result", "parse() returns %s for %s (%s)", ok ? "true" : "false", list(args).c_str(), ref.why.c_str());
    std::string text = b.usage(args, program.c_str());
    bool error = !ok && ref.why != "help";
    bool asks = false;
    for (auto& a : args)
        asks |= a == "-h" || a == "--help";
    if (!error || (asks && sp.with_help)) {
        check_full(c, sp, text, program);
        if (error)
            VM_COUNT("errors_with_help_request", 1);
    } else {
        std::vector<std::string> l = lines(text);
        VM_CHECK(c, l.size() == 2, "error-output", "after a failed parse of %s usage() writes %zu lines: %s", list(args).c_str(), l.size(), text.c_str());
        check_usage_line(c, sp, l[0], program);
        VM_CHECK(c, l[1].compare(0, 7, "error: ") == 0 && l[1].size() > 8, "error-output", "after a failed parse of %s usage() writes no error: %s", list(args).c_str(), text.c_str());
        if (ref.why == "unknown option" || ref.why == "unknown --no- option") {
            bool named = false;
            for (auto& a : args)
                named |= !a.empty() && l[1].size() >= a.size() && l[1].find(a) != std::string::npos;
            VM_CHECK(c, named, "error-output", "the error names no argument of %s: %s", list(args).c_str(), text.c_str());
        }
        // The option or argument at fault, by any of its names.
        std::vector<std::string> culprits;
        if (ref.fault >= 0) {
            culprits.push_back(sp.opts[ref.fault].shrt);
            culprits.push_back(sp.opts[ref.fault].lng);
        } else if (ref.why == "missing positional") {
            for (auto& o : sp.opts)
                if (o.positional())
                    culprits.push_back(o.lng);
        } else if (ref.why == "value for help") {
            culprits = {"h", "help"};
        }
        bool named = culprits.empty();
        for (auto& n : culprits)
            named |= has_word(l[1], n);
        VM_CHECK(c, named, "error-output", "the error (%s) for %s does not name the option: %s", ref.why.c_str(), list(args).c_str(), text.c_str());
        if (!culprits.empty())
            VM_COUNT("errors_naming_the_option", 1);
        VM_COUNT("error_usages", 1);
        if (asks)
            VM_COUNT("help_request_without_help", 1);
    }
    std::string again = b.usage(args, program.c_str());
    VM_CHECK(c, again == text, "repeat", "a second usage() writes something else: %s and %s", text.c_str(), again.c_str());
    // Whether help was asked for is up to the arguments of each call.
    std::string quiet = b.usage({}, program.c_str());
    if (!error) {
        check_full(c, sp, quiet, program);
    } else {
        std::vector<std::string> l = lines(quiet);
        VM_CHECK(c, l.size() == 2 && l[1].compare(0, 7, "error: ") == 0, "error-output", "after a failed parse of %s usage() without arguments writes: %s", list(args).c_str(), quiet.c_str());
        check_usage_line(c, sp, l[0], program);
    }
    c.sig(vm::hash_str(text.c_str()));
    if (c.tracing)
        c.log("%s -> %zu bytes of usage", list(args).c_str(), text.size());
}

SCENARIO(random, 4000, 100000, 0) {
    Spec sp = spec(c.rng);
    Built b(sp);
    std::string program = c.rng.chance(1, 4) ? "/a/b%s/program" + std::string(c.rng.below(100), 'p') : "program";
    check_full(c, sp, b.usage({}, program.c_str()), program);
    for (int i = 0; i < 4; i++) {
        std::vector<std::string> args;
        switch (c.rng.below(7)) {
            case 0: break;
            case 4:  // ends with an option
                args = random_args(c.rng, sp, 2);
                if (sp.opts.size()) {
                    auto& o = sp.opts[c.rng.below(sp.opts.size())];
                    args.push_back(o.lng.size() ? "--" + o.lng : "-" + o.shrt);
                }
                break;
            case 1: args = {"-h"}; break;
            case 2: args = {"--help"}; break;
            case 3: args = {"--unknown%s%n", "x"}; break;
            default: args = random_args(c.rng, sp, 5); break;
        }
        if (c.rng.chance(1, 4))
            args.insert(args.begin() + c.rng.below(args.size() + 1), c.rng.coin() ? "-h" : "--help");
        bool clean = true;  // a newline in an argument would end up in the error
        for (auto& a : args)
            clean &= a.find('\n') == std::string::npos;
        if (clean)
            parse_and_show(c, sp, b, args, program);
    }
    c.nontrivial();
}

// Every width of names and words around the columns' limits.
SCENARIO(widths, 45 * 3, 45 * 3, 0) {
    size_t len = c.index % 45 + 1, form = c.index / 45;
    for (size_t word = 1; word <= 60; word++) {
        for (size_t word2 = 1; word2 <= 60; word2 += c.thorough() ? 1 : 1 + (size_t)c.rng.below(12)) {
            Spec sp;
            sp.with_help = word & 1;
            OptSpec o;
            o.kind = word2 & 1 ? kString : kToggle;
            if (form != 1) o.shrt = form == 0 ? "s" : std::string(len, 's');
            if (form != 2) o.lng = std::string(len, 'o');
            if (form == 2 && (word & 2)) {
                o.kind = kPosInt;
                o.lng = std::string(len, 'p');
                o.shrt = "";
            }
            o.help = std::string(word, 'a') + " " + std::string(word2, 'b') + " c d" + std::string(word2 / 2, 'e');
            sp.opts.push_back(o);
            sp.usage_lines.push_back({std::string(len, 'u'), std::string(word2, 'x') + " " + std::string(word, 'y')});
            Built b(sp);
            check_full(c, sp, b.usage({}), "program");
        }
    }
    c.sig(c.index);
    c.nontrivial();
}

// Odd argument vectors.
SCENARIO(odd_vectors, 20, 200, 0) {
    Spec sp = spec(c.rng);
    Built b(sp);
    auto run = [&](int argc, char** argv) {
        char* buf = nullptr;
        size_t n = 0;
        FILE* f = open_memstream(&buf, &n);
        b.parser->usage(f, argc, argv);
        fclose(f);
        std::string r(buf, n);
        free(buf);
        return r;
    };
    for (int error = 0; error < 2; error++) {
        if (error)
            VM_CHECK(c, !b.parse({"--certainly-unknown"}, 0), "result", "an unknown option is accepted");
        for (int k = 0; k < 3; k++) {
            char* none[1] = {nullptr};
            char prog[] = "-h";
            char* self[2] = {prog, nullptr};
            std::string text = k == 0 ? run(0, nullptr) : k == 1 ? run(0, none) : run(1, self);
            if (error)
                VM_CHECK(c, text.find("error: ") != std::string::npos, "error-output", "no error in %s", text.c_str());
            else
                check_full(c, sp, text, k == 2 ? "-h" : "");
            VM_COUNT("odd_vectors", 1);
        }
    }
    c.sig(c.index);
    c.nontrivial();
}
