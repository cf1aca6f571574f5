// C21: Split, Join, case conversion, prefixes and suffixes against reference definitions.
#include <amtl/am-string.h>

#include <string>
#include <vector>

#include "vm.h"

typedef std::vector<std::string> Pieces;

static Pieces ref_split(const std::string& s, const std::string& sep) {
    Pieces out;
    if (s.empty())
        return out;
    std::string cur;
    for (size_t i = 0; i < s.size();) {
        if (s.size() - i >= sep.size() && memcmp(s.data() + i, sep.data(), sep.size()) == 0) {
            out.push_back(cur);
            cur.clear();
            i += sep.size();
        } else {
            cur += s[i++];
        }
    }
    out.push_back(cur);
    return out;
}
static std::string ref_join(const Pieces& p, const std::string& sep) {
    std::string out;
    for (size_t i = 0; i < p.size(); i++) {
        if (i)
            out += sep;
        out += p[i];
    }
    return out;
}
static std::string show(const std::string& s) {
    std::string out;
    for (unsigned char ch : s) {
        if (ch >= 32 && ch < 127)
            out += (char)ch;
        else {
            char b[8];
            snprintf(b, sizeof(b), "\\x%02x", ch);
            out += b;
        }
        if (out.size() > 200)
            return out + "...";
    }
    return out;
}
static void check_split(vm::Case& c, const std::string& s, const std::string& sep) {
    Pieces want = ref_split(s, sep);
    for (int form = 0; form < 2; form++) {
        if (form == 0 && s.find('\0') != std::string::npos)
            continue;
        char* raw = nullptr;
        Pieces got;
        if (form == 0) {  // exact-size C string
            raw = (char*)malloc(s.size() + 1);
            memcpy(raw, s.c_str(), s.size() + 1);
            got = ke::Split(raw, sep.c_str());
            free(raw);
        } else {
            got = ke::Split(s, sep.c_str());
        }
        VM_CHECK(c, got == want, "split", "Split(\"%s\", \"%s\") gives %zu pieces, expected %zu%s", show(s).c_str(), show(sep).c_str(), got.size(), want.size(), form ? " (std::string)" : "");
        std::string back = ke::Join(got, sep.c_str());
        VM_CHECK(c, back == s, "join-split", "Join(Split(\"%s\", \"%s\")) gives \"%s\"", show(s).c_str(), show(sep).c_str(), show(back).c_str());
    }
    VM_COUNT("splits", 1);
    if (want.size() > 2)
        VM_COUNT("splits_many", 1);
}
static std::string text(vm::Rng& r, size_t n, const char* alphabet, bool nuls) {
    std::string s;
    size_t a = strlen(alphabet);
    for (size_t i = 0; i < n; i++) {
        if (nuls && r.chance(1, 6))
            s += '\0';
        else if (a)
            s += alphabet[r.below(a)];
        else
            s += (char)r.range(1, 255);
    }
    return s;
}
// All strings over {a,b} up to length 7 (thorough 11) with all separators up to length 3.
static std::string nth(uint64_t k, const char* alphabet) {
    std::string s;
    uint64_t a = strlen(alphabet);
    size_t len = 0;
    uint64_t block = 1;
    while (k >= block) {
        k -= block;
        block *= a;
        len++;
    }
    for (size_t i = 0; i < len; i++) {
        s += alphabet[k % a];
        k /= a;
    }
    return s;
}
SCENARIO(split_all_small, 255, 4095, 0) {
    std::string s = nth(c.index, "ab");
    for (uint64_t k = 1; k < 31; k++)
        check_split(c, s, nth(k, "ab"));
    c.sig(c.index);
    c.nontrivial();
    c.log("Split of \"%s\" by all separators up to length four", s.c_str());
}
SCENARIO(split_random, 3000, 100000, 0) {
    static const char* alphabets[] = {"ab", "a", "abc", "a,", "", "x:;"};
    const char* al = alphabets[c.rng.below(6)];
    std::string sep = text(c.rng, (size_t)c.rng.range(1, 5), al, false);
    std::string s;
    if (c.rng.coin()) {
        s = text(c.rng, c.rng.below(200), al, c.rng.chance(1, 5));
    } else {  // built from pieces: adjacent, leading and trailing separators, and partial ones
        int n = (int)c.rng.below(30);
        for (int i = 0; i < n; i++) {
            if (c.rng.coin())
                s += sep;
            else if (c.rng.coin())
                s += sep.substr(0, c.rng.below(sep.size()));
            else
                s += text(c.rng, c.rng.below(4), al, false);
        }
    }
    check_split(c, s, sep);
    c.sig(vm::hash_str(s.c_str()) ^ vm::hash_str(sep.c_str()));
    c.nontrivial();
}
SCENARIO(join, 2000, 60000, 0) {
    Pieces p;
    int n = (int)c.rng.below(c.rng.chance(1, 10) ? 300 : 8);
    for (int i = 0; i < n; i++)
        p.push_back(c.rng.chance(1, 3) ? "" : text(c.rng, c.rng.below(c.rng.chance(1, 10) ? 500 : 20), c.rng.coin() ? "" : "ab,", c.rng.chance(1, 3)));
    std::string sep = c.rng.chance(1, 3) ? "" : text(c.rng, (size_t)c.rng.range(1, 6), ", ;", false);
    std::string got = ke::Join(p, sep.c_str()), want = ref_join(p, sep);
    VM_CHECK(c, got == want, "join", "Join of %d pieces gives %zu characters, expected %zu", n, got.size(), want.size());
    c.sig(vm::hash_str(want.c_str()) ^ want.size());
    c.nontrivial();
    VM_COUNT("joins", 1);
}
static char up(char ch) { return ch >= 'a' && ch <= 'z' ? (char)(ch - 32) : ch; }
static char low(char ch) { return ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch; }
static int sign(int v) { return v < 0 ? -1 : v > 0; }
static int ref_casecmp(const std::string& a, const std::string& b) {
    for (size_t i = 0;; i++) {
        unsigned char x = (unsigned char)low(a.c_str()[i]), y = (unsigned char)low(b.c_str()[i]);
        if (x != y)
            return x < y ? -1 : 1;
        if (!x)
            return 0;
    }
}
static void check_case(vm::Case& c, const std::string& a, const std::string& b) {
    std::string u = a, l = a;
    for (char& ch : u)
        ch = up(ch);
    for (char& ch : l)
        ch = low(ch);
    VM_CHECK(c, ke::Uppercase(a.c_str()) == u, "uppercase", "Uppercase(\"%s\")", show(a).c_str());
    VM_CHECK(c, ke::Lowercase(a.c_str()) == l, "lowercase", "Lowercase(\"%s\")", show(a).c_str());
    int r = sign(ke::StrCaseCmp(a.c_str(), b.c_str())), want = ref_casecmp(a, b);
    VM_CHECK(c, r == want, "casecmp", "StrCaseCmp(\"%s\", \"%s\") has sign %d, expected %d", show(a).c_str(), show(b).c_str(), r, want);
    VM_CHECK(c, ke::StrCaseCmp(a.c_str(), u.c_str()) == 0 && ke::StrCaseCmp(l.c_str(), a.c_str()) == 0, "casecmp", "StrCaseCmp of \"%s\" and itself in another case", show(a).c_str());
    VM_COUNT("case_checks", 1);
}
static void check_fix(vm::Case& c, const std::string& a, const std::string& b) {
    bool pre = a.size() >= b.size() && memcmp(a.data(), b.data(), b.size()) == 0;
    bool suf = a.size() >= b.size() && memcmp(a.data() + (a.size() - b.size()), b.data(), b.size()) == 0;
    bool nul_a = a.find('\0') != std::string::npos, nul_b = b.find('\0') != std::string::npos;
    if (!nul_b) {
        VM_CHECK(c, ke::StartsWith(a, b.c_str()) == pre, "starts-with", "StartsWith(string \"%s\", \"%s\") is not %d", show(a).c_str(), show(b).c_str(), pre);
        if (!nul_a) {
            char* raw = (char*)malloc(a.size() + 1);
            memcpy(raw, a.c_str(), a.size() + 1);
            bool got = ke::StartsWith((const char*)raw, b.c_str());
            free(raw);
            VM_CHECK(c, got == pre, "starts-with", "StartsWith(\"%s\", \"%s\") is not %d", show(a).c_str(), show(b).c_str(), pre);
        }
    }
    VM_CHECK(c, ke::EndsWith(a, b) == suf, "ends-with", "EndsWith(\"%s\", \"%s\") is not %d", show(a).c_str(), show(b).c_str(), suf);
    VM_COUNT("fix_checks", 1);
    if (pre)
        VM_COUNT("prefixes", 1);
    if (suf)
        VM_COUNT("suffixes", 1);
}
SCENARIO(case_all_chars, 255, 255, 0) {
    std::string a(1, (char)(c.index + 1));
    for (int k = 1; k < 256; k++) {
        std::string b(1, (char)k);
        check_case(c, a, b);
        check_fix(c, a + b, b);
        check_fix(c, a + b, a);
        check_fix(c, a, a + b);
        check_fix(c, a, b);
    }
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(fix_all_small, 127, 1023, 0) {
    std::string a = nth(c.index, "ab");
    for (uint64_t k = 0; k < 127; k++)
        check_fix(c, a, nth(k, "ab"));
    c.sig(c.index);
    c.nontrivial();
}
SCENARIO(random_strings, 3000, 100000, 0) {
    std::string a = text(c.rng, c.rng.below(60), c.rng.coin() ? "" : "aAbB", false), b;
    switch (c.rng.below(4)) {
        case 0: b = text(c.rng, c.rng.below(60), "", false); break;
        case 1: b = a.substr(0, c.rng.below(a.size() + 1)); break;
        case 2: b = a.substr(c.rng.below(a.size() + 1)); break;
        default:
            b = a;
            for (char& ch : b)
                ch = c.rng.coin() ? up(ch) : low(ch);
            if (!b.empty() && c.rng.coin())
                b[c.rng.below(b.size())] = (char)c.rng.range(1, 255);
            break;
    }
    check_case(c, a, b);
    check_case(c, b, a);
    check_fix(c, a, b);
    check_fix(c, b, a);
    // One is the other and something more: a little, or a lot.
    std::string more = a + text(c.rng, 1 + c.rng.below(c.rng.chance(1, 4) ? 2000 : 100), "", false);
    check_case(c, more, a);
    check_case(c, a, more);
    check_fix(c, more, a);
    check_fix(c, a, more);
    std::string n = a;
    if (!n.empty())
        n[c.rng.below(n.size())] = '\0';
    check_fix(c, n, b);
    check_fix(c, n, n.substr(c.rng.below(n.size() + 1)));
    // Strings whose tails agree up to a NUL, and not behind it.
    std::string tail = text(c.rng, c.rng.below(6), "ab", false);
    tail += '\0';
    tail += text(c.rng, 1 + c.rng.below(6), "ab", false);
    std::string other = tail;
    size_t behind = tail.find('\0') + 1 + c.rng.below(tail.size() - tail.find('\0') - 1);
    other[behind] = other[behind] == 'a' ? 'b' : 'a';
    check_fix(c, a + tail, tail);
    check_fix(c, a + other, tail);
    check_fix(c, a + tail, tail.substr(0, behind));
    check_fix(c, a, a + std::string(1, '\0'));
    c.sig(vm::hash_str(a.c_str()) ^ vm::hash_str(b.c_str()));
    c.nontrivial();
}
// Long strings and many pieces: more than 16 bits count.
SCENARIO(long_strings, 6, 30, 0) {
    size_t n = (size_t)c.rng.range(66000, 70000);  // strstr() under ASan walks the whole string each time
    std::string sep = c.index & 1 ? "," : ", ", s;
    std::string piece = c.index % 3 == 0 ? "" : "p";
    if (c.index == 5)
        s = std::string(n, 'x') + sep + std::string(n, 'y');
    else
        for (size_t i = 0; i < n; i++)
            s += piece + sep;
    check_split(c, s, sep);
    n += (size_t)c.rng.below(80000);
    Pieces p(n, piece);
    p[n / 2] = "middle";
    p[c.rng.below(n)] = std::string(70000, 'm');
    std::string got = ke::Join(p, sep.c_str()), want = ref_join(p, sep);
    VM_CHECK(c, got == want, "join", "Join of %zu pieces gives %zu characters, expected %zu", n, got.size(), want.size());
    std::string a(n, 'a'), b = a;
    check_fix(c, a, b);
    check_case(c, a, b);
    size_t at = c.rng.coin() ? n - 1 : 65536 + c.rng.below(n - 65536);
    b[at] = c.rng.coin() ? 'A' : 'b';
    check_fix(c, a, b);
    check_fix(c, b, a);
    check_case(c, a, b);
    check_case(c, b, a);
    check_fix(c, b, b.substr(0, n - 1));
    check_fix(c, b, b.substr(1));
    check_fix(c, "c" + b, b);
    check_fix(c, b, b + "c");
    check_case(c, b, b.substr(0, c.rng.below(n)));
    check_case(c, b.substr(0, c.rng.below(n)), b);
    VM_COUNT("long_strings", 1);
    c.sig(n);
    c.nontrivial();
}
