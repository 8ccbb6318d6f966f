// C22: affix patterns, tag lists and generated queries mean what they say; string helpers agree with std::string.
#include "pbt.hpp"
extern "C" {
#include "query_utils.h"
}
using pbt::Case;
typedef std::string Str;

static char *
buf(const Str &s) // exactly sized, so that reading past the terminator is seen
{
    char *p = (char *)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}
struct B {
    char *p;
    B(const Str &s) : p(buf(s)) {}
    B(const B &) = delete;
    ~B() { free(p); }
    operator char *() const { return p; }
};
static Str
take(char *p)
{
    Str s = p ? Str(p) : Str("<NULL>");
    free(p);
    return s;
}
static Str
word(Case &c, int alpha, size_t mx)
{
    static const char *A[] = {"ab", "abc", "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.", "a*b", "\x80\xff\xe9 a\t\n"};
    Str                s;
    size_t             n = c.below(mx + 1);
    for (size_t i = 0; i < n; i++) s += A[alpha][c.below(strlen(A[alpha]))];
    return s;
}
// reference meaning of a pattern: one optional star at either end, everything between is literal
static bool
ref_match(const Str &s, const Str &p)
{
    bool pre = !p.empty() && p[0] == '*', suf = !p.empty() && p.back() == '*';
    Str  core = p.substr(pre, p.size() - pre - (suf && p.size() > 1 ? 1 : 0));
    if (!pre && !suf) return s == p;
    if (pre && suf) return s.find(core) != Str::npos;
    if (suf) return s.size() >= core.size() && s.compare(0, core.size(), core) == 0;
    return s.size() >= core.size() && s.compare(s.size() - core.size(), core.size(), core) == 0;
}
// a pattern derived from a word, so that near matches are common; never the lone star (not a documented form)
static Str
pattern(Case &c, const Str &s, int alpha)
{
    Str core;
    if (c.chance(3, 4) && !s.empty()) {
        size_t a = c.below(s.size()), n = c.below(s.size() - a + 1);
        switch (c.below(4)) {
            case 0: core = s; break;
            case 1: core = s.substr(0, n); break;
            case 2: core = s.substr(a); break;
            default: core = s.substr(a, n);
        }
        if (c.chance(1, 5) && !core.empty()) core[c.below(core.size())] = 'b';
        if (c.chance(1, 6)) core += "a";
        if (c.chance(1, 8)) core = "a" + core;
    }
    else core = word(c, alpha, 5);
    Str p = (c.flip() ? "*" : "") + core + (c.flip() ? "*" : "");
    if (p == "*") p = "**";
    return p;
}

static void
run_match(Case &c)
{
    int a = c.below(5);
    Str s = word(c, a, 12), p = pattern(c, s, a);
    c.note("string '%s' pattern '%s'\n", s.c_str(), p.c_str());
    B    S(s), Pt(p);
    bool want = ref_match(s, p);
    PBT_CHECK(c, !!simple_matches(S, Pt) == want, "simple_matches", "'%s' against '%s' should %smatch", s.c_str(), p.c_str(), want ? "" : "not ");
    bool           pre = !p.empty() && p[0] == '*', suf = !p.empty() && p.back() == '*';
    pattern_type_t t = pre && suf ? PATTERN_MIDDLE : pre ? PATTERN_SUFFIX : suf ? PATTERN_PREFIX : PATTERN_EXACT;
    PBT_CHECK(c, determine_pattern_type(Pt) == t, "pattern-type", "pattern '%s': type %d, expected %d", p.c_str(), (int)determine_pattern_type(Pt), (int)t);
    PBT_CHECK(c, !simple_matches(NULL, Pt) && !simple_matches(S, NULL), "match-null", "an absent string or pattern matches");
    c.label(want ? "match" : "no match");
    if (want && s != p && p.size() > 2) c.nontrivial();
}

static void
run_helpers(Case &c)
{
    int a = c.below(5);
    Str s = word(c, a, 14), t = c.flip() && !s.empty() ? s.substr(c.below(s.size()), c.below(4)) : word(c, a, 4);
    B   S(s), T(t);
    c.note("'%s' and '%s'\n", s.c_str(), t.c_str());
    auto sgn = [](bool x) { return x ? 1 : 0; };
    PBT_CHECK(c, sgn(startsWith(S, T)) == sgn(s.compare(0, t.size(), t) == 0), "startsWith", "startsWith('%s','%s')", s.c_str(), t.c_str());
    PBT_CHECK(c, sgn(endsWith(S, T)) == sgn(s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), "endsWith", "endsWith('%s','%s')", s.c_str(), t.c_str());
    PBT_CHECK(c, !startsWith(NULL, T) && !startsWith(S, NULL) && !endsWith(NULL, T) && !endsWith(S, NULL), "affix-null", "an absent string starts or ends with something");
    PBT_CHECK(c, sgn(contains(S, T)) == sgn(s.find(t) != Str::npos), "contains", "contains('%s','%s')", s.c_str(), t.c_str());
    PBT_CHECK(c, sgn(equals(S, T)) == sgn(s == t), "equals", "equals('%s','%s')", s.c_str(), t.c_str());
    size_t f = s.find(t);
    PBT_CHECK(c, indexOfStr(S, T) == (f == Str::npos ? -1 : (int)f), "indexOfStr", "indexOfStr('%s','%s') = %d", s.c_str(), t.c_str(), indexOfStr(S, T));
    if (!t.empty()) {
        f = s.find(t[0]);
        PBT_CHECK(c, indexOf(S, t[0]) == (f == Str::npos ? -1 : (int)f), "indexOf", "indexOf('%s','%c') = %d", s.c_str(), t[0], indexOf(S, t[0]));
    }
    Str r(s.rbegin(), s.rend());
    Str g = take(reverse_str(S));
    PBT_CHECK(c, g == r, "reverse", "reverse of '%s' is '%s'", s.c_str(), g.c_str());
    int b = (int)c.range(-2, s.size() + 3), e = (int)c.range(-2, s.size() + 3);
    c.note("substring %d..%d\n", b, e);
    char *x = substring(S, b, e);
    if (b < 0 || e < b) PBT_CHECK(c, x == nullptr, "substring-bad", "substring('%s',%d,%d) is not rejected", s.c_str(), b, e);
    else {
        Str want = b <= (int)s.size() ? s.substr(b, e - b) : "";
        // a start beyond the end has no part to return: none and the empty string are both acceptable
        PBT_CHECK(c, (x && Str(x) == want) || (!x && b > (int)s.size()), "substring", "substring('%s',%d,%d) = '%s'", s.c_str(), b, e, x ? x : "<NULL>");
    }
    free(x);
    if (b >= 0 && b <= (int)s.size()) {
        g = take(substr(S, b));
        PBT_CHECK(c, g == s.substr(b), "substr", "substr('%s',%d) = '%s'", s.c_str(), b, g.c_str());
        g = take(subrstr(S, b));
        PBT_CHECK(c, g == s.substr(0, b), "subrstr", "subrstr('%s',%d) = '%s'", s.c_str(), b, g.c_str());
    }
    int  n = (int)c.range(-1000, 100000);
    char fmt[] = "<%s|%d|%-6s|%5.2f>", ref[4096];
    snprintf(ref, sizeof ref, fmt, s.c_str(), n, t.c_str(), n / 8.0);
    g = take(dsprintf(fmt, S.p, n, T.p, n / 8.0));
    PBT_CHECK(c, g == ref, "dsprintf", "dsprintf gives '%s' for '%s'", g.c_str(), ref);
    if (s.size() > 3 && !t.empty()) c.nontrivial();
}

static void
run_split(Case &c)
{
    struct D { const char *re; const char *seps[3]; };
    // every match of the delimiter is one of the listed separators (longest first)
    static const D ds[] = {{",", {",", 0, 0}}, {"=", {"=", 0, 0}}, {"ab", {"ab", 0, 0}}, {"[,;]", {",", ";", 0}}, {"::", {"::", 0, 0}}, {"\\*", {"*", 0, 0}}, {" - ", {" - ", 0, 0}}};
    const D &d = ds[c.below(7)];
    Str      s;
    size_t   n = c.below(14);
    for (size_t i = 0; i < n; i++) {
        size_t k = c.below(8);
        if (k < 3) s += d.seps[d.seps[1] ? c.below(2) : 0];
        else s += "abz,;=:- *"[c.below(10)];
    }
    std::vector<Str> want;
    size_t           b = 0;
    for (size_t i = 0; i < s.size();) {
        size_t l = 0;
        for (int k = 0; k < 3 && d.seps[k]; k++)
            if (s.compare(i, strlen(d.seps[k]), d.seps[k]) == 0) l = strlen(d.seps[k]);
        if (l) { want.push_back(s.substr(b, i - b)); i += l; b = i; }
        else i++;
    }
    want.push_back(s.substr(b));
    c.note("split '%s' at '%s'\n", s.c_str(), d.re);
    B      S(s), De(d.re);
    char **res = nullptr;
    int    len = -7;
    int    rc  = split_string(S, De, &res, &len);
    PBT_CHECK(c, rc == (int)want.size() && len == rc, "split-count", "'%s' split at '%s' gives %d (%d) parts, expected %zu", s.c_str(), d.re, rc, len, want.size());
    for (int i = 0; i < rc; i++) {
        Str g = take(res[i]);
        PBT_CHECK(c, g == want[i], "split-part", "part %d of '%s' split at '%s' is '%s', expected '%s'", i, s.c_str(), d.re, g.c_str(), want[i].c_str());
    }
    free(res);
    if (want.size() > 2) c.nontrivial();
}

static void
run_tags(Case &c)
{
    // a tag list k=v,k=v,... with repeated keys, empty values, values holding '=', entries without '='
    std::vector<std::pair<Str, Str>> kv;
    Str                              list;
    size_t                           n = c.below(7);
    int                              a = c.below(3);
    for (size_t i = 0; i < n; i++) {
        if (i) list += ",";
        if (c.chance(1, 10)) { list += c.flip() ? "junk" : ""; continue; }
        Str k = word(c, a, 4), v = c.chance(1, 3) ? std::to_string(c.range(-60, 60)) : word(c, a, 5);
        if (c.chance(1, 8)) v += "=x";
        kv.push_back({k, v});
        list += k + "=" + v;
    }
    Str kp, vp;
    if (!kv.empty() && c.chance(4, 5)) {
        auto &e = kv[c.below(kv.size())];
        kp      = c.chance(1, 3) ? e.first : pattern(c, e.first, a);
        vp      = c.chance(1, 3) ? e.second : pattern(c, e.second, a);
    }
    else { kp = pattern(c, "", a); vp = pattern(c, "", a); }
    if (kp == "*") kp = "**";
    if (vp == "*") vp = "**";
    c.note("tags '%s' key '%s' value '%s'\n", list.c_str(), kp.c_str(), vp.c_str());
    const std::pair<Str, Str> *fk = nullptr, *fkv = nullptr;
    for (auto &e : kv) {
        if (!ref_match(e.first, kp)) continue;
        if (!fk) fk = &e;
        if (!fkv && ref_match(e.second, vp)) fkv = &e;
    }
    B L(list), K(kp), Vp(vp);
    PBT_CHECK(c, !!has_tag(L, K) == !!fk && !!has_tag_p(L, K) == !!fk, "has_tag", "tag '%s' in '%s': %d", kp.c_str(), list.c_str(), has_tag(L, K));
    PBT_CHECK(c, !!is_value_match(L, K, Vp) == !!fkv && !!is_value_match_p(L, K, Vp) == !!fkv, "is_value_match", "'%s'='%s' in '%s': %d", kp.c_str(), vp.c_str(), list.c_str(), is_value_match(L, K, Vp));
    char *m = k_v_matches_p(L, K, NULL);
    PBT_CHECK(c, fk ? m && Str(m) == fk->first + "=" + fk->second : !m, "k_v_match", "first tag matching '%s' in '%s' is '%s'", kp.c_str(), list.c_str(), m ? m : "<NULL>");
    m = k_v_matches_p(L, K, Vp);
    PBT_CHECK(c, fkv ? m && Str(m) == fkv->first + "=" + fkv->second : !m, "kv_match", "first tag matching '%s'='%s' in '%s' is '%s'", kp.c_str(), vp.c_str(), list.c_str(), m ? m : "<NULL>");
    PBT_CHECK(c, !strcmp(L, list.c_str()), "tags-modified", "the tag list was modified");
    int lo = (int)c.range(-60, 60), hi = (int)c.range(-60, 60);
    bool num = !fk || (!fk->second.empty() && fk->second.find_first_not_of("-0123456789") == Str::npos && fk->second.find('-', 1) == Str::npos);
    if (num) {
        int  v    = fk ? atoi(fk->second.c_str()) : 0;
        bool want = fk && v >= lo && v <= hi;
        PBT_CHECK(c, !!is_value_in_range(L, K, lo, hi) == want, "in_range", "'%s' in [%d,%d] in '%s'", kp.c_str(), lo, hi, list.c_str());
    }
    for (auto &e : kv) {
        Str p = e.first + "=" + e.second;
        B   Pp(p);
        Str g = take(get_key(Pp, '=')), h = take(get_value(Pp, '='));
        PBT_CHECK(c, g == e.first && h == e.second, "get_key_value", "'%s' splits into '%s' and '%s'", p.c_str(), g.c_str(), h.c_str());
        B   Kk(e.first);
        PBT_CHECK(c, get_key(Kk, '=') == nullptr && get_value(Kk, '=') == nullptr, "get_key-none", "'%s' has no pair", e.first.c_str());
    }
    int   id = (int)c.below(1000);
    char *t  = gen_tags(id);
    Str   want;
    for (int j = 0; j <= id % 20; j++) {
        char b[64];
        snprintf(b, sizeof b, "%stag%d=%d%d", j ? "," : "", j, id, j);
        want += b;
    }
    Str g = take(t);
    PBT_CHECK(c, g == want, "gen_tags", "tags of %d: '%s'", id, g.c_str());
    c.label(fkv ? "pair found" : fk ? "key found" : "none");
    if (kv.size() > 1 && fkv && fk != fkv) c.nontrivial();
    if (kv.size() > 2 && fkv) c.nontrivial();
}

static void
run_gen(Case &c)
{
    int   a  = c.below(3);
    Str   k  = word(c, a, 9), v = word(c, a, 9);
    if (k.empty()) k = "k";
    if (v.empty()) v = "v";
    bool  str = c.flip();
    int   iv  = (int)c.range(-100000, 100000);
    pdc_kvtag_t tag;
    memset(&tag, 0, sizeof tag);
    B  K(k), Vv(v);
    tag.name  = K;
    tag.type  = str ? PDC_STRING : PDC_INT;
    tag.value = str ? (void *)Vv.p : (void *)&iv;
    tag.size  = str ? v.size() + 1 : sizeof iv;
    query_gen_input_t  in;
    query_gen_output_t out;
    memset(&out, 0, sizeof out);
    in.base_tag         = &tag;
    in.key_query_type   = c.below(4);
    in.value_query_type = str ? c.below(4) : 4 + c.below(2);
    in.affix_len        = 1 + c.below(10);
    in.range_lo         = iv - (int)c.below(2000);
    in.range_hi         = iv + (int)c.below(2000);
    c.note("tag '%s'=%s, key type %d, value type %d, affix %d\n", k.c_str(), str ? v.c_str() : std::to_string(iv).c_str(), in.key_query_type, in.value_query_type, in.affix_len);
    gen_query_key_value(&in, &out);
    PBT_CHECK(c, out.key_query && out.value_query, "gen-none", "no query was generated");
    PBT_CHECK(c, out.key_query_len == strlen(out.key_query) && out.value_query_len == strlen(out.value_query), "gen-length", "lengths %zu/%zu of '%s'/'%s'", out.key_query_len, out.value_query_len, out.key_query, out.value_query);
    // the base tag after the call (too short names are padded to three characters) must be selected by its query
    Str  nk = tag.name, nv = str ? Str((char *)tag.value) : Str();
    Str  ek = k.size() < 3 ? Str(3, k[0]) : k, ev = v.size() < 3 ? Str(3, v[0]) : v;
    PBT_CHECK(c, nk == ek && (!str || nv == ev), "gen-base", "base tag became '%s'='%s'", nk.c_str(), nv.c_str());
    bool   shortened = k.size() < 3 || (str && v.size() < 3);
    size_t al        = shortened ? 1 : in.affix_len;
    auto   expect    = [&](const Str &s, int t) {
        size_t n = std::min(al, s.size());
        switch (t) {
            case 0: return s;
            case 1: return s.substr(0, n) + "*";
            case 2: return "*" + s.substr(s.size() - n);
            default: return "*" + s.substr(s.size() - n) + "*";
        }
    };
    Str kq = out.key_query, vq = out.value_query;
    PBT_CHECK(c, ref_match(nk, kq) && !!simple_matches(tag.name, out.key_query), "gen-key-miss", "query '%s' does not select its own key '%s'", kq.c_str(), nk.c_str());
    bool pre = kq[0] == '*', suf = kq.size() > 1 && kq.back() == '*';
    int  form = pre && suf ? 3 : pre ? 2 : suf ? 1 : 0;
    PBT_CHECK(c, form == in.key_query_type, "gen-key-form", "query '%s' is not of type %d", kq.c_str(), in.key_query_type);
    // which part of the text a containment query takes is open, but not how much of it
    if (in.key_query_type == 3) PBT_CHECK(c, kq.size() == expect(nk, 3).size(), "gen-key-size", "key query '%s' of '%s', expected %zu characters of it", kq.c_str(), nk.c_str(), std::min(al, nk.size()));
    if (in.key_query_type != 3) PBT_CHECK(c, kq == expect(nk, in.key_query_type), "gen-key", "key query '%s', expected '%s'", kq.c_str(), expect(nk, in.key_query_type).c_str());
    if (str) {
        PBT_CHECK(c, ref_match(nv, vq) && !!simple_matches((char *)tag.value, out.value_query), "gen-value-miss", "query '%s' does not select its own value '%s'", vq.c_str(), nv.c_str());
        if (in.value_query_type == 3) PBT_CHECK(c, vq.size() == expect(nv, 3).size(), "gen-value-size", "value query '%s' of '%s', expected %zu characters of it", vq.c_str(), nv.c_str(), std::min(al, nv.size()));
        if (in.value_query_type != 3) PBT_CHECK(c, vq == expect(nv, in.value_query_type), "gen-value", "value query '%s', expected '%s'", vq.c_str(), expect(nv, in.value_query_type).c_str());
    }
    else {
        char b[64];
        if (in.value_query_type == 4) snprintf(b, sizeof b, "%d", iv);
        else snprintf(b, sizeof b, "%d~%d", in.range_lo, in.range_hi);
        PBT_CHECK(c, vq == b, "gen-int", "integer query '%s', expected '%s'", vq.c_str(), b);
    }
    Str g = take(gen_query_str(&out));
    PBT_CHECK(c, g == kq + "=" + vq, "gen-query", "query string '%s' from '%s' and '%s'", g.c_str(), kq.c_str(), vq.c_str());
    free_query_output(&out);
    if (tag.name != K.p) free(tag.name);
    if (str && tag.value != Vv.p) free(tag.value);
    if (k.size() > 3 && in.key_query_type) c.nontrivial();

    int    cnt = (int)c.below(5), mn = 1 + c.below(6), mx = mn + c.below(8), abc = (int)c.pick<int>({26, 36, 67, 93, 200, 0});
    char **rs  = gen_random_strings(cnt, mn, mx, abc);
    static const Str alphabet = "abcdefghijklmnopqrstuvwxyz0123456789!@#$%^&*()-_=+[]{}|;:'\",.<>?/`~ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    for (int i = 0; i < cnt; i++) {
        Str s = take(rs[i]);
        PBT_CHECK(c, (int)s.size() >= mn && (int)s.size() <= mx, "random-length", "random string of length %zu, asked %d..%d", s.size(), mn, mx);
        for (char ch : s) PBT_CHECK(c, alphabet.find(ch) < (size_t)std::max(26, abc), "random-alphabet", "character '%c' outside the alphabet of size %d", ch, abc);
    }
    free(rs);
}
static void
run(Case &c)
{
    switch (c.weighted({4, 3, 2, 4, 3})) {
        case 0: run_match(c); break;
        case 1: run_helpers(c); break;
        case 2: run_split(c); break;
        case 3: run_tags(c); break;
        default: run_gen(c);
    }
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C22",
                    "strings with affix patterns cut from them and perturbed, tag lists with repeated, empty and malformed "
                    "entries, delimiters with adjacent and overlapping occurrences, and queries generated from tags of every "
                    "type, against direct definitions over std::string; non-trivial: an affix pattern that matches, a tag list "
                    "of several pairs with a match, a split into 3 or more parts, an affix query of a longer key",
                    1500000, 20000000, 500, 5, run};
    return pbt::run_main(argc, argv, p);
}
