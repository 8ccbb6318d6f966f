// C27: JSON documents survive parsing, printing and editing.
#include "pbt.hpp"
#include <cmath>
#include <memory>
extern "C" {
#include "cJSON.h"
}
using pbt::Case;
typedef std::string Str;

struct J {
    enum T { NUL, F, Tr, NUM, STR, ARR, OBJ } t = NUL;
    double           n = 0;
    Str              s;
    std::vector<J>   v;    // items
    std::vector<Str> k;    // their names
    bool operator==(const J &o) const
    {
        return t == o.t && (t != NUM || n == o.n) && (t != STR || s == o.s) && v == o.v && k == o.k;
    }
};
// numbers are printed with enough digits to be within the last bit or so of their value
static bool
close_to(const J &a, const J &b)
{
    if (a.t != b.t || (a.t == J::STR && a.s != b.s) || a.k != b.k || a.v.size() != b.v.size()) return false;
    if (a.t == J::NUM && std::fabs(a.n - b.n) > std::max(std::fabs(a.n), std::fabs(b.n)) * 2.3e-16) return false;
    for (size_t i = 0; i < a.v.size(); i++) if (!close_to(a.v[i], b.v[i])) return false;
    return true;
}
static Str
utf8(unsigned cp)
{
    Str s;
    if (cp < 0x80) s += (char)cp;
    else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    return s;
}
static Str
gstr(Case &c)
{
    Str    s;
    size_t n = c.below(c.chance(1, 8) ? 60 : 7);
    for (size_t i = 0; i < n; i++) switch (c.below(6)) {
            case 0: case 1: s += "abcXYZ019 _"[c.below(11)]; break;
            case 2: s += "\"\\/\b\f\n\r\t"[c.below(8)]; break;
            case 3: s += (char)(1 + c.below(31)); break;
            case 4: s += utf8(c.pick<unsigned>({0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff})); break;
            default: s += "{}[]:,'"[c.below(7)];
        }
    return s;
}
static double
gnum(Case &c)
{
    switch (c.below(6)) {
        case 0: return (double)c.range(-20, 20);
        case 1: return (double)c.range(-3000000000LL, 3000000000LL);
        case 2: return (double)c.range(-1000, 1000) / 8;
        case 3: { double d = std::ldexp(c.unit(), (int)c.range(-60, 60)); return c.flip() ? -d : d; }
        case 4: { double d = std::ldexp(1 + c.unit(), (int)c.range(-1060, 1020)); return c.flip() ? -d : d; }
        default: return c.pick<double>({0, 2147483647.0, -2147483648.0, 2147483648.0, 1e308, 5e-324, 0.1, 1e15, 123456789012345678.0, 9007199254740993.0, -0.5});
    }
}
static J
gen(Case &c, int depth)
{
    J      j;
    size_t w = depth <= 0 ? c.below(5) : c.weighted({1, 1, 1, 3, 3, 3, 4});
    j.t      = (J::T)w;
    c.span_begin();
    if (j.t == J::NUM) j.n = gnum(c);
    if (j.t == J::STR) j.s = gstr(c);
    if (j.t >= J::ARR) {
        size_t n = c.below(5);
        for (size_t i = 0; i < n; i++) {
            j.v.push_back(gen(c, depth - 1));
            if (j.t == J::OBJ) j.k.push_back(c.chance(1, 3) ? Str(1, "aAbB"[c.below(4)]) : gstr(c));
        }
    }
    c.span_end();
    return j;
}
// ---- own writer: every legal spelling ------------------------------------------------------------------------
static Str
ws(Case &c)
{
    Str s;
    if (c.chance(1, 4)) for (size_t i = 0, n = c.below(3); i < n; i++) s += " \t\r\n"[c.below(4)];
    return s;
}
static Str
wstr(Case &c, const Str &s)
{
    Str r = "\"";
    char b[16];
    for (size_t i = 0; i < s.size();) {
        unsigned char ch = s[i];
        size_t        l  = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
        unsigned      cp = l == 1 ? ch : l == 2 ? ch & 31 : l == 3 ? ch & 15 : ch & 7;
        for (size_t k = 1; k < l; k++) cp = cp << 6 | (s[i + k] & 63);
        static const char *sp = "\"\\/\b\f\n\r\t", *le = "\"\\/bfnrt";
        const char *q = ch < 0x80 ? strchr(sp, ch) : nullptr;
        bool must = ch < 32 || ch == '"' || ch == '\\';
        if (q && (must || c.flip()) && c.chance(3, 4)) { r += '\\'; r += le[q - sp]; }
        else if (must || c.chance(1, 6)) {
            if (cp < 0x10000) { snprintf(b, sizeof b, c.flip() ? "\\u%04x" : "\\u%04X", cp); r += b; }
            else { unsigned x = cp - 0x10000; snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd800 | x >> 10, 0xdc00 | (x & 1023)); r += b; }
        }
        else r += s.substr(i, l);
        i += l;
    }
    return r + "\"";
}
static Str
write(Case &c, const J &j)
{
    char b[64];
    Str  r;
    switch (j.t) {
        case J::NUL: return "null";
        case J::F: return "false";
        case J::Tr: return "true";
        case J::NUM: snprintf(b, sizeof b, c.flip() ? "%.17g" : "%.17E", j.n); return b;
        case J::STR: return wstr(c, j.s);
        default: break;
    }
    r = j.t == J::ARR ? "[" : "{";
    for (size_t i = 0; i < j.v.size(); i++) {
        if (i) r += ",";
        r += ws(c);
        if (j.t == J::OBJ) { r += wstr(c, j.k[i]); r += ws(c); r += ":"; r += ws(c); }
        r += write(c, j.v[i]);
        r += ws(c);
    }
    if (j.v.empty()) r += ws(c);
    return r + (j.t == J::ARR ? "]" : "}");
}
// ---- own strict reader -----------------------------------------------------------------------------------------
struct Reader {
    const Str &s;
    size_t     p = 0;
    bool       ok = true;
    Reader(const Str &x) : s(x) {}
    void sp() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
    bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l) == 0) { p += n; return true; } return ok = false; }
    unsigned hex()
    {
        unsigned v = 0;
        for (int i = 0; i < 4; i++, p++) {
            if (p >= s.size() || !isxdigit((unsigned char)s[p])) { ok = false; return 0; }
            v = v * 16 + (isdigit((unsigned char)s[p]) ? s[p] - '0' : (tolower(s[p]) - 'a' + 10));
        }
        return v;
    }
    Str str()
    {
        Str r;
        if (p >= s.size() || s[p] != '"') { ok = false; return r; }
        for (p++; ok && p < s.size() && s[p] != '"';) {
            if ((unsigned char)s[p] < 32) { ok = false; break; }
            if (s[p] != '\\') { r += s[p++]; continue; }
            if (++p >= s.size()) { ok = false; break; }
            char e = s[p++];
            static const char *le = "\"\\/bfnrt", *sp = "\"\\/\b\f\n\r\t";
            if (e == 'u') {
                unsigned u = hex();
                if (u >= 0xdc00 && u < 0xe000) { ok = false; break; }
                if (u >= 0xd800 && u < 0xdc00) {
                    if (s.compare(p, 2, "\\u")) { ok = false; break; }
                    p += 2;
                    unsigned l = hex();
                    if (l < 0xdc00 || l > 0xdfff) { ok = false; break; }
                    u = 0x10000 + ((u - 0xd800) << 10 | (l - 0xdc00));
                }
                r += utf8(u);
            }
            else if (e && strchr(le, e)) r += sp[strchr(le, e) - le];
            else ok = false;
        }
        if (p >= s.size()) ok = false;
        else p++;
        return r;
    }
    J val(int depth = 0)
    {
        J j;
        sp();
        if (p >= s.size() || depth > 990) { ok = false; return j; }
        switch (s[p]) {
            case 'n': lit("null"); return j;
            case 't': lit("true"); j.t = J::Tr; return j;
            case 'f': lit("false"); j.t = J::F; return j;
            case '"': j.t = J::STR; j.s = str(); return j;
            case '[': case '{': {
                bool o = s[p] == '{';
                j.t    = o ? J::OBJ : J::ARR;
                p++;
                sp();
                if (p < s.size() && s[p] == (o ? '}' : ']')) { p++; return j; }
                while (ok) {
                    sp();
                    if (o) { j.k.push_back(str()); sp(); if (!ok || p >= s.size() || s[p] != ':') { ok = false; break; } p++; }
                    j.v.push_back(val(depth + 1));
                    sp();
                    if (!ok || p >= s.size()) { ok = false; break; }
                    if (s[p] == ',') { p++; continue; }
                    if (s[p] == (o ? '}' : ']')) { p++; break; }
                    ok = false;
                }
                return j;
            }
            default: {
                size_t b = p;
                if (s[p] == '-') p++;
                if (p < s.size() && s[p] == '0') { p++; if (p < s.size() && isdigit((unsigned char)s[p])) ok = false; }
                else if (p < s.size() && isdigit((unsigned char)s[p])) while (p < s.size() && isdigit((unsigned char)s[p])) p++;
                else { ok = false; return j; }
                if (p < s.size() && s[p] == '.') { p++; size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (q == p) ok = false; }
                if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
                    p++;
                    if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
                    size_t q = p;
                    while (p < s.size() && isdigit((unsigned char)s[p])) p++;
                    if (q == p) ok = false;
                }
                if (p - b > 60) ok = false; // longer spellings than the parser reads in one piece
                j.t = J::NUM;
                j.n = strtod(s.substr(b, p - b).c_str(), nullptr);
                return j;
            }
        }
    }
};
static J
from(Case &c, const cJSON *x, int depth = 0)
{
    J j;
    PBT_CHECK(c, x != nullptr, "null-item", "an item is missing");
    int t = x->type & 255;
    switch (t) {
        case cJSON_NULL: j.t = J::NUL; PBT_CHECK(c, cJSON_IsNull(x), "type-test", "IsNull"); break;
        case cJSON_False: j.t = J::F; PBT_CHECK(c, cJSON_IsFalse(x) && cJSON_IsBool(x) && !cJSON_IsTrue(x), "type-test", "IsFalse"); break;
        case cJSON_True: j.t = J::Tr; PBT_CHECK(c, cJSON_IsTrue(x) && cJSON_IsBool(x) && !cJSON_IsFalse(x), "type-test", "IsTrue"); break;
        case cJSON_Number: {
            j.t = J::NUM; j.n = x->valuedouble;
            int want = j.n >= 2147483647.0 ? 2147483647 : j.n <= -2147483648.0 ? (-2147483647 - 1) : (int)j.n;
            PBT_CHECK(c, x->valueint == want, "valueint", "the integer value of %.17g is %d", j.n, x->valueint);
            PBT_CHECK(c, cJSON_IsNumber(x) && cJSON_GetNumberValue(x) == j.n, "type-test", "IsNumber");
            break;
        }
        case cJSON_String: j.t = J::STR; j.s = x->valuestring; PBT_CHECK(c, cJSON_IsString(x) && cJSON_GetStringValue(x) == x->valuestring, "type-test", "IsString"); break;
        case cJSON_Array: case cJSON_Object: {
            j.t = t == cJSON_Array ? J::ARR : J::OBJ;
            const cJSON *prev = nullptr;
            int n = 0;
            for (const cJSON *i = x->child; i; i = i->next, n++) {
                PBT_CHECK(c, i == x->child || i->prev == prev, "links", "item %d does not point back to its predecessor", n);
                j.v.push_back(from(c, i, depth + 1));
                if (j.t == J::OBJ) { PBT_CHECK(c, i->string, "no-name", "member %d has no name", n); j.k.push_back(i->string); }
                prev = i;
            }
            PBT_CHECK(c, !!cJSON_IsArray(x) == (t == cJSON_Array) && !!cJSON_IsObject(x) == (t == cJSON_Object) && !cJSON_IsString(x) && !cJSON_IsRaw(x) && !cJSON_IsInvalid(x), "type-test", "IsArray or IsObject");
            PBT_CHECK(c, cJSON_GetArraySize(x) == n, "array-size", "size %d of %d items", cJSON_GetArraySize(x), n);
            break;
        }
        default: c.fail("type", "unknown item type %d", x->type);
    }
    return j;
}
static cJSON *
make(Case &c, const J &j)
{
    switch (j.t) {
        case J::NUL: return cJSON_CreateNull();
        case J::F: return c.flip() ? cJSON_CreateFalse() : cJSON_CreateBool(0);
        case J::Tr: return c.flip() ? cJSON_CreateTrue() : cJSON_CreateBool(5);
        case J::NUM: return cJSON_CreateNumber(j.n);
        case J::STR: return cJSON_CreateString(j.s.c_str());
        default: break;
    }
    if (j.t == J::ARR && !j.v.empty() && c.flip()) { // an array of one type at once, from exactly sized memory
        size_t n = j.v.size();
        bool   num = true, str = true, in = true, fl = true;
        for (auto &e : j.v) {
            num = num && e.t == J::NUM;
            str = str && e.t == J::STR;
            in  = in && e.t == J::NUM && e.n == std::floor(e.n) && std::fabs(e.n) < 2e9;
            fl  = fl && e.t == J::NUM && std::fabs(e.n) < 1e38 && (double)(float)e.n == e.n;
        }
        cJSON *x = nullptr;
        if (in && c.flip()) { std::unique_ptr<int[]> a(new int[n]); for (size_t i = 0; i < n; i++) a[i] = (int)j.v[i].n; x = cJSON_CreateIntArray(a.get(), (int)n); }
        else if (fl && c.flip()) { std::unique_ptr<float[]> a(new float[n]); for (size_t i = 0; i < n; i++) a[i] = (float)j.v[i].n; x = cJSON_CreateFloatArray(a.get(), (int)n); }
        else if (num) { std::unique_ptr<double[]> a(new double[n]); for (size_t i = 0; i < n; i++) a[i] = j.v[i].n; x = cJSON_CreateDoubleArray(a.get(), (int)n); }
        else if (str) { std::unique_ptr<const char *[]> a(new const char *[n]); for (size_t i = 0; i < n; i++) a[i] = j.v[i].s.c_str(); x = cJSON_CreateStringArray(a.get(), (int)n); }
        if (num || str) { c.label("typed array"); PBT_CHECK(c, x != nullptr, "typed-array", "an array of %zu values could not be made", n); return x; }
    }
    cJSON *x = j.t == J::ARR ? cJSON_CreateArray() : cJSON_CreateObject();
    for (size_t i = 0; i < j.v.size(); i++) {
        const J &e = j.v[i];
        bool     ok;
        if (j.t == J::ARR) ok = cJSON_AddItemToArray(x, make(c, e));
        else if (e.t == J::NUL && c.flip()) ok = cJSON_AddNullToObject(x, j.k[i].c_str()) != nullptr;
        else if (e.t == J::F && c.flip()) ok = (c.flip() ? cJSON_AddFalseToObject(x, j.k[i].c_str()) : cJSON_AddBoolToObject(x, j.k[i].c_str(), 0)) != nullptr;
        else if (e.t == J::Tr && c.flip()) ok = (c.flip() ? cJSON_AddTrueToObject(x, j.k[i].c_str()) : cJSON_AddBoolToObject(x, j.k[i].c_str(), 7)) != nullptr;
        else if (e.t >= J::ARR && e.v.empty() && c.flip()) ok = (e.t == J::ARR ? cJSON_AddArrayToObject(x, j.k[i].c_str()) : cJSON_AddObjectToObject(x, j.k[i].c_str())) != nullptr;
        else if (e.t == J::NUM && c.flip()) ok = cJSON_AddNumberToObject(x, j.k[i].c_str(), e.n) != nullptr;
        else if (e.t == J::STR && c.flip()) ok = cJSON_AddStringToObject(x, j.k[i].c_str(), e.s.c_str()) != nullptr;
        else ok = cJSON_AddItemToObject(x, j.k[i].c_str(), make(c, e));
        PBT_CHECK(c, ok, "add", "an item could not be added");
    }
    return x;
}
static Str
print(Case &c, const cJSON *x, int mode)
{
    char *p = nullptr;
    switch (mode) {
        case 0: p = cJSON_PrintUnformatted(x); break;
        case 1: p = cJSON_Print(x); break;
        case 2: p = cJSON_PrintBuffered(x, (int)c.below(40) + 1, c.flip()); break;
        default: {
            char *q = cJSON_PrintUnformatted(x);
            if (!q) return "";
            int   need = (int)strlen(q) + 1, len = mode == 3 ? need + 5 : 1 + (int)c.below(need);
            char *b = (char *)malloc(len);
            int   r = cJSON_PrintPreallocated((cJSON *)x, b, len, 0);
            if (mode == 3) PBT_CHECK(c, r, "preallocated", "printing %d bytes into %d failed", need, len);
            if (r) PBT_CHECK(c, !strcmp(b, q), "preallocated-text", "printing into a buffer gives '%s', not '%s'", b, q);
            Str s = q;
            free(b);
            cJSON_free(q);
            return s;
        }
    }
    PBT_CHECK(c, p != nullptr, "print", "printing failed");
    Str s = p;
    cJSON_free(p);
    return s;
}
static size_t count(const J &j) { size_t n = 1; for (auto &e : j.v) n += count(e); return n; }

static void
check_print(Case &c, const cJSON *x, const J &j)
{
    int mode = c.below(5);
    Str t    = print(c, x, mode);
    c.note("printed (mode %d): %.300s\n", mode, t.c_str());
    Reader r(t);
    J      k = r.val();
    r.sp();
    PBT_CHECK(c, r.ok && r.p == t.size(), "print-invalid", "the printed text is not JSON: %.400s", t.c_str());
    PBT_CHECK(c, close_to(k, j), "print-value", "the printed text means something else: %.400s", t.c_str());
    if (mode == 0 || mode >= 3) {
        Str    f = print(c, x, 1);
        char * b = (char *)malloc(f.size() + 1);
        memcpy(b, f.c_str(), f.size() + 1);
        cJSON_Minify(b);
        PBT_CHECK(c, t == b, "minify", "minified formatted text '%.200s' differs from the unformatted text '%.200s'", b, t.c_str());
        free(b);
    }
}
static void
run_doc(Case &c)
{
    J   j = gen(c, 4);
    Str t = write(c, j);
    c.note("document: %.400s\n", t.c_str());
    cJSON *x;
    if (c.flip()) {
        Str    pad = c.flip() ? "" : ws(c);
        Str    full = pad + t + (c.flip() ? ws(c) : "");
        int    how  = c.below(3);
        size_t n    = full.size();
        char * b    = (char *)malloc(n + (how == 2 ? 0 : 1)); // by length: no terminator to rely on
        memcpy(b, full.c_str(), n + (how == 2 ? 0 : 1));
        const char *end = nullptr;
        x = how == 0 ? cJSON_Parse(b) : how == 1 ? cJSON_ParseWithOpts(b, &end, 1) : cJSON_ParseWithLength(b, n);
        PBT_CHECK(c, x != nullptr, "parse", "a valid document is rejected: %.400s", full.c_str());
        free(b);
    }
    else x = make(c, j);
    J k = from(c, x);
    PBT_CHECK(c, k == j, "value", "the document has another value than it was given: %.400s", t.c_str());
    check_print(c, x, j);
    cJSON *d = cJSON_Duplicate(x, 1);
    PBT_CHECK(c, d && from(c, d) == j, "duplicate", "a duplicate differs from its original");
    PBT_CHECK(c, cJSON_Compare(x, x, 1), "compare-self", "a document does not equal itself");
    // equality of documents whose objects have distinct names is equality of their values
    std::function<bool(const J &)> dup = [&](const J &q) {
        if (q.t == J::OBJ) { std::set<Str> s; for (auto n : q.k) { for (auto &ch : n) ch = tolower(ch); if (!s.insert(n).second) return true; } }
        for (auto &e : q.v) if (dup(e)) return true;
        return false;
    };
    if (!dup(j)) {
        PBT_CHECK(c, cJSON_Compare(x, d, 1) && cJSON_Compare(d, x, 1), "compare-copy", "a document does not equal its duplicate");
        J m = j, *q = &m;
        while (!q->v.empty() && c.chance(2, 3)) q = &q->v[c.below(q->v.size())];
        bool obj = q->t == J::OBJ || q->t == J::ARR;
        if (obj && !q->v.empty()) { q->v.pop_back(); if (q->t == J::OBJ) q->k.pop_back(); }
        else if (q->t == J::NUM) q->n = q->n == 0 ? 1 : -q->n;
        else if (q->t == J::STR) q->s += "!";
        else if (q->t == J::Tr) q->t = J::F;
        else q->t = J::Tr;
        cJSON *y = make(c, m);
        PBT_CHECK(c, !cJSON_Compare(x, y, 1) && !cJSON_Compare(y, x, 1), "compare-different", "two different documents compare equal");
        cJSON_Delete(y);
    }
    cJSON_Delete(x);
    PBT_CHECK(c, from(c, d) == j, "duplicate-shares", "deleting the original changed its duplicate");
    cJSON_Delete(d);
    c.label("document");
    if (count(j) > 4) c.nontrivial();
}
// arbitrary text: what strict JSON accepts is accepted with that value; whatever is accepted prints and parses back to itself
static void
run_text(Case &c)
{
    Str t = write(c, gen(c, 3));
    bool   pair = c.chance(1, 6); // otherwise legal, with a half of a surrogate pair or two that do not go together
    if (pair) {
        char  b[40];
        auto  esc = [&](unsigned u) { snprintf(b, sizeof b, c.flip() ? "\\u%04x" : "\\u%04X", u); return Str(b); };
        auto  hi = [&]() { return esc(0xd800 + c.pick<unsigned>({0, 0x3ff, (unsigned)c.below(0x400)})); };
        auto  lo = [&]() { return esc(0xdc00 + c.pick<unsigned>({0, 0x3ff, (unsigned)c.below(0x400)})); };
        Str   bad;
        switch (c.below(4)) {
            case 0: bad = hi(); break;
            case 1: bad = lo(); break;
            case 2: bad = hi() + hi(); break;
            default: bad = hi() + esc(c.pick<unsigned>({0xdbff, 0xe000, 0x41, 0xffff, 0xd7ff, 1 + (unsigned)c.below(0xd7ff)}));
        }
        Str pre = gstr(c), post = gstr(c), q = wstr(c, pre);
        q.pop_back();
        q += bad + wstr(c, post).substr(1);
        t = c.flip() ? q : c.flip() ? "[" + t + "," + q + "]" : "{" + q + ":" + t + "}";
        c.label("half-pair");
    }
    size_t n = pair ? 0 : 1 + c.below(4);
    for (size_t i = 0; i < n; i++) {
        size_t p = c.below(t.size() + 1);
        switch (c.below(5)) {
            case 0: t.insert(p, 1, "{}[]\",:\\u0123-.eEtfn+ d8"[c.below(25)]); break;
            case 1: if (p < t.size()) t.erase(p, 1 + c.below(3)); break;
            case 2: if (p < t.size()) t[p] = (char)(1 + c.below(255)); break;
            case 3: t = t.substr(0, p); break;
            default: t.insert(p, c.pick<const char *>({"\\ud83d", "\\u", "null", "[[", "1e", "tru", "\\ud800\\u0041", ",", "\\u0000"}));
        }
    }
    if (!pair && c.chance(1, 30)) t = Str(900 + c.below(300), '[');
    c.note("text: %.400s\n", t.c_str());
    char *b = (char *)malloc(t.size());
    memcpy(b, t.data(), t.size());
    const char *end = nullptr;
    cJSON *     x   = cJSON_ParseWithLengthOpts(b, t.size(), &end, 0);
    PBT_CHECK(c, !end || (end >= b && end <= b + t.size()), "parse-end", "the end of parsing lies outside the text");
    if (!x) {
        const char *e = cJSON_GetErrorPtr();
        PBT_CHECK(c, !e || t.empty() || (e >= b && e <= b + t.size()), "error-pointer", "the error position lies outside the text");
    }
    if (pair) PBT_CHECK(c, !x, "half-pair", "text with half a surrogate pair is accepted: %.300s", t.c_str());
    Reader r(t);
    J      j = r.val();
    bool has_nul = false;
    std::function<void(const J &)> walk = [&](const J &q) { if (q.s.find('\0') != Str::npos) has_nul = true; for (auto &k : q.k) if (k.find('\0') != Str::npos) has_nul = true; for (auto &e : q.v) walk(e); };
    walk(j);
    if (r.ok && !has_nul) {
        bool finite = true;
        std::function<void(const J &)> fin = [&](const J &q) { if (q.t == J::NUM && !std::isfinite(q.n)) finite = false; for (auto &e : q.v) fin(e); };
        fin(j);
        PBT_CHECK(c, x != nullptr, "parse", "valid text is rejected: %.300s", t.c_str());
        if (finite) PBT_CHECK(c, from(c, x) == j, "value", "the text means something else: %.300s", t.c_str());
    }
    if (x) {
        char *p = cJSON_PrintUnformatted(x);
        PBT_CHECK(c, p, "print", "accepted text cannot be printed");
        cJSON *y = cJSON_Parse(p);
        PBT_CHECK(c, y, "reparse", "the printed form of accepted text is rejected: %.300s", p);
        char *q = cJSON_PrintUnformatted(y);
        PBT_CHECK(c, !strcmp(p, q), "reprint", "printing is not stable: %.200s then %.200s", p, q);
        free(p);
        free(q);
        cJSON_Delete(y);
        cJSON_Delete(x);
        c.label("accepted");
    }
    else c.label("rejected");
    free(b);
    if (!r.ok && t.size() > 5) c.nontrivial();
}
// memory comes from the caller's functions, all of it goes back to them, and a failing one is survived
static std::set<void *> held;
static long             mem_at = -1;
static size_t           mem_calls;
static bool             mem_bad;
static void *hook_malloc(size_t n) { mem_calls++; if (mem_at >= 0 && mem_at-- == 0) return nullptr; void *p = malloc(n); memset(p, 0xa5, n); held.insert(p); return p; }
static void  hook_free(void *p) { if (!p) return; if (!held.erase(p)) { mem_bad = true; return; } free(p); }
// histories of edits on an array or object, against a vector
static void
run_edit(Case &c)
{
    bool   obj = c.flip();
    J      m;
    held.clear();
    mem_at  = -1;
    mem_bad = false;
    cJSON_Hooks hk{hook_malloc, hook_free}; // whatever the history takes goes back at its end
    cJSON_InitHooks(&hk);
    m.t      = obj ? J::OBJ : J::ARR;
    cJSON *x = obj ? cJSON_CreateObject() : cJSON_CreateArray();
    auto   low = [](Str s) { for (auto &ch : s) ch = tolower(ch); return s; };
    auto   name = [&]() { return !m.k.empty() && c.chance(2, 3) ? c.pick(m.k) : Str(1, "abAB"[c.below(4)]) + (c.flip() ? "x" : ""); };
    auto   find = [&](const Str &n, bool cs) { for (size_t i = 0; i < m.k.size(); i++) if (cs ? m.k[i] == n : low(m.k[i]) == low(n)) return (int)i; return -1; };
    int    edits = 0;
    std::vector<std::pair<cJSON *, J>> spare; // taken out earlier and used again, with whatever name they had
    auto   fresh = [&](J &e) {
        if (!spare.empty() && c.flip()) {
            size_t i = c.below(spare.size());
            cJSON *y = spare[i].first;
            e        = spare[i].second;
            spare.erase(spare.begin() + i);
            c.note("(one removed earlier) ");
            return y;
        }
        return make(c, e);
    };
    auto constant = [&](const Str &n) { static const char *const all[] = {"a", "b", "A", "B", "ax", "bx", "Ax", "Bx"}; for (auto k : all) if (n == k) return k; return (const char *)nullptr; };
    size_t n = 3 + c.below(25);
    for (size_t st = 0; st < n; st++) {
        c.span_begin();
        J   e = gen(c, 1);
        int op = c.below(9), at = (int)c.range(-1, m.v.size() + 1);
        Str nm = name();
        bool cs = c.flip();
        switch (op) {
            case 0: case 1:
                if (obj) {
                    bool cn = c.chance(1, 3);
                    cJSON *y = fresh(e);
                    c.note("add %s%s\n", nm.c_str(), cn ? " (constant)" : "");
                    PBT_CHECK(c, cn ? cJSON_AddItemToObjectCS(x, constant(nm), y) : cJSON_AddItemToObject(x, nm.c_str(), y), "add", "add failed");
                    m.k.push_back(nm);
                }
                else { cJSON *y = fresh(e); c.note("append\n"); PBT_CHECK(c, cJSON_AddItemToArray(x, y), "add", "add failed"); }
                m.v.push_back(e);
                break;
            case 2:
                c.note("get %d / %s\n", at, nm.c_str());
                if (obj) {
                    int    i = find(nm, cs);
                    cJSON *g = cs ? cJSON_GetObjectItemCaseSensitive(x, nm.c_str()) : cJSON_GetObjectItem(x, nm.c_str());
                    PBT_CHECK(c, i < 0 ? !g : g && from(c, g) == m.v[i] && m.k[i] == g->string, "get-member", "member '%s' (%s): wrong item", nm.c_str(), cs ? "exact" : "ignoring case");
                    PBT_CHECK(c, !!cJSON_HasObjectItem(x, nm.c_str()) == (find(nm, false) >= 0), "has-member", "member '%s'", nm.c_str());
                }
                {
                    cJSON *g = cJSON_GetArrayItem(x, at);
                    PBT_CHECK(c, at < 0 || at >= (int)m.v.size() ? !g : g && from(c, g) == m.v[at], "get-item", "item %d of %zu is wrong", at, m.v.size());
                }
                break;
            case 3: {
                int    i;
                cJSON *g = nullptr;
                bool   keep = c.flip();
                if (obj) {
                    i = find(nm, cs);
                    c.note("remove %s %s\n", nm.c_str(), keep ? "keeping it" : "");
                    if (keep) g = cs ? cJSON_DetachItemFromObjectCaseSensitive(x, nm.c_str()) : cJSON_DetachItemFromObject(x, nm.c_str());
                    else if (cs) cJSON_DeleteItemFromObjectCaseSensitive(x, nm.c_str());
                    else cJSON_DeleteItemFromObject(x, nm.c_str());
                }
                else {
                    i = at < 0 || at >= (int)m.v.size() ? -1 : at;
                    c.note("remove item %d\n", at);
                    if (keep) g = cJSON_DetachItemFromArray(x, at);
                    else cJSON_DeleteItemFromArray(x, at);
                }
                if (keep) {
                    PBT_CHECK(c, i < 0 ? !g : g && from(c, g) == m.v[i] && !g->next, "detach", "the wrong item was detached");
                    if (g) spare.push_back({g, m.v[i]});
                }
                if (i >= 0) { m.v.erase(m.v.begin() + i); if (obj) m.k.erase(m.k.begin() + i); edits++; }
                break;
            }
            case 4:
                if (!obj) {
                    c.note("insert at %d\n", at);
                    cJSON *y = fresh(e);
                    int    r = cJSON_InsertItemInArray(x, at, y);
                    if (at < 0) { PBT_CHECK(c, !r, "insert-negative", "inserting at %d succeeded", at); spare.push_back({y, e}); }
                    else {
                        PBT_CHECK(c, r, "insert", "inserting at %d of %zu failed", at, m.v.size());
                        m.v.insert(m.v.begin() + std::min((size_t)at, m.v.size()), e);
                        edits++;
                    }
                }
                break;
            case 5: {
                int    i = obj ? find(nm, cs) : (at < 0 || at >= (int)m.v.size() ? -1 : at);
                cJSON *y = fresh(e);
                c.note("replace %d / %s\n", at, nm.c_str());
                int r = obj ? (cs ? cJSON_ReplaceItemInObjectCaseSensitive(x, nm.c_str(), y) : cJSON_ReplaceItemInObject(x, nm.c_str(), y)) : cJSON_ReplaceItemInArray(x, at, y);
                PBT_CHECK(c, !!r == (i >= 0), "replace", "replacing item %d reports %d", i, r);
                if (i >= 0) { m.v[i] = e; if (obj) m.k[i] = nm; edits++; }
                else spare.push_back({y, e});
                break;
            }
            case 6:
                if (!m.v.empty()) {
                    size_t i = c.below(m.v.size());
                    cJSON *g = cJSON_GetArrayItem(x, (int)i);
                    if (m.v[i].t == J::NUM) { m.v[i].n = gnum(c); cJSON_SetNumberValue(g, m.v[i].n); }
                    else if (m.v[i].t == J::STR) { m.v[i].s = gstr(c); PBT_CHECK(c, cJSON_SetValuestring(g, m.v[i].s.c_str()), "set-string", "setting a string failed"); }
                    c.note("set item %zu\n", i);
                }
                break;
            case 7: { // go on with a copy
                cJSON *d = cJSON_Duplicate(x, 1);
                c.note("duplicate\n");
                PBT_CHECK(c, d && from(c, d) == m, "duplicate", "a duplicate differs from its original");
                cJSON_Delete(x);
                x = d;
                break;
            }
            default:
                if (!m.v.empty()) {
                    size_t i = c.below(m.v.size());
                    cJSON *g = cJSON_DetachItemViaPointer(x, cJSON_GetArrayItem(x, (int)i));
                    c.note("move item %zu to the end\n", i);
                    PBT_CHECK(c, g && from(c, g) == m.v[i], "detach", "the wrong item was detached");
                    e = m.v[i];
                    Str en = obj ? m.k[i] : "";
                    m.v.erase(m.v.begin() + i);
                    m.v.push_back(e);
                    if (obj) { m.k.erase(m.k.begin() + i); m.k.push_back(en); PBT_CHECK(c, cJSON_AddItemToObject(x, en.c_str(), g), "add", "add failed"); }
                    else PBT_CHECK(c, cJSON_AddItemToArray(x, g), "add", "add failed");
                    edits++;
                }
        }
        PBT_CHECK(c, from(c, x) == m, "edit", "after step %zu the %s has other items than expected", st, obj ? "object" : "array");
        c.span_end();
    }
    check_print(c, x, m);
    cJSON_Delete(x);
    for (auto &sp : spare) { PBT_CHECK(c, from(c, sp.first) == sp.second, "detached", "an item that was removed earlier has changed"); cJSON_Delete(sp.first); }
    PBT_CHECK(c, !mem_bad, "foreign", "memory was given back twice or was not the library's");
    PBT_CHECK(c, held.empty(), "leak", "%zu blocks were never given back", held.size());
    cJSON_InitHooks(nullptr);
    c.label(obj ? "edit object" : "edit array");
    if (edits > 2) c.nontrivial();
}
// text with comments where white space may stand means the same when minified
static void
run_comments(Case &c)
{
    J      j = gen(c, 3);
    cJSON *x = make(c, j);
    char * f = cJSON_Print(x), *u = cJSON_PrintUnformatted(x);
    PBT_CHECK(c, f && u, "print", "printing failed");
    Str  t;
    bool in = false;
    auto put = [&]() {
        if (!c.chance(1, 4)) return;
        Str body;
        for (size_t i = 0, n = c.below(8); i < n; i++) body += "ab*/\"\\{}[]:, "[c.below(13)];
        if (c.flip()) t += "//" + body + "\n";
        else {
            for (size_t p; (p = body.find("*/")) != Str::npos;) body.erase(p, 1);
            t += "/*" + body + (c.flip() ? "\n" : "*") + "*/";
        }
    };
    put();
    for (char *p = f; *p; p++) { // between tokens: around brackets, commas and colons
        bool was = in;
        if (*p == '"') in = !in;
        else if (in && *p == '\\') t += *p++;
        t += *p;
        if (!was && !in && strchr("{}[],:", *p)) put();
    }
    std::unique_ptr<char[]> b(new char[t.size() + 1]);
    memcpy(b.get(), t.c_str(), t.size() + 1);
    c.note("commented: %.400s\n", t.c_str());
    cJSON_Minify(b.get());
    PBT_CHECK(c, !strcmp(b.get(), u), "minify-comments", "minified text with comments is '%.300s', not '%.300s'", b.get(), u);
    free(f);
    free(u);
    cJSON_Delete(x);
    c.label("comments");
    if (t.size() > 40) c.nontrivial();
}
// items which stand for others: printed and compared like them, and deleted without them
static void
run_refs(Case &c)
{
    std::vector<J>       base;
    std::vector<cJSON *> orig;
    std::vector<Str>     keep(12); // names and strings which the document only refers to
    size_t nb = 1 + c.below(3);
    for (size_t i = 0; i < nb; i++) { base.push_back(gen(c, 2)); orig.push_back(make(c, base[i])); }
    J m;
    m.t = c.flip() ? J::OBJ : J::ARR;
    bool   obj = m.t == J::OBJ;
    cJSON *x = obj ? cJSON_CreateObject() : cJSON_CreateArray();
    size_t n = 1 + c.below(6), kept = 0;
    for (size_t i = 0; i < n; i++) {
        Str &   nm = keep[kept++];
        nm = Str(1, "abAB"[c.below(4)]);
        size_t  b = c.below(nb);
        J       e;
        cJSON * y = nullptr;
        bool    ok = true;
        c.span_begin();
        switch (c.below(6)) {
            case 0: { // to an item or one inside it
                cJSON *o = orig[b];
                e = base[b];
                while (!e.v.empty() && c.chance(2, 3)) { size_t k = c.below(e.v.size()); o = cJSON_GetArrayItem(o, (int)k); J in = e.v[k]; e = in; }
                c.note("reference to an item of %zu\n", b);
                ok = obj ? cJSON_AddItemReferenceToObject(x, nm.c_str(), o) : cJSON_AddItemReferenceToArray(x, o);
                break;
            }
            case 1: { Str &s = keep[kept++]; s = gstr(c); e.t = J::STR; e.s = s; y = cJSON_CreateStringReference(s.c_str()); c.note("string reference\n");
                if (c.flip()) {
                    Str other = gstr(c);
                    PBT_CHECK(c, !cJSON_SetValuestring(y, other.c_str()) && s == e.s && y->valuestring == s.c_str(), "reference-set", "a string that is referred to was set");
                }
                break; }
            case 2: if (base[b].t >= J::ARR) {
                    e = base[b];
                    y = e.t == J::ARR ? cJSON_CreateArrayReference(orig[b]->child) : cJSON_CreateObjectReference(orig[b]->child);
                    c.note("reference to the items of %zu\n", b);
                    break;
                }
                // fall through
            case 3: { // raw text
                e = gen(c, 2);
                Str t = write(c, e);
                c.note("raw %.100s\n", t.c_str());
                if (obj && c.flip()) ok = cJSON_AddRawToObject(x, nm.c_str(), t.c_str()) != nullptr;
                else y = cJSON_CreateRaw(t.c_str());
                cJSON *g = y ? y : cJSON_GetArrayItem(x, (int)m.v.size());
                PBT_CHECK(c, g && cJSON_IsRaw(g) && !cJSON_IsString(g) && t == g->valuestring, "raw", "a raw item does not hold its text");
                break;
            }
            default: e = gen(c, 2); y = make(c, e); c.note("item\n");
        }
        if (y) ok = !obj ? cJSON_AddItemToArray(x, y) : c.flip() ? cJSON_AddItemToObject(x, nm.c_str(), y) : cJSON_AddItemToObjectCS(x, nm.c_str(), y);
        PBT_CHECK(c, ok, "add", "an item could not be added");
        m.v.push_back(e);
        if (obj) m.k.push_back(nm);
        c.span_end();
    }
    auto means = [&](const cJSON *d, const char *what) {
        char *t = c.flip() ? cJSON_Print(d) : cJSON_PrintUnformatted(d);
        PBT_CHECK(c, t, "print", "%s cannot be printed", what);
        Str s = t;
        free(t);
        Reader r(s);
        J      k = r.val();
        r.sp();
        PBT_CHECK(c, r.ok && r.p == s.size() && close_to(k, m), "reference-print", "%s prints as %.300s", what, s.c_str());
    };
    means(x, "a document with references");
    cJSON *d = cJSON_Duplicate(x, 1);
    PBT_CHECK(c, d, "duplicate", "duplicating failed");
    means(d, "its duplicate");
    if (obj && c.flip()) { // the first member of this name goes, and what it refers to stays
        Str nm = c.pick(m.k);
        size_t i = std::find(m.k.begin(), m.k.end(), nm) - m.k.begin();
        cJSON_DeleteItemFromObjectCaseSensitive(x, nm.c_str());
        m.v.erase(m.v.begin() + i);
        m.k.erase(m.k.begin() + i);
        means(x, "what is left");
    }
    cJSON_Delete(x);
    for (size_t i = 0; i < nb; i++) {
        PBT_CHECK(c, from(c, orig[i]) == base[i], "reference-shares", "deleting a document changed the item it refers to");
        cJSON_Delete(orig[i]);
    }
    if (d) cJSON_Delete(d);
    c.label("references");
    if (n > 2) c.nontrivial();
}
static void
run_memory(Case &c)
{
    J   j = gen(c, 4);
    Str t = write(c, j);
    c.note("memory: %.300s\n", t.c_str());
    held.clear();
    mem_at = -1;
    mem_bad = false;
    cJSON_Hooks hk{hook_malloc, hook_free};
    cJSON_InitHooks(&hk);
    cJSON *x = nullptr;
    auto   fails = [&](const char *what, bool got, size_t before, bool armed, bool hit) {
        PBT_CHECK(c, got || hit, "fails", "%s failed although there was memory", what);
        if (!got) { c.label("out-of-memory"); PBT_CHECK(c, held.size() == before, "oom-leak", "%s that could not get memory did not release %zd blocks", what, held.size() - before); }
        (void)armed;
    };
    // every step once with a generated failing request, then with memory
    size_t upto = 2 + 2 * count(j);
    auto   attempt = [&](const char *what, std::function<bool()> f) {
        for (int k = 0; k < 2; k++) {
            size_t before = held.size();
            bool   armed = k == 0 && c.chance(2, 3);
            mem_at = armed ? (long)c.below(c.flip() ? 4 : upto) : -1;
            bool got = f(), hit = armed && mem_at == -1;
            mem_at = -1;
            fails(what, got, before, armed, hit);
            PBT_CHECK(c, !mem_bad, "foreign", "%s gave back memory that is not the caller's, or twice", what);
            if (got) return;
        }
    };
    attempt("parsing", [&]() { x = cJSON_ParseWithLength(t.data(), t.size()); return x != nullptr; });
    PBT_CHECK(c, from(c, x) == j, "value", "the document has another value than it was given: %.300s", t.c_str());
    for (int i = 0; i < 2; i++) {
        char *p = nullptr;
        int   how = (int)c.below(3), pre = 1 + (int)c.below(40);
        attempt("printing", [&]() { p = how == 0 ? cJSON_Print(x) : how == 1 ? cJSON_PrintUnformatted(x) : cJSON_PrintBuffered(x, pre, 0); return p != nullptr; });
        Str    text = p;
        Reader rr(text);
        J      k = rr.val();
        PBT_CHECK(c, rr.ok && close_to(k, j), "print-value", "the printed text means something else: %.300s", text.c_str());
        cJSON_free(p);
    }
    { // what is refused takes nothing
        cJSON *o = cJSON_CreateObject();
        size_t before = held.size();
        bool   took = cJSON_AddItemReferenceToObject(o, nullptr, x) || cJSON_AddNumberToObject(o, nullptr, 3) || cJSON_AddArrayToObject(nullptr, "a") || cJSON_AddItemToObject(o, nullptr, x) ||
                    cJSON_AddItemToObject(o, "a", nullptr) || cJSON_AddItemReferenceToObject(nullptr, "a", x) || cJSON_AddStringToObject(o, nullptr, "s") || cJSON_AddItemToArray(o, nullptr);
        PBT_CHECK(c, !took && !o->child, "nameless", "an item without a name, or no item, was added to an object");
        PBT_CHECK(c, held.size() == before, "nameless-leak", "refused additions did not release %zd blocks", held.size() - before);
        cJSON_Delete(o);
    }
    cJSON *d = nullptr;
    attempt("duplicating", [&]() { d = cJSON_Duplicate(x, 1); return d != nullptr; });
    PBT_CHECK(c, from(c, d) == j, "duplicate", "a duplicate differs from its original");
    PBT_CHECK(c, from(c, x) == j, "duplicate", "duplicating changed the original");
    cJSON_Delete(x);
    PBT_CHECK(c, from(c, d) == j, "duplicate-shares", "deleting the original changed its duplicate");
    cJSON_Delete(d);
    PBT_CHECK(c, !mem_bad && held.empty(), "leak", "%zu blocks were never given back", held.size());
    cJSON_InitHooks(nullptr);
    c.label("memory");
    if (count(j) > 4) c.nontrivial();
}
static void
run(Case &c)
{
    cJSON_InitHooks(nullptr);
    switch (c.weighted({4, 3, 3, 1, 2, 2})) {
        case 0: run_doc(c); break;
        case 1: run_text(c); break;
        case 3: run_comments(c); break;
        case 4: run_refs(c); break;
        case 5: run_memory(c); break;
        default: run_edit(c);
    }
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C27",
                    "documents generated as trees and spelled in every legal way or built through the interface, compared with "
                    "the tree and with an independent strict reader of what is printed; mutated text (accepted exactly when "
                    "legal, or else printed stably, within its length); edit histories against a vector; comments; items that refer to others; the caller's own memory functions with "
                    "failing requests; non-trivial: a "
                    "document of more than 4 values, rejected-by-the-grammar text of more than 5 bytes, more than 2 edits",
                    300000, 8000000, 200, 5, run};
    return pbt::run_main(argc, argv, p);
}
