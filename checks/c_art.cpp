// C20: the ordered string-key index (adaptive radix tree) behaves as an ordered map from keys to values.
#include "pbt.hpp"
extern "C" {
#include "art.h"
}
using pbt::Case;
typedef std::string                Str;
typedef std::map<Str, void *>      Map; // std::string compares as unsigned bytes, shorter first

enum Mode { CSTR, CSTR0, FIXED }; // length without / with the terminator, fixed-width binary keys
static const char *mname[] = {"strings", "strings+NUL", "fixed-width binary"};

struct Gen {
    Case &            c;
    Mode              m;
    int               alpha, width;
    std::vector<Str>  stems;
    std::vector<Str>  used;
    unsigned char ch()
    {
        switch (alpha) {
            case 0: return (unsigned char)("ab"[c.below(2)]);
            case 1: return (unsigned char)("abcdefgh\x7f\x80\xff" "A"[c.below(12)]);
            case 2: return (unsigned char)(m == FIXED ? c.below(256) : 1 + c.below(255));
            default: return (unsigned char)(m == FIXED ? 2 * c.below(60) : 1 + 2 * c.below(60)); // wide fan-out
        }
    }
    Str raw()
    {
        Str k;
        if (m == FIXED) {
            if (!stems.empty() && c.flip()) k = c.pick(stems).substr(0, width);
            while ((int)k.size() < width) k += (char)ch();
            return k;
        }
        switch (c.weighted({5, 4, 2, 2})) {
            case 0: { size_t n = c.below(6); for (size_t i = 0; i < n; i++) k += (char)ch(); break; }
            case 1: if (!stems.empty()) { k = c.pick(stems); size_t n = c.below(4); for (size_t i = 0; i < n; i++) k += (char)ch(); break; } // fallthrough
            case 2: if (!stems.empty()) { const Str &s = c.pick(stems); k = s.substr(0, c.below(s.size() + 1)); if (c.flip()) k += (char)ch(); break; }
            default: { size_t n = c.below(40); for (size_t i = 0; i < n; i++) k += (char)ch(); }
        }
        return k;
    }
    Str key()
    {
        if (!used.empty() && c.chance(1, 3)) return c.pick(used);
        Str k = raw();
        used.push_back(k);
        return k;
    }
};
static Str
esc(const Str &s)
{
    Str r = "\"";
    char b[8];
    for (unsigned char x : s) {
        if (x >= 32 && x < 127 && x != '"') r += (char)x;
        else { snprintf(b, sizeof b, "\\x%02x", x); r += b; }
    }
    return r + "\"";
}
// a key as the callers pass it: an exactly sized heap buffer
struct Buf {
    unsigned char *p;
    int            n;
    Buf(const Str &s, Mode m)
    {
        size_t sz = s.size() + (m == FIXED ? 0 : 1);
        p = (unsigned char *)malloc(sz ? sz : 1);
        memcpy(p, s.data(), s.size());
        if (m != FIXED) p[s.size()] = 0;
        n = (int)(s.size() + (m == CSTR0 ? 1 : 0));
    }
    ~Buf() { free(p); }
    Buf(const Buf &) = delete;
};
struct Col { std::vector<std::pair<Str, void *>> v; size_t stop = (size_t)-1; };
static int
cb(void *d, const unsigned char *k, uint32_t n, void *val)
{
    Col *o = (Col *)d;
    o->v.push_back({Str((const char *)k, n), val});
    return o->v.size() >= o->stop ? 77 : 0;
}
static void
run(Case &c)
{
    Mode m = (Mode)c.weighted({6, 2, 2});
    Gen  g{c, m, (int)c.weighted({3, 3, 2, 2}), 1 + (int)c.below(20), {}, {}};
    size_t ns = c.below(4);
    for (size_t i = 0; i < ns; i++) {
        Str s = g.stems.empty() || !c.flip() ? Str() : c.pick(g.stems);
        size_t n = 1 + c.below(25); // common prefixes longer than the 10 bytes a node stores
        for (size_t j = 0; j < n; j++) s += (char)g.ch();
        g.stems.push_back(s);
    }
    art_tree t;
    memset(&t, 0xA7, sizeof t);
    art_tree_init(&t);
    Map      M;
    uint64_t next = 1;
    size_t   maxn = 0, dels = 0, pref = 0;
    c.note("%s, alphabet %d:\n", mname[m], g.alpha);
    auto full = [&](const Str &k) { return m == CSTR0 ? k + Str(1, '\0') : k; };
    auto insert = [&](const Str &k, bool replace) {
        Buf   b(k, m);
        void *v = c.chance(1, 20) ? nullptr : (void *)(uintptr_t)(next++ * 8); // a key may be stored without a value
        void *o = replace ? art_insert(&t, b.p, b.n, v) : art_insert_no_replace(&t, b.p, b.n, v);
        auto  it = M.find(full(k));
        void *w  = it == M.end() ? nullptr : it->second;
        PBT_CHECK(c, o == w, "insert-old", "insert of %s returned %p, expected the previous value %p", esc(k).c_str(), o, w);
        if (it == M.end()) M[full(k)] = v;
        else if (replace) it->second = v;
        PBT_CHECK(c, art_size(&t) == M.size(), "size", "size %lu, expected %zu", (unsigned long)art_size(&t), M.size());
        maxn = std::max(maxn, M.size());
    };
    auto search = [&](const Str &k) {
        Buf   b(k, m);
        void *o = art_search(&t, b.p, b.n);
        auto  it = M.find(full(k));
        void *w  = it == M.end() ? nullptr : it->second;
        PBT_CHECK(c, o == w, "search", "search of %s gives %p, expected %p", esc(k).c_str(), o, w);
    };
    auto del = [&](const Str &k) {
        Buf   b(k, m);
        void *o = art_delete(&t, b.p, b.n);
        auto  it = M.find(full(k));
        void *w  = it == M.end() ? nullptr : it->second;
        PBT_CHECK(c, o == w, "delete", "delete of %s gives %p, expected %p", esc(k).c_str(), o, w);
        if (it != M.end()) { M.erase(it); dels++; }
        PBT_CHECK(c, art_size(&t) == M.size(), "size", "size %lu, expected %zu", (unsigned long)art_size(&t), M.size());
    };
    auto compare = [&](const Col &col, const std::vector<std::pair<Str, void *>> &want, int rc, const char *what) {
        size_t n = std::min(want.size(), col.stop);
        PBT_CHECK(c, col.v.size() == n, (Str(what) + "-count").c_str(), "%s visited %zu entries, expected %zu", what, col.v.size(), n);
        for (size_t i = 0; i < n; i++)
            PBT_CHECK(c, col.v[i] == want[i], (Str(what) + "-order").c_str(), "%s entry %zu is %s, expected %s", what, i, esc(col.v[i].first).c_str(), esc(want[i].first).c_str());
        PBT_CHECK(c, rc == (want.size() >= col.stop ? 77 : 0), "iter-rc", "%s returned %d", what, rc);
    };
    auto iter = [&](size_t stop) {
        Col col;
        col.stop = stop;
        int rc = art_iter(&t, cb, &col);
        compare(col, std::vector<std::pair<Str, void *>>(M.begin(), M.end()), rc, "iterate");
        art_leaf *lo = art_minimum(&t), *hi = art_maximum(&t);
        PBT_CHECK(c, (lo != nullptr) == !M.empty() && (hi != nullptr) == !M.empty(), "minmax", "minimum/maximum presence");
        if (lo) {
            Str a((char *)lo->key, lo->key_len), b((char *)hi->key, hi->key_len);
            PBT_CHECK(c, a == M.begin()->first && lo->value == M.begin()->second, "minimum", "minimum is %s, expected %s", esc(a).c_str(), esc(M.begin()->first).c_str());
            PBT_CHECK(c, b == M.rbegin()->first && hi->value == M.rbegin()->second, "maximum", "maximum is %s, expected %s", esc(b).c_str(), esc(M.rbegin()->first).c_str());
        }
    };
    auto prefix = [&](const Str &p, size_t stop) {
        Buf b(p, m == CSTR0 ? CSTR : m);
        Col col;
        col.stop = stop;
        int rc = art_iter_prefix(&t, b.p, b.n, cb, &col);
        std::vector<std::pair<Str, void *>> want;
        for (auto it = M.lower_bound(p); it != M.end() && it->first.compare(0, p.size(), p) == 0; ++it) want.push_back(*it);
        if (want.size() > 1 && !p.empty()) pref++;
        compare(col, want, rc, "prefix");
    };
    c.list(1, 22, 150, [&](size_t) {
        switch (c.weighted({8, 1, 4, 4, 4, 1, 3, 2})) {
            case 0: { Str k = g.key(); c.note("insert %s; ", esc(k).c_str()); insert(k, true); break; }
            case 1: { Str k = g.key(); c.note("insert_no_replace %s; ", esc(k).c_str()); insert(k, false); break; }
            case 2: { Str k = g.key(); c.note("search %s; ", esc(k).c_str()); search(k); break; }
            case 3: { Str k = g.key(); c.note("delete %s; ", esc(k).c_str()); del(k); break; }
            case 4: {
                Str p = g.key();
                if (c.flip()) p = p.substr(0, c.below(p.size() + 1));
                size_t stop = c.chance(1, 6) ? 1 + c.below(3) : (size_t)-1;
                c.note("prefix %s; ", esc(p).c_str());
                prefix(p, stop);
                break;
            }
            case 5: c.note("iterate; "); iter(c.chance(1, 4) ? 1 + c.below(5) : (size_t)-1); break;
            case 6: { // a node with many children
                Str    base = g.stems.empty() ? Str() : c.pick(g.stems);
                size_t n = 1 + c.below(60), step = c.pick<size_t>({1, 3, 5, 7});
                unsigned b0 = c.below(256);
                c.note("fan-out %s *%zu from %u step %zu; ", esc(base).c_str(), n, b0, step);
                bool rem = c.chance(1, 3);
                for (size_t i = 0; i < n; i++) {
                    unsigned x = (b0 + i * step) % 256;
                    if (m != FIXED && !x) continue;
                    Str k = base + Str(1, (char)x);
                    if (m == FIXED) { if ((int)k.size() > g.width) k = k.substr(k.size() - g.width); k.resize(g.width, 'z'); }
                    if (rem) del(k); else { insert(k, true); g.used.push_back(k); }
                }
                break;
            }
            default: { // delete a run of present keys so that nodes shrink and merge
                size_t n = 1 + c.below(40), from = c.below(M.size() + 1);
                c.note("delete %zu entries from #%zu; ", n, from);
                std::vector<Str> ks;
                auto it = M.begin();
                std::advance(it, std::min(from, M.size()));
                for (; it != M.end() && ks.size() < n; ++it) ks.push_back(m == CSTR0 ? it->first.substr(0, it->first.size() - 1) : it->first);
                for (auto &k : ks) del(k);
            }
        }
    });
    iter((size_t)-1);
    for (auto &k : g.used) search(k);
    if (c.flip()) {
        std::vector<Str> ks;
        for (auto &e : M) ks.push_back(m == CSTR0 ? e.first.substr(0, e.first.size() - 1) : e.first);
        if (c.flip()) std::reverse(ks.begin(), ks.end());
        for (size_t i = 0; i < ks.size(); i++) { del(ks[i]); if (i % 7 == 0) iter((size_t)-1); }
        PBT_CHECK(c, art_minimum(&t) == nullptr, "emptied", "an emptied index still has a minimum");
    }
    art_tree_destroy(&t);
    c.label(mname[m]);
    c.label(maxn > 48 ? ">48 keys" : maxn > 16 ? ">16 keys" : "small");
    if (maxn > 4 && dels && pref) c.nontrivial();
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C20",
                    "histories of insert/insert-no-replace/search/delete/iterate/prefix-iterate on keys with shared "
                    "prefixes of up to 50 bytes, every byte value and fan-outs up to 255, compared with std::map after "
                    "every step (values, sizes, order, minimum, maximum, early stop); non-trivial: more than 4 keys at "
                    "once, at least one effective delete and one non-empty prefix listing of 2 or more keys",
                    120000, 4000000, 200, 5, run};
    return pbt::run_main(argc, argv, p);
}
