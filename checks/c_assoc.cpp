// C23: hash tables and sets behave as the abstract map / set, whatever the key type, collisions and growth.
#include "pbt.hpp"
extern "C" {
#include "pdc_hash_table.h"
#include "pdc_set.h"
#include "pdc_hash.h"
#include "pdc_compare.h"
#include "pdc_hashtab.h"
// defined next to the declared defaults
extern HashTableHashFunc  pdc_default_double_hash_func_ptr;
extern HashTableEqualFunc pdc_default_double_equal_func_ptr;
// the server's copy of the hash table, built with its symbols renamed
HashTable *    srv_hash_table_new(HashTableHashFunc, HashTableEqualFunc);
void           srv_hash_table_free(HashTable *);
void           srv_hash_table_register_free_functions(HashTable *, HashTableKeyFreeFunc, HashTableValueFreeFunc);
int            srv_hash_table_insert(HashTable *, HashTableKey, HashTableValue);
HashTableValue srv_hash_table_lookup(HashTable *, HashTableKey);
int            srv_hash_table_remove(HashTable *, HashTableKey);
unsigned int   srv_hash_table_num_entries(HashTable *);
void           srv_hash_table_iterate(HashTable *, HashTableIterator *);
int            srv_hash_table_iter_has_more(HashTableIterator *);
HashTablePair  srv_hash_table_iter_next(HashTableIterator *);
}
using pbt::Case;

// ---- memory that runs out (the check is linked with --wrap=malloc and so on) ---------------------------------
static long              oom_at = -1; // the allocation that fails, counted from 0; -1: none
static bool              oom_hit, tracking;
static std::set<void *> *tracked;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static bool oom() { if (oom_at < 0) return false; if (oom_at-- == 0) { oom_hit = true; return true; } return false; }
static void *track(void *p) { if (tracking && p) tracked->insert(p); return p; }
void *__wrap_malloc(size_t n) { return oom() ? nullptr : track(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return oom() ? nullptr : track(__real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n)
{
    if (oom()) return nullptr;
    if (tracking) tracked->erase(p);
    return track(__real_realloc(p, n));
}
void __wrap_free(void *p) { if (tracking) tracked->erase(p); __real_free(p); }
}
// runs f, in which one of the first few allocations fails with a generated probability; true: one did
template <class F> static bool
scarce(Case &c, size_t num, size_t den, long upto, F f)
{
    oom_hit = false;
    if (!c.chance(num, den)) { f(); return false; }
    oom_at = (long)c.below(upto);
    f();
    oom_at = -1;
    if (oom_hit) { c.note("!"); c.label("out-of-memory"); }
    return oom_hit;
}
// what a failed operation allocated it has given back
template <class F> static bool
scarce_result(Case &c, long upto, F f)
{
    std::set<void *> t;
    tracked = &t;
    tracking = true;
    bool bad = false, hit = scarce(c, 1, 3, upto, [&]() { bad = !f(); });
    tracking = false;
    PBT_CHECK(c, !bad || hit, "fails", "an operation failed although there was memory");
    PBT_CHECK(c, !bad || t.empty(), "oom-leak", "an operation that could not get memory did not release %zu blocks", t.size());
    return !bad;
}

// ---- keys: heap blobs whose abstract identity is a string ---------------------------------------------------
enum KT { K_STR, K_STR_NC, K_INT, K_LONG, K_U64, K_DBL, K_PTR, NKT };
static const char *ktname[] = {"string", "nocase", "int", "long", "uint64", "double", "pointer"};
static char arena[4096]; // addresses used as pointer keys

struct Key {
    std::string id;  // abstract identity
    std::string raw; // bytes
};
static Key
make_key(KT t, uint64_t n)
{
    Key  k;
    char b[64];
    switch (t) {
        case K_STR: case K_STR_NC: {
            // "Ab"/"BA"-style djb2 collisions, long common prefixes, high bytes, empty string
            static const char *stem[] = {"", "k", "key_long_common_prefix_", "\xc3\xa9", "Ez", "FY"};
            const char *s = stem[n % 6];
            uint64_t    m = n / 6;
            std::string r = s;
            while (m) {
                static const char al[] = "azAZ\xff\x80" "09";
                r += al[m % 8];
                m /= 8;
            }
            k.raw = r + std::string(1, '\0');
            k.id  = r;
            if (t == K_STR_NC)
                for (auto &ch : k.id)
                    if (ch >= 'A' && ch <= 'Z') ch += 32;
            break;
        }
        case K_INT: {
            int v = n % 3 == 0 ? (int)n : n % 3 == 1 ? -(int)n : (int)(193u * 389u * (unsigned)n);
            k.raw.assign((char *)&v, sizeof v);
            break;
        }
        case K_LONG: {
            long v = n % 3 == 0 ? (long)n : n % 3 == 1 ? -(long)n : (long)(n << 32);
            k.raw.assign((char *)&v, sizeof v);
            break;
        }
        case K_U64: {
            uint64_t v = n % 3 == 0 ? n : n % 3 == 1 ? n << 32 : ~n;
            k.raw.assign((char *)&v, sizeof v);
            break;
        }
        case K_DBL: { // multiples of 1/1024: never nearer than the table's comparison tolerance
            double v = n % 3 == 0 ? n / 1024.0 : n % 3 == 1 ? -(double)n : (double)n * 1e6;
            k.raw.assign((char *)&v, sizeof v);
            snprintf(b, sizeof b, "%.17g", v == 0 ? 0.0 : v);
            k.id = b;
            break;
        }
        default: {
            snprintf(b, sizeof b, "%lu", (unsigned long)(n % sizeof arena));
            k.id = b;
            return k;
        }
    }
    if (k.id.empty() && t != K_STR && t != K_STR_NC)
        k.id = k.raw;
    return k;
}
static std::set<void *> live; // every blob handed to the container and not yet released
static void *
blob(KT t, const Key &k)
{
    if (t == K_PTR)
        return arena + atoi(k.id.c_str());
    void *p = malloc(k.raw.size());
    memcpy(p, k.raw.data(), k.raw.size());
    return p;
}
static Case *cur;
static void
free_key(void *p)
{
    if (!live.erase(p))
        cur->fail("free-twice", "the container released an item it does not own (or twice)");
    free(p);
}
static void
free_val(void *p) { free_key(p); }

struct HashOps {
    unsigned (*hash)(void *);
    int (*eq)(void *, void *);
    int (*cmp)(void *, void *);
};
static HashOps
ops_for(KT t, bool dflt)
{
    switch (t) {
        case K_STR: return dflt ? HashOps{pdc_default_string_hash_func_ptr, pdc_default_string_equal_func_ptr, nullptr} : HashOps{string_hash, string_equal, string_compare};
        case K_STR_NC: return HashOps{string_nocase_hash, string_nocase_equal, string_nocase_compare};
        case K_INT: return dflt ? HashOps{pdc_default_integer_hash_func_ptr, pdc_default_integer_equal_func_ptr, nullptr} : HashOps{int_hash, int_equal, int_compare};
        case K_LONG: return HashOps{pdc_default_long_hash_func_ptr, pdc_default_long_equal_func_ptr, nullptr};
        case K_U64: return dflt ? HashOps{pdc_default_uint64_hash_func_ptr, pdc_default_uint64_equal_func_ptr, nullptr} : HashOps{ui64_hash, ui64_equal, ui64_compare};
        case K_DBL: return HashOps{pdc_default_double_hash_func_ptr, pdc_default_double_equal_func_ptr, nullptr};
        default: return HashOps{pointer_hash, pointer_equal, pointer_compare};
    }
}
static KT
pick_kt(Case &c) { return (KT)c.weighted({4, 1, 2, 1, 3, 1, 1}); }
static uint64_t
keynum(Case &c, uint64_t space) { return c.below(space); }

// ---- the laws the containers rely on ------------------------------------------------------------------------
static void
run_laws(Case &c)
{
    KT      t = pick_kt(c);
    HashOps o = ops_for(t, c.flip());
    uint64_t space = c.pick<uint64_t>({20, 200, 5000});
    Key     k[3];
    void *  p[3];
    c.note("laws %s", ktname[t]);
    for (int i = 0; i < 3; i++) {
        uint64_t n = keynum(c, space);
        k[i] = make_key(t, n);
        // whole-range numbers, their edges, and strings of any bytes, near one another
        if ((t == K_INT || t == K_LONG || t == K_U64) && c.flip()) {
            uint64_t v = c.pick<uint64_t>({0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, c.bits(64), c.bits(32)}) + c.below(3) - 1;
            int      w = (int)v;
            if (t == K_INT) k[i].raw.assign((char *)&w, sizeof w);
            else k[i].raw.assign((char *)&v, sizeof v);
            k[i].id = k[i].raw;
        }
        else if ((t == K_STR || t == K_STR_NC) && c.flip()) {
            if (i && c.flip()) {
                k[i].raw = k[i - 1].raw;
                size_t at = c.below(k[i].raw.size());
                if (k[i].raw[at]) k[i].raw[at] ^= (char)(1u << c.below(8));
                k[i].raw = std::string(k[i].raw.c_str()) + '\0';
            }
            else {
                k[i].raw.clear();
                for (size_t l = c.below(8); l; l--) k[i].raw += (char)(1 + c.below(255));
                k[i].raw += '\0';
            }
            k[i].id = k[i].raw.c_str();
            if (t == K_STR_NC)
                for (auto &ch : k[i].id)
                    if (ch >= 'A' && ch <= 'Z') ch += 32;
        }
        p[i] = blob(t, k[i]);
        c.note(" %lu", (unsigned long)n);
    }
    auto sgn = [](int x) { return (x > 0) - (x < 0); };
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            bool same = k[i].id == k[j].id;
            PBT_CHECK(c, (o.eq(p[i], p[j]) != 0) == same, "law-equal", "equality of keys %d,%d is %d, expected %d", i, j, o.eq(p[i], p[j]), same);
            if (same)
                PBT_CHECK(c, o.hash(p[i]) == o.hash(p[j]), "law-hash", "equal keys hash differently");
            if (o.cmp) {
                int a = o.cmp(p[i], p[j]), b = o.cmp(p[j], p[i]);
                PBT_CHECK(c, sgn(a) == -sgn(b), "law-antisym", "compare(%d,%d)=%d but compare(%d,%d)=%d", i, j, a, j, i, b);
                PBT_CHECK(c, (a == 0) == same, "law-cmp-equal", "compare gives %d for %s keys", a, same ? "equal" : "different");
                if (t == K_INT) PBT_CHECK(c, sgn(a) == (*(int *)p[i] > *(int *)p[j]) - (*(int *)p[i] < *(int *)p[j]), "law-order", "int order");
                if (t == K_U64) PBT_CHECK(c, sgn(a) == (*(uint64_t *)p[i] > *(uint64_t *)p[j]) - (*(uint64_t *)p[i] < *(uint64_t *)p[j]), "law-order", "uint64 order");
                if (t == K_STR) PBT_CHECK(c, sgn(a) == sgn(strcmp((char *)p[i], (char *)p[j])), "law-order", "string order");
                for (int l = 0; l < 3; l++)
                    if (a <= 0 && o.cmp(p[j], p[l]) <= 0)
                        PBT_CHECK(c, o.cmp(p[i], p[l]) <= 0, "law-transitive", "comparison is not transitive");
            }
        }
    if (t != K_PTR)
        for (auto q : p) free(q);
    c.label(std::string("laws-") + ktname[t]);
    if (k[0].id == k[1].id || k[1].id == k[2].id || k[0].id == k[2].id) c.nontrivial();
}

// ---- hash table ----------------------------------------------------------------------------------------------
struct HT {
    decltype(&hash_table_new)                     nw;
    decltype(&hash_table_free)                    fr;
    decltype(&hash_table_register_free_functions) reg;
    decltype(&hash_table_insert)                  ins;
    decltype(&hash_table_lookup)                  look;
    decltype(&hash_table_remove)                  rem;
    decltype(&hash_table_num_entries)             num;
    decltype(&hash_table_iterate)                 it;
    decltype(&hash_table_iter_has_more)           more;
    decltype(&hash_table_iter_next)               next;
};
static const HT impl[2] = {
    {hash_table_new, hash_table_free, hash_table_register_free_functions, hash_table_insert, hash_table_lookup, hash_table_remove,
     hash_table_num_entries, hash_table_iterate, hash_table_iter_has_more, hash_table_iter_next},
    {srv_hash_table_new, srv_hash_table_free, srv_hash_table_register_free_functions, srv_hash_table_insert, srv_hash_table_lookup,
     srv_hash_table_remove, srv_hash_table_num_entries, srv_hash_table_iterate, srv_hash_table_iter_has_more, srv_hash_table_iter_next}};

static void
run_table(Case &c)
{
    const HT &H = impl[c.below(2)];
    KT        t = pick_kt(c);
    bool      dflt = c.flip();
    HashOps   o    = ops_for(t, dflt);
    bool      own  = t != K_PTR && c.chance(2, 3);
    uint64_t  space = c.pick<uint64_t>({12, 60, 300, 2000});
    HashTable *h = nullptr;
    if (!scarce_result(c, 3, [&]() { return (h = H.nw(o.hash, o.eq)) != nullptr; })) h = H.nw(o.hash, o.eq);
    c.note("hash table (%s) %s keys%s, key space %lu:", &H == impl ? "commons" : "server", ktname[t], own ? ", owning" : "", (unsigned long)space);
    if (own) H.reg(h, free_key, free_val);
    struct E { void *k, *v; };
    std::map<std::string, E> m;
    std::vector<void *>      garbage;
    size_t grown = 0, overw = 0, removed = 0;
    auto insert = [&](uint64_t n) {
        Key   k  = make_key(t, n);
        void *kp = blob(t, k), *vp = malloc(8);
        if (own) { live.insert(kp); live.insert(vp); }
        else { if (t != K_PTR) garbage.push_back(kp); garbage.push_back(vp); }
        int  r;
        bool no_mem = scarce(c, 1, 60, 2, [&]() { r = H.ins(h, kp, vp); });
        PBT_CHECK(c, r != 0 || no_mem, "table-insert", "insert failed");
        if (!r) { // then nothing has changed, and the pair is still the caller's
            PBT_CHECK(c, H.num(h) == m.size(), "table-oom", "%u entries after an insertion that failed, expected %zu", H.num(h), m.size());
            void *g = H.look(h, kp);
            PBT_CHECK(c, g == (m.count(k.id) ? m[k.id].v : nullptr), "table-oom", "an insertion that failed changed the table");
            if (own) {
                PBT_CHECK(c, live.count(kp) && live.count(vp), "table-oom", "an insertion that failed released the pair");
                live.erase(kp); live.erase(vp);
                if (t != K_PTR) free(kp);
                free(vp);
            }
            return;
        }
        auto it = m.find(k.id);
        if (it != m.end()) {
            overw++;
            if (own) PBT_CHECK(c, !live.count(it->second.k) && !live.count(it->second.v), "table-overwrite-free", "overwritten pair was not released");
        }
        m[k.id] = E{kp, vp};
        grown   = std::max(grown, m.size());
        PBT_CHECK(c, H.num(h) == m.size(), "table-count", "%u entries, expected %zu", H.num(h), m.size());
    };
    auto lookup = [&](uint64_t n) {
        Key   k = make_key(t, n);
        void *kp = blob(t, k);
        void *g = H.look(h, kp);
        auto  it = m.find(k.id);
        void *w = it == m.end() ? nullptr : it->second.v;
        PBT_CHECK(c, g == w, "table-lookup", "lookup of key %lu gives %s value", (unsigned long)n, !g ? "no" : w ? "a wrong" : "a phantom");
        if (t != K_PTR) free(kp);
    };
    auto remove = [&](uint64_t n) {
        Key   k = make_key(t, n);
        void *kp = blob(t, k);
        int   r = H.rem(h, kp);
        auto  it = m.find(k.id);
        PBT_CHECK(c, (r != 0) == (it != m.end()), "table-remove", "remove of key %lu reports %d", (unsigned long)n, r);
        if (it != m.end()) {
            removed++;
            if (own) PBT_CHECK(c, !live.count(it->second.k) && !live.count(it->second.v), "table-remove-free", "removed pair was not released");
            m.erase(it);
        }
        if (t != K_PTR) free(kp);
        PBT_CHECK(c, H.num(h) == m.size(), "table-count", "%u entries, expected %zu", H.num(h), m.size());
    };
    auto iterate = [&]() {
        HashTableIterator it;
        H.it(h, &it);
        std::map<void *, void *> seen;
        while (H.more(&it)) {
            HashTablePair p = H.next(&it);
            PBT_CHECK(c, seen.emplace(p.key, p.value).second, "table-iter-dup", "iterator produced a pair twice");
            PBT_CHECK(c, seen.size() <= m.size(), "table-iter-extra", "iterator produced more than %zu pairs", m.size());
        }
        PBT_CHECK(c, seen.size() == m.size(), "table-iter-missing", "iterator produced %zu of %zu pairs", seen.size(), m.size());
        for (auto &e : m) {
            auto s = seen.find(e.second.k);
            PBT_CHECK(c, s != seen.end() && s->second == e.second.v, "table-iter-pair", "iterator lost a pair or its newest value");
        }
        PBT_CHECK(c, H.next(&it).key == nullptr, "table-iter-end", "next at the end is not the null pair");
    };
    c.list(1, 14, 60, [&](size_t) {
        switch (c.weighted({4, 3, 3, 3, 1, 2})) {
            case 0: { uint64_t n = keynum(c, space); c.note(" +%lu", (unsigned long)n); insert(n); break; }
            case 1: { uint64_t n = keynum(c, space); c.note(" ?%lu", (unsigned long)n); lookup(n); break; }
            case 2: { uint64_t n = keynum(c, space); c.note(" -%lu", (unsigned long)n); remove(n); break; }
            case 3: {
                uint64_t a = keynum(c, space), l = 1 + c.below(150), s = c.pick<uint64_t>({1, 3, 193});
                c.note(" +%lu..*%lu/%lu", (unsigned long)a, (unsigned long)l, (unsigned long)s);
                for (uint64_t i = 0; i < l; i++) insert(a + i * s);
                break;
            }
            case 4: c.note(" iter"); iterate(); break;
            default: {
                uint64_t a = keynum(c, space), l = 1 + c.below(150);
                c.note(" -%lu..*%lu", (unsigned long)a, (unsigned long)l);
                for (uint64_t i = 0; i < l; i++) remove(a + i);
            }
        }
    });
    for (uint64_t n = 0; n < std::min<uint64_t>(space, 300); n++) lookup(n);
    iterate();
    H.fr(h);
    if (own) PBT_CHECK(c, live.empty(), "table-leak", "%zu items were never released", live.size());
    for (auto g : garbage) free(g);
    c.label(std::string("table-") + ktname[t]);
    c.label(grown > 65 ? "table-grown" : "table-small");
    if (grown > 65 || (overw && removed)) c.nontrivial();
}

// ---- set --------------------------------------------------------------------------------------------------------
struct TSet {
    Set *                         s;
    std::map<std::string, void *> m;
};
static void
run_set(Case &c)
{
    KT       t = pick_kt(c);
    HashOps  o = ops_for(t, c.flip());
    uint64_t space = c.pick<uint64_t>({12, 60, 300, 2000});
    bool     own = t != K_PTR && c.flip();
    TSet     S[2];
    std::vector<void *> garbage;
    for (auto &x : S) {
        if (!scarce_result(c, 3, [&]() { return (x.s = set_new(o.hash, o.eq)) != nullptr; })) x.s = set_new(o.hash, o.eq);
        if (own) set_register_free_function(x.s, free_key);
    }
    c.note("set %s%s, key space %lu:", ktname[t], own ? ", owning" : "", (unsigned long)space);
    size_t grown = 0, ops2 = 0;
    auto insert = [&](TSet &x, uint64_t n) {
        Key   k  = make_key(t, n);
        void *kp = blob(t, k);
        int   r;
        bool  nw = !x.m.count(k.id);
        if (scarce(c, 1, 60, 2, [&]() { r = set_insert(x.s, kp); }) && !r) {
            PBT_CHECK(c, set_num_entries(x.s) == x.m.size() && (set_query(x.s, kp) != 0) == !nw, "set-oom", "an insertion that failed changed the set");
            if (t != K_PTR) free(kp);
            return;
        }
        PBT_CHECK(c, (r != 0) == nw, "set-insert", "insert of %s item %lu reports %d", nw ? "a new" : "a present", (unsigned long)n, r);
        if (nw) {
            x.m[k.id] = kp;
            if (own) live.insert(kp); else if (t != K_PTR) garbage.push_back(kp);
        }
        else if (t != K_PTR) free(kp);
        grown = std::max(grown, x.m.size());
        PBT_CHECK(c, set_num_entries(x.s) == x.m.size(), "set-count", "%u entries, expected %zu", set_num_entries(x.s), x.m.size());
    };
    auto query = [&](TSet &x, uint64_t n) {
        Key   k  = make_key(t, n);
        void *kp = blob(t, k);
        int   r  = set_query(x.s, kp);
        PBT_CHECK(c, (r != 0) == (x.m.count(k.id) > 0), "set-query", "query of item %lu gives %d", (unsigned long)n, r);
        if (t != K_PTR) free(kp);
    };
    auto remove = [&](TSet &x, uint64_t n) {
        Key   k  = make_key(t, n);
        void *kp = blob(t, k);
        int   r  = set_remove(x.s, kp);
        auto  it = x.m.find(k.id);
        PBT_CHECK(c, (r != 0) == (it != x.m.end()), "set-remove", "remove of item %lu reports %d", (unsigned long)n, r);
        if (it != x.m.end()) {
            if (own) PBT_CHECK(c, !live.count(it->second), "set-remove-free", "removed item was not released");
            x.m.erase(it);
        }
        if (t != K_PTR) free(kp);
        PBT_CHECK(c, set_num_entries(x.s) == x.m.size(), "set-count", "%u entries, expected %zu", set_num_entries(x.s), x.m.size());
    };
    // contents of s must be exactly one representative of each id in ids, taken from a or b
    auto contents = [&](Set *s, const std::set<std::string> &ids, TSet &a, TSet *b, const char *what) {
        std::set<void *> got;
        SetIterator      it;
        set_iterate(s, &it);
        while (set_iter_has_more(&it)) {
            void *v = set_iter_next(&it);
            PBT_CHECK(c, got.insert(v).second, "set-iter-dup", "%s: iterator produced an item twice", what);
            PBT_CHECK(c, got.size() <= ids.size(), "set-iter-extra", "%s: more than %zu items", what, ids.size());
        }
        PBT_CHECK(c, set_iter_next(&it) == SET_NULL, "set-iter-end", "next at the end is not NULL");
        PBT_CHECK(c, got.size() == ids.size() && set_num_entries(s) == ids.size(), "set-iter-missing", "%s: %zu items listed, %u counted, expected %zu", what, got.size(), set_num_entries(s), ids.size());
        for (auto &i : ids) {
            auto p = a.m.find(i);
            bool ok = p != a.m.end() && got.count(p->second);
            if (!ok && b) { auto q = b->m.find(i); ok = q != b->m.end() && got.count(q->second); }
            PBT_CHECK(c, ok, "set-contents", "%s: an item is missing or foreign", what);
        }
        if (!ids.empty()) {
            SetValue *arr = nullptr;
            if (!scarce_result(c, 1, [&]() { return (arr = set_to_array(s)) != nullptr; })) arr = set_to_array(s);
            PBT_CHECK(c, arr != nullptr, "set-array", "no array for %zu items", ids.size());
            std::set<void *> ar(arr, arr + ids.size());
            PBT_CHECK(c, ar == got, "set-array", "%s: array and iterator disagree", what);
            free(arr);
        }
    };
    auto ids = [](TSet &x) { std::set<std::string> r; for (auto &e : x.m) r.insert(e.first); return r; };
    c.list(1, 14, 60, [&](size_t) {
        TSet &x = S[c.weighted({3, 2})];
        c.note(" %c", &x == S ? 'A' : 'B');
        switch (c.weighted({4, 3, 3, 4, 1, 2, 2})) {
            case 0: { uint64_t n = keynum(c, space); c.note("+%lu", (unsigned long)n); insert(x, n); break; }
            case 1: { uint64_t n = keynum(c, space); c.note("?%lu", (unsigned long)n); query(x, n); break; }
            case 2: { uint64_t n = keynum(c, space); c.note("-%lu", (unsigned long)n); remove(x, n); break; }
            case 3: {
                uint64_t a = keynum(c, space), l = 1 + c.below(150), s = c.pick<uint64_t>({1, 3, 193});
                c.note("+%lu..*%lu/%lu", (unsigned long)a, (unsigned long)l, (unsigned long)s);
                for (uint64_t i = 0; i < l; i++) insert(x, a + i * s);
                break;
            }
            case 4: contents(x.s, ids(x), x, nullptr, "set"); c.note("iter"); break;
            case 5: {
                uint64_t a = keynum(c, space), l = 1 + c.below(150);
                c.note("-%lu..*%lu", (unsigned long)a, (unsigned long)l);
                for (uint64_t i = 0; i < l; i++) remove(x, a + i);
                break;
            }
            default: {
                c.note("setops");
                Set *u = nullptr, *n = nullptr;
                long upto = 3 + (long)(S[0].m.size() + S[1].m.size());
                if (!scarce_result(c, upto, [&]() { return (u = set_union(S[0].s, S[1].s)) != nullptr; })) u = set_union(S[0].s, S[1].s);
                if (!scarce_result(c, upto, [&]() { return (n = set_intersection(S[0].s, S[1].s)) != nullptr; })) n = set_intersection(S[0].s, S[1].s);
                PBT_CHECK(c, u && n, "set-ops", "union or intersection failed");
                std::set<std::string> a = ids(S[0]), b = ids(S[1]), un = a, in;
                un.insert(b.begin(), b.end());
                for (auto &i : a) if (b.count(i)) in.insert(i);
                contents(u, un, S[0], &S[1], "union");
                contents(n, in, S[0], &S[1], "intersection");
                set_free(u); // results do not own the items
                set_free(n);
                if (!in.empty() && in.size() < un.size()) ops2++;
            }
        }
    });
    for (auto &x : S) {
        contents(x.s, ids(x), x, nullptr, "final");
        for (uint64_t n = 0; n < std::min<uint64_t>(space, 200); n++) query(x, n);
        set_free(x.s);
    }
    if (own) PBT_CHECK(c, live.empty(), "set-leak", "%zu items were never released", live.size());
    for (auto g : garbage) free(g);
    c.label(grown > 65 ? "set-grown" : "set-small");
    if (grown > 65 || ops2) c.nontrivial();
}

// ---- profiling hash table (open addressing) ------------------------------------------------------------------------
static hashval_t strhash_weak(const void *p) { return htab_hash_string(p) % 5; }
static hashval_t strhash_mod(const void *p) { return htab_hash_string(p) * 7; }
static int       streq(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b) == 0; }
static void      hfree(void *p) { free_key(p); }
struct Trav { std::set<void *> s; size_t dup = 0, stop = (size_t)-1, calls = 0; };
static int
trav(void **slot, void *info)
{
    Trav *t = (Trav *)info;
    t->calls++;
    if (!t->s.insert(*slot).second) t->dup++;
    return t->calls < t->stop;
}
static void
run_htab(Case &c)
{
    htab_hash hf = (htab_hash)(c.weighted({3, 1, 1}) == 0 ? (void *)htab_hash_string : c.flip() ? (void *)strhash_weak : (void *)strhash_mod);
    size_t    init = c.pick<size_t>({1, 7, 8, 30, 200});
    htab_t    h = nullptr;
    if (!scarce_result(c, 3, [&]() { return (h = htab_create(init, hf, (htab_eq)streq, hfree)) != nullptr; }))
        h = htab_create(init, hf, (htab_eq)streq, hfree);
    uint64_t  space = c.pick<uint64_t>({6, 30, 200});
    std::map<std::string, void *> m;
    size_t    grown = 0, reins = 0;
    std::set<std::string> deleted;
    c.note("profiling table(size %zu) space %lu:", init, (unsigned long)space);
    auto count = [&]() { PBT_CHECK(c, htab_elements(h) == m.size(), "htab-count", "%zu elements, expected %zu", htab_elements(h), m.size()); };
    auto insert = [&](uint64_t n) {
        Key    k = make_key(K_STR, n);
        void **s;
        if (scarce(c, 1, 12, 1, [&]() { s = htab_find_slot(h, k.raw.c_str(), INSERT); }) && !s) {
            count();
            PBT_CHECK(c, htab_find(h, k.raw.c_str()) == (m.count(k.id) ? m[k.id] : nullptr), "htab-oom", "an insertion that failed changed the table");
            return;
        }
        PBT_CHECK(c, s != nullptr, "htab-slot", "no slot");
        if (m.count(k.id)) PBT_CHECK(c, *s == m[k.id], "htab-present", "slot of a present element does not hold it");
        else {
            PBT_CHECK(c, *s == nullptr, "htab-new", "slot of an absent element is not empty");
            *s = blob(K_STR, k);
            live.insert(*s);
            m[k.id] = *s;
            if (deleted.count(k.id)) reins++;
        }
        grown = std::max(grown, m.size());
        count();
    };
    c.list(1, 25, 120, [&](size_t) {
        uint64_t n = keynum(c, space);
        Key      k = make_key(K_STR, n);
        switch (c.weighted({4, 3, 3, 2, 1, 2, 1})) {
            case 0: c.note(" +%lu", (unsigned long)n); insert(n); break;
            case 1: {
                c.note(" ?%lu", (unsigned long)n);
                void *g = htab_find(h, k.raw.c_str());
                void *w = m.count(k.id) ? m[k.id] : nullptr;
                PBT_CHECK(c, g == w, "htab-find", "find gives %p, expected %p", g, w);
                void **s = htab_find_slot(h, k.raw.c_str(), NO_INSERT);
                PBT_CHECK(c, (s ? *s : nullptr) == w, "htab-find-slot", "find_slot disagrees");
                break;
            }
            case 2:
                c.note(" -%lu", (unsigned long)n);
                htab_remove_elt(h, (void *)k.raw.c_str());
                if (m.count(k.id)) { PBT_CHECK(c, !live.count(m[k.id]), "htab-remove-free", "removed element not released"); m.erase(k.id); deleted.insert(k.id); }
                count();
                break;
            case 3: {
                uint64_t l = 1 + c.below(40);
                c.note(" +%lu..*%lu", (unsigned long)n, (unsigned long)l);
                for (uint64_t i = 0; i < l; i++) insert(n + i);
                break;
            }
            case 4: {
                Trav t;
                t.stop = c.flip() ? 1 + c.below(5) : (size_t)-1;
                htab_traverse(h, (htab_trav)trav, &t);
                size_t want = std::min(t.stop, m.size());
                c.note(" traverse");
                PBT_CHECK(c, t.dup == 0 && t.calls == want, "htab-traverse", "traverse visited %zu (dup %zu), expected %zu", t.calls, t.dup, want);
                if (want == m.size())
                    for (auto &e : m) PBT_CHECK(c, t.s.count(e.second), "htab-traverse", "traverse skipped an element");
                break;
            }
            case 5: {
                void **s = htab_find_slot(h, k.raw.c_str(), NO_INSERT);
                PBT_CHECK(c, (s != nullptr) == (m.count(k.id) > 0), "htab-find-slot", "find_slot disagrees");
                if (s) { c.note(" clear%lu", (unsigned long)n); htab_clear_slot(h, s); m.erase(k.id); deleted.insert(k.id); }
                count();
                break;
            }
            default:
                c.note(" empty");
                htab_empty(h);
                m.clear();
                count();
        }
        PBT_CHECK(c, htab_size(h) >= m.size(), "htab-size", "size %zu below %zu elements", htab_size(h), m.size());
    });
    for (uint64_t n = 0; n < space; n++) {
        Key   k = make_key(K_STR, n);
        void *g = htab_find(h, k.raw.c_str());
        PBT_CHECK(c, g == (m.count(k.id) ? m[k.id] : nullptr), "htab-find", "final find of %lu", (unsigned long)n);
    }
    htab_delete(h);
    PBT_CHECK(c, live.empty(), "htab-leak", "%zu elements never released", live.size());
    c.label(grown > 24 ? "htab-grown" : "htab-small");
    if (grown > 5 && reins) c.nontrivial();
}
static void
run(Case &c)
{
    live.clear();
    cur = &c;
    switch (c.weighted({3, 4, 3, 2})) {
        case 0: run_laws(c); break;
        case 1: run_table(c); break;
        case 2: run_set(c); break;
        default: run_htab(c);
    }
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C23",
                    "histories of insert/lookup/remove/iterate/set-operations over string, case-insensitive, int, long, "
                    "uint64, double and pointer keys with engineered collisions, compared with std::map after every step, "
                    "with ownership tracking of released keys and values; plus hash/equality/order laws on key triples; "
                    "non-trivial: grew past the first rehash, or overwrote and removed, or a set operation with a partial "
                    "overlap, or a deleted element reinserted, or a law triple with two equal keys",
                    60000, 2000000, 200, 5, run};
    return pbt::run_main(argc, argv, p);
}
