// C07: the distributed tag index returns exactly the references indexed under matching tags: histories of several
// clients inserting, deleting and searching over several servers, against a set of (name, value, reference).
#include "sim.hpp"
#include "pdc_api.hpp"
#include "mpi.h"
#include <cinttypes>
#include <cstring>
#include <map>
#include <set>
#include <tuple>

using pbt::Case;
typedef std::string Str;

extern "C" {
perr_t PDC_Client_search_obj_ref_through_dart(int, char *, int, int *, uint64_t **);
perr_t PDC_Client_search_obj_ref_through_dart_mpi(int, char *, int, int *, uint64_t **, MPI_Comm);
perr_t PDC_Client_delete_obj_ref_from_dart(int, char *, char *, int, uint64_t);
perr_t PDC_Client_insert_obj_ref_into_dart(int, char *, char *, int, uint64_t);
}

namespace {
struct Triple {
    Str      k, v;
    uint64_t ref;
    bool     operator<(const Triple &o) const { return std::tie(k, v, ref) < std::tie(o.k, o.v, o.ref); }
    bool     operator==(const Triple &o) const { return k == o.k && v == o.v && ref == o.ref; }
};
enum Pat { EXACT, PREFIX, SUFFIX, INFIX };
struct Pattern {
    Pat how;
    Str tok;
    Str text() const { return (how == SUFFIX || how == INFIX ? "*" : "") + tok + (how == PREFIX || how == INFIX ? "*" : ""); }
};
bool ends(const Str &s, const Str &t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
bool match(const Str &s, const Pattern &p)
{
    switch (p.how) {
    case EXACT: return s == p.tok;
    case PREFIX: return s.compare(0, p.tok.size(), p.tok) == 0;
    case SUFFIX: return ends(s, p.tok);
    default: return s.find(p.tok) != Str::npos;
    }
}
bool match_unanchored(const Str &s, const Pattern &p)
{
    return p.how == EXACT || p.how == SUFFIX ? ends(s, p.tok) : s.find(p.tok) != Str::npos;
}
// the suffixes of s under which the index can find it for p, when p matches it
std::vector<Str> serving(const Str &s, const Pattern &p)
{
    if (p.how == EXACT || p.how == PREFIX) return {s};
    if (p.how == SUFFIX) return {p.tok};
    std::vector<Str> r;
    for (size_t i = s.find(p.tok); i != Str::npos; i = s.find(p.tok, i + 1)) r.push_back(s.substr(i));
    return r;
}

enum Do { INSERT, DELETE, SEARCH, SEARCH_ALL };
struct Op {
    Do                what;
    Triple            t;
    Pattern           k, v;
    std::set<uint64_t> lower, upper, relaxed; // must be returned; may be; may be but for the missing anchors
    std::set<uint64_t> tainted;               // of lower: deletions of other tags of the same reference reached its entries
};

struct World {
    Case &                       c;
    int                          ns = 1, nc = 1, algo = 3, ref_type = 1;
    std::vector<std::vector<Op>> ops; // per client; separated by barriers at marks
    std::vector<std::vector<size_t>> marks;
    std::set<Triple>             live;
    std::map<Triple, int>        inserted, deleted; // last phase (of insertion: before the current one, if any)
    std::vector<Triple>          past;
    std::vector<Str>             keys, vals;
    std::vector<uint64_t>        refs;
    int                          nhit = 0, ndel = 0;
    bool                         unanchored = false, lost = false;
    Str                          what_unanchored, what_lost;

    World(Case &c) : c(c) {}
    Str word(int al)
    {
        static const char *A[] = {"ab", "abckP5Z", "abcdefghijklmnopqrstuvwxyz", "\xc3\xa9\xff" "ka", "0123456789-_./ABCXYZ"};
        Str    s;
        size_t n = 1 + c.below(c.chance(1, 25) ? 40 : c.chance(1, 3) ? 10 : 4);
        for (size_t i = 0; i < n; i++) s += A[al][c.below(strlen(A[al]))];
        return s;
    }
    Pattern pattern(const Str &s)
    {
        if (c.chance(1, 12)) return {(Pat)c.below(4), word(2)};
        size_t b = c.below(s.size()), n = 1 + c.below(s.size() - b);
        switch (c.below(4)) {
        case 0: return {EXACT, s};
        case 1: return {PREFIX, s.substr(0, n)};
        case 2: return {SUFFIX, s.substr(b)};
        default: return {INFIX, s.substr(b, n)};
        }
    }
    Triple triple()
    {
        if (!past.empty() && c.chance(1, 3)) {
            Triple t = past[c.below(past.size())];
            if (c.flip()) t.ref = refs[c.below(refs.size())];
            return t;
        }
        return {keys[c.below(keys.size())], vals[c.below(vals.size())], refs[c.below(refs.size())]};
    }
    void gen()
    {
        ns = 1 + (int)c.below(c.chance(1, 6) ? 9 : 4);
        nc = 1 + (int)c.weighted({3, 3, 1});
        algo = c.weighted({6, 1, 1}) == 0 ? 3 : 1 + (int)c.below(2);
        ref_type = 1 + (int)c.weighted({4, 1, 1});
        ops.resize(nc);
        marks.resize(nc);
        int ka = (int)c.below(5), va = (int)c.below(5);
        for (int i = 2 + (int)c.below(8); i-- > 0;) keys.push_back(!keys.empty() && c.chance(1, 3) ? keys[c.below(keys.size())] + word(ka) : word(ka));
        for (int i = 1 + (int)c.below(5); i-- > 0;) vals.push_back(!vals.empty() && c.chance(1, 4) ? word(va) + vals[c.below(vals.size())] : word(va));
        for (int i = c.chance(1, 5) ? 2 : 24; i-- > 0;) refs.push_back(c.chance(1, 3) ? 1 + c.below(1000) : 1 + c.bits(63));
        c.note("%d servers, %d clients, algorithm %d, reference type %d\n", ns, nc, algo, ref_type);
        int nph = 1 + (int)c.below(4);
        for (int ph = 0; ph < nph; ph++) phase(ph);
    }
    void phase(int ph)
    {
        c.note("phase %d\n", ph);
        // first decide what every client does, then what its searches may see
        std::map<Triple, int> owner;
        std::vector<std::vector<Op>> P(nc);
        int n = 2 + (int)c.below(8);
        for (int k = 0; k < nc; k++) {
            for (int i = 0; i < n; i++) {
                c.span_begin();
                Op op{};
                int w = (int)c.weighted({5, 3, 5});
                if (w == 2 || (w == 1 && live.empty() && owner.empty())) {
                    op.what = SEARCH;
                    const Triple t = past.empty() ? triple() : past[c.below(past.size())];
                    op.k = pattern(c.chance(1, 6) ? keys[c.below(keys.size())] : t.k);
                    op.v = pattern(c.chance(1, 6) ? vals[c.below(vals.size())] : t.v);
                    P[k].push_back(op);
                }
                else {
                    op.t = triple();
                    op.what = w ? DELETE : INSERT;
                    if (w && !past.empty() && c.chance(3, 4)) op.t = past[c.below(past.size())];
                    auto o = owner.emplace(op.t, k);
                    if (o.first->second == k) {
                        P[k].push_back(op);
                        if (!w) past.push_back(op.t);
                    }
                }
                c.span_end();
            }
        }
        std::set<Triple> before = live, ever_in = live, ever_out;
        for (auto &v : P)
            for (auto &op : v) {
                if (op.what == INSERT) ever_in.insert(op.t), inserted.emplace(op.t, ph);
                if (op.what == DELETE) ever_out.insert(op.t), deleted[op.t] = ph, ndel++;
            }
        for (int k = 0; k < nc; k++) {
            std::set<Triple> mine = before;
            for (auto &op : P[k]) {
                if (op.what == INSERT) mine.insert(op.t), live.insert(op.t);
                else if (op.what == DELETE) mine.erase(op.t), live.erase(op.t);
                else {
                    for (auto &t : ever_in) {
                        bool own = owner.count(t) && owner[t] == k;
                        bool up = own ? mine.count(t) : true, low = own ? mine.count(t) : before.count(t) && !ever_out.count(t);
                        judge(op, t, low, up);
                    }
                }
                show(k, op);
                ops[k].push_back(op);
            }
            marks[k].push_back(ops[k].size());
        }
        // nothing changes any more: everyone must see the same
        int q = 1 + (int)c.below(4);
        for (int i = 0; i < q; i++) {
            c.span_begin();
            Op op{};
            op.what = c.chance(1, 3) ? SEARCH_ALL : SEARCH;
            const Triple t = past.empty() ? triple() : past[c.below(past.size())];
            op.k = pattern(t.k);
            op.v = pattern(t.v);
            for (auto &x : live) judge(op, x, true, true);
            int k = (int)c.below(nc);
            for (int j = 0; j < nc; j++)
                if (op.what == SEARCH_ALL || j == k) {
                    show(j, op);
                    ops[j].push_back(op);
                }
            c.span_end();
        }
        for (int k = 0; k < nc; k++) marks[k].push_back(ops[k].size());
        for (auto &v : P)
            for (auto &op : v)
                if (op.what == INSERT) inserted[op.t] = ph;
    }
    bool is_tainted(const Triple &t, const Op &op)
    {
        for (auto &sk : serving(t.k, op.k))
            for (auto &sv : serving(t.v, op.v)) {
                bool hit = false;
                for (auto &d : deleted)
                    if (d.first.ref == t.ref && !(d.first == t) && d.second >= inserted[t] && ends(d.first.k, sk) && ends(d.first.v, sv)) hit = true;
                if (!hit) return false;
            }
        return true;
    }
    void judge(Op &op, const Triple &t, bool low, bool up)
    {
        if (!up) return;
        if (match(t.k, op.k) && match(t.v, op.v)) {
            op.upper.insert(t.ref);
            if (low) {
                bool ta = is_tainted(t, op);
                if (!ta) op.tainted.erase(t.ref);
                else if (!op.lower.count(t.ref)) op.tainted.insert(t.ref);
                op.lower.insert(t.ref);
            }
        }
        if (match_unanchored(t.k, op.k) && match_unanchored(t.v, op.v)) op.relaxed.insert(t.ref);
    }
    void show(int k, const Op &op)
    {
        if (op.what == INSERT) c.note(" client %d inserts %s=%s -> %" PRIu64 "\n", k, op.t.k.c_str(), op.t.v.c_str(), op.t.ref);
        else if (op.what == DELETE) c.note(" client %d deletes %s=%s -> %" PRIu64 "\n", k, op.t.k.c_str(), op.t.v.c_str(), op.t.ref);
        else c.note(" client %d searches %s=%s%s -> %zu..%zu references\n", k, op.k.text().c_str(), op.v.text().c_str(), op.what == SEARCH_ALL ? " together" : "", op.lower.size(), op.upper.size());
    }
    void body(sim::Proc &p)
    {
        int k = sim::rank(p);
        pdcid_t pdc = SIM(p, PDCinit)("pdc");
        PBT_CHECK(c, pdc, "init", "PDCinit failed");
        MPI_Barrier(MPI_COMM_WORLD);
        size_t i = 0;
        for (size_t m : marks[k]) {
            for (; i < m; i++) perform(p, k, ops[k][i]);
            MPI_Barrier(MPI_COMM_WORLD);
        }
        SIM(p, PDC_Client_close_all_server)();
        PBT_CHECK(c, SIM(p, PDCclose)(pdc) >= 0, "pdc-close", "PDCclose failed");
    }
    void perform(sim::Proc &p, int k, const Op &op)
    {
        char *a = strdup(op.t.k.c_str()), *b = strdup(op.t.v.c_str());
        Str   q = op.k.text() + "=" + op.v.text();
        if (op.what == INSERT)
            PBT_CHECK(c, SIM(p, PDC_Client_insert_obj_ref_into_dart)(algo, a, b, ref_type, op.t.ref) >= 0, "insert-fails", "client %d: inserting %s=%s failed", k, a, b);
        if (op.what == DELETE)
            PBT_CHECK(c, SIM(p, PDC_Client_delete_obj_ref_from_dart)(algo, a, b, ref_type, op.t.ref) >= 0, "delete-fails", "client %d: deleting %s=%s failed", k, a, b);
        if (op.what == SEARCH || op.what == SEARCH_ALL) {
            int       n = -1;
            uint64_t *out = nullptr;
            char *    s = strdup(q.c_str());
            perr_t    e = op.what == SEARCH ? SIM(p, PDC_Client_search_obj_ref_through_dart)(algo, s, ref_type, &n, &out)
                                            : SIM(p, PDC_Client_search_obj_ref_through_dart_mpi)(algo, s, ref_type, &n, &out, MPI_COMM_WORLD);
            PBT_CHECK(c, e >= 0 && n >= 0, "search-fails", "client %d: searching %s failed", k, s);
            PBT_CHECK(c, n == 0 || out, "no-result", "client %d: searching %s yields %d references but no list", k, s, n);
            std::set<uint64_t> got;
            for (int i = 0; i < n; i++) {
                PBT_CHECK(c, got.insert(out[i]).second, "twice", "client %d: searching %s yields reference %" PRIu64 " twice", k, s, out[i]);
                if (op.upper.count(out[i])) continue;
                PBT_CHECK(c, op.relaxed.count(out[i]), "ghost", "client %d: searching %s yields reference %" PRIu64 ", which has no such tag", k, s, out[i]);
                unanchored = true;
                what_unanchored = "searching " + q + " yields reference " + std::to_string(out[i]) + ", whose tag only contains that text";
            }
            for (uint64_t r : op.lower)
                if (!got.count(r)) {
                    PBT_CHECK(c, op.tainted.count(r), "missed", "client %d: searching %s misses reference %" PRIu64, k, s, r);
                    lost = true;
                    what_lost = "searching " + q + " misses reference " + std::to_string(r) + " after another tag with the same ending was deleted from it";
                }
            if (!op.lower.empty()) nhit++;
            if (n > 0) free(out);
            free(s);
        }
        free(a);
        free(b);
    }
};

void run(Case &c)
{
    sim::begin(c);
    sim::connections(c);
    World W(c);
    W.gen();
    sim::servers(W.ns);
    sim::clients(W.nc, [&](sim::Proc &p) { W.body(p); });
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
    if (W.nhit > 1) c.nontrivial();
    if (W.ndel) c.label("deletions");
    if (W.ns > 2) c.label("several servers");
    sim::end();
    // judged last, so that the rest of the history is judged as well
    if (W.lost) c.fail("shared-ending-deleted", "%s", W.what_lost.c_str());
    if (W.unanchored) c.fail("unanchored", "%s", W.what_unanchored.c_str());
}
} // namespace
int main(int argc, char **argv)
{
    sim::preload(9, 3);
    pbt::Property p{"C07", "each case is a generated history of 1-3 clients inserting, deleting and searching tags over 1-9 servers; non-trivial: at least two searches had to find something", 7000, 120000, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads and clocks are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
