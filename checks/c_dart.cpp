// C21: placement - every query visits a server that holds each key it matches, whatever load and replication do.
#include "pbt.hpp"
extern "C" {
#include "dart_core.h"
}
using pbt::Case;
typedef std::string Str;

static std::vector<int64_t> load_of; // what the servers report while a key is placed
static uint32_t             nsrv;
static bool                 bad_server;
static dart_server
server_info(uint32_t id)
{
    dart_server s;
    memset(&s, 0, sizeof s);
    s.id = id;
    if (id >= nsrv) bad_server = true;
    else s.indexed_word_count = load_of[id];
    return s;
}
extern "C" threadpool __wrap_thpool_init(int n) { return (threadpool)(uintptr_t)(n + 1); } // no threads are needed here

static Str
key(Case &c, int alpha)
{
    static const char *A[] = {"ab", "abckP5Z", "abcdefghijklmnopqrstuvwxyz", "\x80\xc3\xff\xe9k" "a", "0123456789-_./ ABCXYZ"};
    Str                s;
    size_t             n = 1 + c.below(c.chance(1, 4) ? 12 : 5);
    for (size_t i = 0; i < n; i++) s += A[alpha][c.below(strlen(A[alpha]))];
    return s;
}
struct Ans { int n; index_hash_result_t *r; };
static char *
exact(const Str &s)
{
    char *p = (char *)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}

static void
run(Case &c)
{
    int       algo  = c.weighted({6, 1, 1}); // DART, DHT on the whole key, DHT on the initial
    unsigned  sizes[] = {1, 2, 3, 4, 5, 7, 8, 16, 26, 27, 28, 30, 50, 64, 100, 128};
    nsrv              = sizes[c.below(sizeof sizes / sizeof *sizes)];
    if (c.chance(1, 6)) nsrv = 1 + c.below(200);
    int  alphabet = c.chance(1, 2) ? 27 : c.pick<int>({2, 3, 10, 26, 29, 37, 64, 129});
    int  extra    = c.chance(1, 4) ? 1 : 0;
    int  repl     = c.chance(1, 3) ? 1 : 1 + (int)c.below(std::max(2u, std::min(nsrv, 5u)));
    if (alphabet <= 3 && nsrv > 64) nsrv = 64;
    DART d;
    memset(&d, 0, sizeof d);
    dart_space_init(&d, 1 + c.below(8), nsrv, alphabet, extra, repl);
    load_of.assign(nsrv, 0);
    bad_server = false;
    int pol    = c.below(3); // load of the servers: even, random, drifting with the insertions
    if (pol == 1) for (auto &l : load_of) l = c.below(50);
    c.note("algorithm %d, %u servers, alphabet %d, extra height %d, replication %d, load policy %d\n", algo, nsrv, alphabet, extra, repl, pol);

    std::vector<std::set<Str>> held(nsrv);              // what each server was told to index
    std::map<Str, std::set<uint32_t>> where;            // token -> servers it was sent to
    std::vector<Str> keys;
    int              al = c.below(5);
    auto             hash = [&](const Str &k, dart_op_type_t op, get_server_info_callback cb) {
        Ans   a;
        char *p = exact(k);
        a.r = nullptr;
        if (algo == 0) a.n = DART_hash(&d, p, op, cb, &a.r);
        else a.n = DHT_hash(&d, algo == 1 ? k.size() : 1, p, op, &a.r);
        PBT_CHECK(c, a.n >= 0, "negative-count", "%d servers for '%s' (operation %d)", a.n, k.c_str(), (int)op);
        for (int i = 0; i < a.n; i++)
            PBT_CHECK(c, a.r[i].server_id < nsrv, "no-such-server", "server %u of %u for '%s' (operation %d)", a.r[i].server_id, nsrv, k.c_str(), (int)op);
        return std::make_pair(a, p);
    };
    auto done = [&](std::pair<Ans, char *> &a) {
        std::set<char *> ks;
        for (int i = 0; i < a.first.n; i++) ks.insert(a.first.r[i].key);
        for (char *k : ks) if (k != a.second) free(k);
        free(a.first.r);
        free(a.second);
    };
    size_t nk = 1 + c.below(6);
    for (size_t i = 0; i < nk; i++) {
        Str  k = !keys.empty() && c.chance(1, 3) ? c.pick(keys) + key(c, al) : key(c, al);
        auto a = hash(k, OP_INSERT, server_info);
        PBT_CHECK(c, !bad_server, "no-such-server", "the load of a server that does not exist was asked for ('%s')", k.c_str());
        std::map<Str, std::set<uint32_t>> got;
        std::map<Str, int>                copies;
        for (int j = 0; j < a.first.n; j++) {
            Str t = a.first.r[j].key;
            got[t].insert(a.first.r[j].server_id);
            copies[t]++;
            held[a.first.r[j].server_id].insert(t);
            where[t].insert(a.first.r[j].server_id);
            if (pol == 2) load_of[a.first.r[j].server_id] += 1 + c.below(3);
        }
        c.note("insert '%s' -> %d placements\n", k.c_str(), a.first.n);
        if (algo == 0) {
            std::map<Str, int> sfx;
            for (size_t j = 0; j < k.size(); j++) sfx[k.substr(j)]++;
            for (auto &e : sfx)
                PBT_CHECK(c, copies[e.first] == repl * e.second, "replicas", "'%s' of '%s' gets %d copies, replication %d", e.first.c_str(), k.c_str(), copies[e.first], repl);
            PBT_CHECK(c, got.size() == sfx.size(), "foreign-token", "'%s' is indexed under %zu tokens, it has %zu suffixes", k.c_str(), got.size(), sfx.size());
        }
        else {
            PBT_CHECK(c, a.first.n == 1 && got.count(k), "dht-insert", "'%s' placed %d times", k.c_str(), a.first.n);
            for (size_t j = 0; j < k.size(); j++) held[a.first.r[0].server_id].insert(k.substr(j)); // the server indexes the suffixes
        }
        keys.push_back(k);
        done(a);
    }
    bool nt = false;
    size_t nq = 4 + c.below(12);
    for (size_t q = 0; q < nq; q++) {
        Str    k = c.pick(keys);
        size_t b = c.below(k.size()), n = 1 + c.below(k.size() - b);
        int    op = c.weighted({2, 3, 2, 3, 2});
        Str    t;
        dart_op_type_t o;
        switch (op) {
            case 0: o = OP_EXACT_QUERY; t = k; break;
            case 1: o = OP_PREFIX_QUERY; t = k.substr(0, c.chance(1, 15) ? 0 : n); break;
            case 2: o = OP_SUFFIX_QUERY; t = k.substr(b); break;
            case 3: o = OP_INFIX_QUERY; t = k.substr(b, c.chance(1, 15) ? 0 : n); break;
            default: o = OP_DELETE; t = k;
        }
        auto a = hash(t, o, NULL);
        std::set<uint32_t> srv;
        for (int j = 0; j < a.first.n; j++) srv.insert(a.first.r[j].server_id);
        const char *on = op == 0 ? "exact" : op == 1 ? "prefix" : op == 2 ? "suffix" : op == 3 ? "infix" : "delete";
        c.note("%s '%s' -> %zu servers\n", on, t.c_str(), srv.size());
        if (o == OP_DELETE) {
            std::map<Str, std::set<uint32_t>> dl;
            for (int j = 0; j < a.first.n; j++) dl[a.first.r[j].key].insert(a.first.r[j].server_id);
            for (size_t j = 0; j < (algo == 0 ? k.size() : 1); j++)
                for (uint32_t s : where[k.substr(j)])
                    PBT_CHECK(c, dl[k.substr(j)].count(s), "delete-misses", "deleting '%s' does not visit server %u for '%s'", k.c_str(), s, k.substr(j).c_str());
        }
        else {
            for (auto &kk : keys) {
                bool m = o == OP_EXACT_QUERY ? kk == t : o == OP_PREFIX_QUERY ? kk.compare(0, t.size(), t) == 0
                         : o == OP_SUFFIX_QUERY ? kk.size() >= t.size() && kk.compare(kk.size() - t.size(), t.size(), t) == 0
                                                : kk.find(t) != Str::npos;
                if (!m) continue;
                // where a server would find it: exact and prefix by the key itself, suffix by that suffix, infix by a suffix that starts with it
                bool found = false;
                for (uint32_t s : srv) {
                    auto &h = held[s];
                    if (o == OP_EXACT_QUERY || o == OP_PREFIX_QUERY) found |= h.count(kk) > 0;
                    else if (o == OP_SUFFIX_QUERY) found |= h.count(t) > 0;
                    else for (size_t p = kk.find(t); p != Str::npos; p = kk.find(t, p + 1)) found |= h.count(kk.substr(p)) > 0;
                }
                PBT_CHECK(c, found, (Str("missed-") + on).c_str(), "%s query '%s' visits no server that holds '%s'", on, t.c_str(), kk.c_str());
                if (srv.size() < nsrv && t.size() > 1) nt = true;
            }
        }
        done(a);
    }
    // arithmetic the placement rests on
    for (int i = 0; i < 4; i++) {
        uint64_t v = c.below(d.num_vnode);
        PBT_CHECK(c, get_server_id_by_vnode_id(&d, v) < nsrv, "vnode-server", "virtual node %lu of %lu is on server %lu of %u", (unsigned long)v, (unsigned long)d.num_vnode, (unsigned long)get_server_id_by_vnode_id(&d, v), nsrv);
    }
    if (algo == 0 && repl > 1) {
        // the copies of a key go to different places, as far as the alphabet tells them apart
        uint64_t *id = nullptr, v = c.below(d.num_vnode);
        int       n  = get_replica_node_ids(&d, v, 0, &id);
        PBT_CHECK(c, n == repl && id && id[0] == v, "replica-count", "%d places for %d copies", n, repl);
        std::set<uint64_t> at(id, id + n);
        PBT_CHECK(c, *at.rbegin() < d.num_vnode && at.size() == (size_t)std::min(repl, alphabet), "replica-places", "%d copies of what is at virtual node %lu of %lu go to %zu different nodes", repl, (unsigned long)v, (unsigned long)d.num_vnode, at.size());
        free(id);
    }
    PBT_CHECK(c, d.num_vnode >= nsrv, "too-few-vnodes", "%lu virtual nodes for %u servers", (unsigned long)d.num_vnode, nsrv);
    c.label(algo == 0 ? "dart" : "dht");
    if (nt) c.nontrivial();
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C21",
                    "1..200 servers, alphabets 2..129, replication 1..5, generated or drifting server loads; keys inserted "
                    "through the placement function into model servers, then exact, prefix, suffix, infix and delete requests "
                    "cut from the keys: the servers named must hold every match; non-trivial: a query of more than one "
                    "character that matches and does not simply visit every server",
                    200000, 4000000, 200, 5, run};
    return pbt::run_main(argc, argv, p);
}
