// C11: what a process puts into a request or an answer is what the other side gets out: every message of every request
// both sides registered, random field values, encoded by the sender's compiled library and decoded by the receiver's;
// and the conversions between PDC's own structs and the messages (regions, object descriptions, data queries).
#include "sim.hpp"
#include "pdc_api.hpp"
#include "mercury.h"
#include "rpc_types.h"
#include <cinttypes>
#include <cstring>
#include <memory>

using pbt::Case;
typedef std::string Str;

struct rm_meta {
    int      user, ts, type, transform, storage_order, t_type, meta_index, part, cons;
    uint64_t id, cont, server, ndim, dims[4], t_ndim, t_dims[4];
    char     app[1200], name[1200], tags[1200], loc[1200];
};
extern "C" {
const struct_t *rpc_structs_client(void);
const rpc_t *   rpc_list_client(void);
const struct_t *rpc_structs_server(void);
const rpc_t *   rpc_list_server(void);
size_t shim_region_transfer_size(void);
void   shim_region_fill(void *, uint64_t, const uint64_t *, const uint64_t *);
void   shim_region_read(const void *, uint64_t *, uint64_t *, uint64_t *);
int    shim_info_to_transfer(void *f, uint64_t ndim, uint64_t *off, uint64_t *cnt, uint64_t unit, int scaled, void *t);
int    shim_transfer_to_list(void *f, void *t, uint64_t *ndim, uint64_t *off, uint64_t *cnt);
int    shim_list_to_transfer(void *f, uint64_t ndim, const uint64_t *off, const uint64_t *cnt, void *t);
int    shim_info_to_list(void *f, uint64_t ndim, uint64_t *off, uint64_t *cnt, uint64_t *n2, uint64_t *o2, uint64_t *c2);
int    shim_transfer_to_info(void *f, void *t, uint64_t *ndim, uint64_t *off, uint64_t *cnt);
void * shim_meta_new(const rm_meta *, int poison);
void   shim_meta_read(const void *, rm_meta *);
size_t shim_meta_transfer_size(void);
}
// layouts of the three structs that say themselves how long a part of them is
struct query_xfer { // as in pdc_client_server_common.h; offsets are taken from the table
    int *ops;
    pdc_query_constraint_t *cons;
};

namespace {
struct Side {
    const struct_t *structs;
    const rpc_t *   rpcs;
    sim::Proc *     p;
    const char *    who;
};
const field_t *
field(const struct_t *s, const Str &n)
{
    for (const field_t *f = s->fields; f->name; f++) if (n == f->name) return f;
    return nullptr;
}
int64_t
num(const void *base, const field_t *f)
{
    int64_t v = 0;
    memcpy(&v, (const char *)base + f->off, f->size);
    if (f->size < 8 && (v >> (8 * f->size - 1)) & 1) v -= (int64_t)1 << (8 * f->size);
    return v;
}
template <class T> T &at(void *base, const field_t *f) { return *(T *)((char *)base + f->off); }
Str
text(Case &c, size_t max)
{
    size_t n = c.chance(1, 30) ? max : c.size(std::min<size_t>(max, 40));
    Str    s;
    if (n == max) s = Str(max, (char)('a' + c.below(26)));
    else for (size_t i = 0; i < n; i++) s += (char)(c.chance(1, 10) ? 128 + c.below(128) : 33 + c.below(94));
    return s;
}
uint64_t
value(Case &c, size_t size)
{
    int      b = (int)size * 8;
    uint64_t v = (uint64_t)1 << (b - 1);
    switch (c.below(4)) {
    case 0: return c.below(5);
    case 1: return c.bits((int)c.range(1, b));
    case 2: return c.bits(b);
    default: return c.flip() ? v : c.flip() ? v - 1 : v - 1 + v;
    }
}
const int MAXTEXT = 1023;

struct Msgs {
    Case &c;
    explicit Msgs(Case &c) : c(c) {}
    std::vector<std::unique_ptr<char[]>> mem;
    void *keep(size_t n)
    {
        mem.emplace_back(new char[n ? n : 1]);
        return mem.back().get();
    }
    char *keep(const Str &s)
    {
        char *p = (char *)keep(s.size() + 1);
        memcpy(p, s.c_str(), s.size() + 1);
        return p;
    }
    void bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)c.bits(8); }
    void num_at(void *b, const field_t *f, uint64_t v) { memcpy((char *)b + f->off, &v, f->size); }

    // ---- fill a struct with random contents
    void fill(Side &S, const struct_t *s, char *b)
    {
        Str n = s->name;
        for (const field_t *f = s->fields; f->name; f++) {
            char *q = b + f->off;
            switch (f->kind) {
            case K_NUM: num_at(b, f, value(c, f->size)); break;
            case K_ENUM: num_at(b, f, (uint64_t)c.range(-1, 20)); break;
            case K_BOOL: num_at(b, f, c.below(2)); break;
            case K_STR: *(char **)q = keep(text(c, MAXTEXT)); break;
            case K_CHARS: { Str t = text(c, f->size - 1); memset(q, 0, f->size); memcpy(q, t.data(), t.size()); break; }
            case K_BULK: {
                std::vector<std::pair<void *, size_t>> seg;
                size_t k = 1 + c.size(3);
                for (size_t i = 0; i < k; i++) { size_t l = 1 + c.size(300); seg.push_back({keep(l), l}); }
                *(void **)q = sim::bulk_of(*S.p, seg);
                break;
            }
            case K_STRUCT: fill(S, &S.structs[f->sub], q); break;
            default: memset(q, 0, f->size); break;
            }
        }
        if (n == "pdc_kvtag_t") {
            const field_t *sz = field(s, "size"), *v = field(s, "value");
            uint32_t k = c.chance(1, 8) ? 0 : (uint32_t)(1 + c.size(c.chance(1, 10) ? 5000 : 40));
            num_at(b, sz, k);
            at<void *>(b, v) = keep(k);
            bytes(at<void *>(b, v), std::min<uint32_t>(k, 64));
            if (k > 64) memset(at<char *>(b, v) + 64, (int)c.bits(8), k - 64);
        }
        if (n == "pdc_histogram_t") {
            int k = (int)c.size(20);
            num_at(b, field(s, "nbin"), (uint64_t)k);
            double *  r = (double *)keep(k * 16);
            uint64_t *m = (uint64_t *)keep(k * 8);
            bytes(r, k * 16); bytes(m, k * 8);
            at<double *>(b, field(s, "range")) = r;
            at<uint64_t *>(b, field(s, "bin")) = m;
        }
        if (field(s, "has_hist")) num_at(b, field(s, "has_hist"), c.below(2));
        if (n == "pdc_query_xfer_t") {
            int k = (int)c.size(8), l = (int)c.size(17);
            if (!k) l = 0;
            num_at(b, field(s, "n_constraints"), (uint64_t)k);
            num_at(b, field(s, "n_combine_ops"), (uint64_t)l);
            int *o = (int *)keep(l * sizeof(int));
            void *p = keep(k * sizeof(pdc_query_constraint_t));
            bytes(o, l * sizeof(int)); bytes(p, k * sizeof(pdc_query_constraint_t));
            at<int *>(b, field(s, "combine_ops")) = o;
            at<void *>(b, field(s, "constraints")) = p;
        }
    }
    // ---- compare what was sent (layout of side A) with what was received (layout of side B)
    void same(Side &A, const struct_t *sa, const char *a, Side &B, const struct_t *sb, const char *b, const Str &where)
    {
        Str n = sa->name;
        bool hist = true;
        if (const field_t *h = field(sa, "has_hist")) hist = num(a, h) == 1;
        for (const field_t *f = sa->fields; f->name; f++) {
            const field_t *g = field(sb, f->name);
            Str            w = where + "." + f->name;
            PBT_CHECK(c, g, "layout", "%s is in the sender's message but not in the receiver's", w.c_str());
            const char *p = a + f->off, *q = b + g->off;
            switch (f->kind) {
            case K_NUM: case K_ENUM: case K_BOOL:
                PBT_CHECK(c, num(a, f) == num(b, g), "number", "%s was sent as %" PRId64 " and received as %" PRId64, w.c_str(), num(a, f), num(b, g));
                break;
            case K_STR: {
                const char *x = *(char *const *)p, *y = *(char *const *)q;
                PBT_CHECK(c, y && !strcmp(x, y), "string", "%s was sent as \"%s\" and received as \"%s\"", w.c_str(), x, y ? y : "(null)");
                PBT_CHECK(c, x != y, "shared", "%s received is the sender's memory", w.c_str());
                break;
            }
            case K_CHARS: PBT_CHECK(c, !strcmp(p, q), "string", "%s was sent as \"%s\" and received as \"%s\"", w.c_str(), p, q); break;
            case K_BULK: {
                // this message leaves the handle out when it says that there is nothing to fetch
                if (n == "bulk_rpc_in_t" && num(a, field(sa, "cnt")) == 0) break;
                PBT_CHECK(c, *(uint64_t *)q != 0xA5A5A5A5A5A5A5A5, "bulk", "%s is not sent", w.c_str());
                auto x = sim::bulk_segs(*(void *const *)p), y = sim::bulk_segs(*(void *const *)q);
                PBT_CHECK(c, x == y, "bulk", "%s describes other memory after it was sent", w.c_str());
                break;
            }
            case K_STRUCT:
                if (Str(A.structs[f->sub].name) == "pdc_histogram_t" && !hist) break;
                same(A, &A.structs[f->sub], p, B, &B.structs[g->sub], q, w);
                break;
            default: break;
            }
        }
        auto raw = [&](const char *f, size_t k) {
            const void *x = *(void *const *)(a + field(sa, f)->off), *y = *(void *const *)(b + field(sb, f)->off);
            if (k) PBT_CHECK(c, x != y && !memcmp(x, y, k), "bytes", "the %zu bytes of %s.%s changed on the way", k, where.c_str(), f);
        };
        if (n == "pdc_kvtag_t") raw("value", (size_t)num(a, field(sa, "size")));
        if (n == "pdc_histogram_t") {
            size_t k = (size_t)num(a, field(sa, "nbin"));
            raw("range", k * 16);
            raw("bin", k * 8);
        }
        if (n == "pdc_query_xfer_t" && num(a, field(sa, "n_constraints"))) {
            raw("combine_ops", (size_t)num(a, field(sa, "n_combine_ops")) * sizeof(int));
            raw("constraints", (size_t)num(a, field(sa, "n_constraints")) * sizeof(pdc_query_constraint_t));
        }
    }
    // sends a message; returns what arrived, in memory that was not zero before
    char *send(Side &A, Side &B, const Str &rpc, bool out, int ia, int ib, char *a)
    {
        std::vector<char> wire;
        size_t            used = 0, used2 = 0;
        int               r    = sim::rpc_code(*A.p, rpc, out, 0, wire, used, a);
        const char *      what = out ? "answer" : "request";
        PBT_CHECK(c, r == 0, "encode", "%s of %s: the %s cannot encode it (%d)", what, rpc.c_str(), A.who, r);
        char *b = (char *)keep(B.structs[ib].size);
        memset(b, 0xA5, B.structs[ib].size);
        r = sim::rpc_code(*B.p, rpc, out, 1, wire, used2, b);
        PBT_CHECK(c, r == 0, "decode", "%s of %s: the %s cannot decode what the %s encoded (%d)", what, rpc.c_str(), B.who, A.who, r);
        PBT_CHECK(c, used2 == wire.size(), "length", "%s of %s: the %s leaves %zu of %zu bytes unread", what, rpc.c_str(), B.who, wire.size() - used2, wire.size());
        (void)ia;
        return b;
    }
    void release(Side &B, const Str &rpc, bool out, char *b)
    {
        std::vector<char> none;
        size_t            used;
        int               r = sim::rpc_code(*B.p, rpc, out, 2, none, used, b);
        PBT_CHECK(c, r == 0, "free", "%s of %s: the %s cannot release it (%d)", out ? "answer" : "request", rpc.c_str(), B.who, r);
    }
};

struct Conv {
    Case & c;
    Msgs & M;
    Side & A, &B;
    const rpc_t *ra, *rb;
    bool   out;
    int    count = 0;
    static int find(Side &S, const struct_t *s, const char *sub) // offset of a part of that type
    {
        for (const field_t *f = s->fields; f->name; f++)
            if (f->kind == K_STRUCT && Str(S.structs[f->sub].name) == sub) return (int)f->off;
        return -1;
    }
    // regions
    void region(const Str &name, int ia, int ib)
    {
        int oa = find(A, &A.structs[ia], "region_info_transfer_t"), ob = find(B, &B.structs[ib], "region_info_transfer_t");
        if (oa < 0 || ob < 0) return;
        count++;
        std::vector<char> m(A.structs[ia].size);
        M.fill(A, &A.structs[ia], m.data());
        uint64_t nd = 1 + c.below(4), off[4] = {0}, cnt[4] = {0}, unit = c.pick({1, 2, 4, 8});
        for (uint64_t i = 0; i < nd; i++) { off[i] = value(c, 8) >> 4; cnt[i] = value(c, 8) >> 4; }
        int how = (int)c.below(3);
        if (how < 2) {
            // exactly as long as the region has dimensions
            uint64_t *o = (uint64_t *)M.keep(nd * 8), *n = (uint64_t *)M.keep(nd * 8);
            memcpy(o, off, nd * 8); memcpy(n, cnt, nd * 8);
            void *f = sim::symbol(*A.p, how ? "PDC_region_info_t_to_transfer_unit" : "PDC_region_info_t_to_transfer");
            PBT_CHECK(c, shim_info_to_transfer(f, nd, o, n, unit, how, m.data() + oa) == 0, "convert", "a region of %d dimensions cannot be sent", (int)nd);
            if (how) for (int i = 0; i < 4; i++) { off[i] *= unit; cnt[i] *= unit; }
        }
        else PBT_CHECK(c, shim_list_to_transfer(sim::symbol(*A.p, "PDC_region_list_t_to_transfer"), nd, off, cnt, m.data() + oa) == 0, "convert", "a region of %d dimensions cannot be sent", (int)nd);
        char *   b = M.send(A, B, name, out, ia, ib, m.data());
        uint64_t n2 = 0, o2[4] = {0}, c2[4] = {0};
        const char *to;
        if (c.flip()) {
            to = "PDC_region_transfer_t_to_list_t";
            PBT_CHECK(c, shim_transfer_to_list(sim::symbol(*B.p, to), b + ob, &n2, o2, c2) == 0, "convert", "%s failed", to);
        }
        else {
            to = "PDC_region_transfer_t_to_region_info";
            PBT_CHECK(c, shim_transfer_to_info(sim::symbol(*B.p, to), b + ob, &n2, o2, c2) == 0, "convert", "%s failed", to);
        }
        PBT_CHECK(c, n2 == nd, "region", "a region of %d dimensions arrives with %d (%s)", (int)nd, (int)n2, to);
        for (uint64_t i = 0; i < nd; i++)
            PBT_CHECK(c, o2[i] == off[i] && c2[i] == cnt[i], "region",
                      "dimension %d of %d: (%" PRIu64 ",%" PRIu64 ") arrives as (%" PRIu64 ",%" PRIu64 ") (%s)", (int)i, (int)nd, off[i], cnt[i], o2[i], c2[i], to);
        M.release(B, name, out, b);
    }
    // object descriptions
    void meta(const Str &name, int ia, int ib)
    {
        int oa = find(A, &A.structs[ia], "pdc_metadata_transfer_t"), ob = find(B, &B.structs[ib], "pdc_metadata_transfer_t");
        if (oa < 0 || ob < 0) return;
        count++;
        std::vector<char> m(A.structs[ia].size);
        M.fill(A, &A.structs[ia], m.data());
        std::unique_ptr<rm_meta> d(new rm_meta()), e(new rm_meta());
        auto put = [&](char *dst) { Str s = text(c, MAXTEXT); memcpy(dst, s.c_str(), s.size() + 1); };
        d->user = (int)value(c, 4); d->ts = (int)value(c, 4);
        d->type = (int)c.range(-1, 15);
        d->id = value(c, 8); d->cont = value(c, 8); d->server = value(c, 4);
        d->part = (int)c.below(8); d->cons = (int)c.below(6);
        d->ndim = c.below(5);
        for (int i = 0; i < 4; i++) d->dims[i] = value(c, 8);
        d->transform = c.flip() ? (int)value(c, 4) : 0;
        if (d->transform) {
            d->storage_order = (int)c.below(2); d->t_type = (int)c.range(-1, 15); d->t_ndim = c.below(5);
            d->meta_index = (int)value(c, 4);
            for (int i = 0; i < 4; i++) d->t_dims[i] = value(c, 8);
        }
        put(d->app); put(d->name); put(d->tags); put(d->loc);
        void *pa = shim_meta_new(d.get(), 0), *pb = shim_meta_new(nullptr, 0xA5);
        typedef int (*conv)(void *, void *);
        int r = ((conv)sim::symbol(*A.p, "PDC_metadata_t_to_transfer_t"))(pa, m.data() + oa);
        PBT_CHECK(c, r == 0, "convert", "an object description cannot be sent");
        char *b = M.send(A, B, name, out, ia, ib, m.data());
        r       = ((conv)sim::symbol(*B.p, "PDC_transfer_t_to_metadata_t"))(b + ob, pb);
        PBT_CHECK(c, r == 0, "convert", "an object description cannot be received");
        M.release(B, name, out, b);
        shim_meta_read(pb, e.get());
        free(pa);
        free(pb);
        auto eq = [&](const char *what, uint64_t x, uint64_t y) {
            PBT_CHECK(c, x == y, "metadata", "%s of an object was sent as %" PRIu64 " and received as %" PRIu64, what, x, y);
        };
        auto str = [&](const char *what, const char *x, const char *y) { PBT_CHECK(c, !strcmp(x, y), "metadata", "%s of an object was sent as \"%s\" and received as \"%s\"", what, x, y); };
        str("the name", d->name, e->name); str("the application", d->app, e->app); str("the tags", d->tags, e->tags);
        str("the location", d->loc, e->loc);
        eq("user", d->user, e->user); eq("time step", d->ts, e->ts); eq("type", d->type, e->type); eq("id", d->id, e->id);
        eq("container", d->cont, e->cont); eq("data server", d->server, e->server); eq("partition", d->part, e->part);
        eq("consistency", d->cons, e->cons); eq("number of dimensions", d->ndim, e->ndim);
        for (uint64_t i = 0; i < d->ndim; i++) eq("a dimension", d->dims[i], e->dims[i]);
        eq("transform state", d->transform, e->transform);
        eq("storage order", d->storage_order, e->storage_order); eq("transformed type", d->t_type, e->t_type);
        eq("transformed ndim", d->t_ndim, e->t_ndim); eq("transform index", d->meta_index, e->meta_index);
        for (uint64_t i = 0; i < d->t_ndim; i++) eq("a transformed dimension", d->t_dims[i], e->t_dims[i]);
    }
};

// ---- data queries: a tree on the client, the same tree on the server
struct Tree {
    Case &c;
    std::vector<std::unique_ptr<pdc_query_t>>            nodes;
    std::vector<std::unique_ptr<pdc_query_constraint_t>> cons;
    int leaves = 0;
    explicit Tree(Case &c) : c(c) {}
    pdc_query_t *gen(int depth)
    {
        nodes.emplace_back(new pdc_query_t());
        pdc_query_t *q = nodes.back().get();
        if (depth && c.chance(2, 3)) {
            q->combine_op = c.flip() ? PDC_QUERY_AND : PDC_QUERY_OR;
            q->left       = gen(depth - 1);
            q->right      = gen(depth - 1);
            return q;
        }
        leaves++;
        cons.emplace_back(new pdc_query_constraint_t());
        pdc_query_constraint_t *k = q->constraint = cons.back().get();
        k->obj_id   = value(c, 8);
        k->op       = (pdc_query_op_t)c.range(1, 5);
        k->type     = c.pick({PDC_INT, PDC_UINT, PDC_FLOAT, PDC_DOUBLE, PDC_INT64, PDC_UINT64});
        k->is_range = (int)c.below(2);
        k->value    = (double)c.range(-1000, 1000) / 8;
        if (k->is_range) { k->op2 = (pdc_query_op_t)c.range(1, 5); k->value2 = (double)c.range(-1000, 1000) / 8; }
        return q;
    }
    void same(const pdc_query_t *a, const pdc_query_t *b, const Str &w)
    {
        PBT_CHECK(c, !a == !b, "query", "the query node %s %s", w.c_str(), a ? "is lost" : "appears from nowhere");
        if (!a) return;
        PBT_CHECK(c, a->combine_op == b->combine_op, "query", "node %s combines by %d, was %d", w.c_str(), b->combine_op, a->combine_op);
        if (!a->left && !a->right) {
            auto x = a->constraint, y = b->constraint;
            PBT_CHECK(c, y && x->obj_id == y->obj_id && x->op == y->op && x->type == y->type && x->value == y->value &&
                      x->is_range == y->is_range && (!x->is_range || (x->op2 == y->op2 && x->value2 == y->value2)),
                      "query", "the condition at %s changed on the way", w.c_str());
        }
        same(a->left, b->left, w + "L");
        same(a->right, b->right, w + "R");
    }
};

void run(Case &c)
{
    sim::begin(c);
    sim::servers(1);
    int nmsg = 0, nconv = 0, nq = 0;
    sim::clients(1, [&](sim::Proc &p) {
        pdcid_t pdc = SIM(p, PDCinit)("pdc");
        Side cl{rpc_structs_client(), rpc_list_client(), &p, "client"};
        Side sv{rpc_structs_server(), rpc_list_server(), &sim::server(0), "server"};
        auto nc = sim::rpc_names(p), ns = sim::rpc_names(*sv.p);
        auto find = [](Side &S, const Str &n) -> const rpc_t * {
            for (const rpc_t *r = S.rpcs; r->name; r++) if (n == r->name) return r;
            return nullptr;
        };
        std::set<Str> both;
        for (auto &n : nc) if (std::find(ns.begin(), ns.end(), n) != ns.end()) both.insert(n);
        for (auto &name : both) {
            const rpc_t *rc = find(cl, name), *rs = find(sv, name);
            if (!rc || !rs) { c.label("request without a known message: " + name); continue; }
            for (int dir = 0; dir < 2; dir++) {
                bool  out = c.flip(); // requests go either way: servers ask clients, too
                Side &A = dir ? sv : cl, &B = dir ? cl : sv;
                const rpc_t *ra = dir ? rs : rc, *rb = dir ? rc : rs;
                int   ia = out ? ra->out : ra->in, ib = out ? rb->out : rb->in;
                if (ia < 0 || ib < 0) { c.label("message of unknown form: " + name); continue; }
                c.span_begin();
                Msgs M(c);
                std::unique_ptr<char[]> a(new char[A.structs[ia].size]);
                memset(a.get(), 0, A.structs[ia].size);
                M.fill(A, &A.structs[ia], a.get());
                char *b = M.send(A, B, name, out, ia, ib, a.get());
                M.same(A, &A.structs[ia], a.get(), B, &B.structs[ib], b, name + (out ? " answer" : " request"));
                M.release(B, name, out, b);
                nmsg++;
                if (c.chance(1, 3)) {
                    Conv k{c, M, A, B, ra, rb, out};
                    k.region(name, ia, ib);
                    k.meta(name, ia, ib);
                    nconv += k.count;
                }
                c.span_end();
            }
        }
        // region descriptions inside one process
        for (int i = 0; i < 4; i++) {
            uint64_t nd = 1 + c.below(4), n2 = 0, o2[4], c2[4];
            std::vector<uint64_t> off(nd), cnt(nd);
            for (auto &x : off) x = value(c, 8);
            for (auto &x : cnt) x = value(c, 8);
            sim::Proc &q = c.flip() ? p : *sv.p;
            PBT_CHECK(c, shim_info_to_list(sim::symbol(q, "PDC_region_info_to_list_t"), nd, off.data(), cnt.data(), &n2, o2, c2) == 0 && n2 == nd, "region", "PDC_region_info_to_list_t failed");
            for (uint64_t k = 0; k < nd; k++) PBT_CHECK(c, o2[k] == off[k] && c2[k] == cnt[k], "region", "PDC_region_info_to_list_t changed dimension %d", (int)k);
        }
        // data queries
        const rpc_t *rc = find(cl, "send_data_query_rpc"), *rs = find(sv, "send_data_query_rpc");
        for (int i = 0; i < 3 && rc && rs && both.count("send_data_query_rpc"); i++) {
            c.span_begin();
            Tree T(c);
            Msgs M(c);
            pdc_query_t *q = T.gen((int)c.below(5));
            struct pdc_region_info reg;
            memset(&reg, 0, sizeof reg);
            uint64_t off[4] = {0}, cnt[4] = {0};
            bool     with = c.flip();
            if (with) {
                reg.ndim = 1 + c.below(4);
                reg.offset = off; reg.size = cnt;
                for (size_t k = 0; k < reg.ndim; k++) { off[k] = value(c, 8); cnt[k] = value(c, 8); }
                q->region = &reg;
            }
            typedef void *(*ser)(pdc_query_t *);
            typedef pdc_query_t *(*des)(void *);
            char *x = (char *)((ser)sim::symbol(p, "PDC_serialize_query"))(q);
            PBT_CHECK(c, x, "query", "a query of %d conditions cannot be sent", T.leaves);
            char *b = M.send(cl, sv, "send_data_query_rpc", false, rc->in, rs->in, x);
            pdc_query_t *r = ((des)sim::symbol(*sv.p, "PDC_deserialize_query"))(b);
            PBT_CHECK(c, r, "query", "a query of %d conditions cannot be received", T.leaves);
            T.same(q, r, "");
            const struct_t *st = &sv.structs[rs->in];
            uint64_t n2, o2[4], c2[4];
            shim_region_read(b + field(st, "region")->off, &n2, o2, c2);
            PBT_CHECK(c, n2 == (with ? reg.ndim : 0), "query", "the region of a query arrives with %d dimensions, was %d", (int)n2, with ? (int)reg.ndim : 0);
            for (uint64_t k = 0; k < n2; k++) PBT_CHECK(c, o2[k] == off[k] && c2[k] == cnt[k], "query", "the region of a query changed on the way");
            nq += T.leaves > 2;
            ((void (*)(void *))sim::symbol(p, "PDC_query_xfer_free"))(x);
            c.span_end();
        }
        SIM(p, PDC_Client_close_all_server)();
        SIM(p, PDCclose)(pdc);
    });
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
    c.note("%d messages, %d conversions, %d queries of more than two conditions", nmsg, nconv, nq);
    if (nmsg > 60 && nconv && nq) c.nontrivial();
    sim::end();
}
} // namespace
int main(int argc, char **argv)
{
    sim::preload(1, 1);
    pbt::Property p{"C11", "each case sends random contents through one or both messages of every registered request, client to server or back, with regions, object descriptions and data queries; non-trivial: more than 60 messages, a converted struct and a data query of more than two conditions", 14000, 300000, 1, 60, run};
    p.assumptions = {"Mercury's own primitive encoders are stand-ins", "strings are not NULL and shorter than 1024 bytes"};
    return pbt::run_main(argc, argv, p);
}
