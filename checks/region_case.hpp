// Generated histories of region transfers on PDC objects, with the reference model (an array of elements per object).
#pragma once
#include "sim.hpp"
#include "pdc_api.hpp"
#include "mpi.h"
#include <cinttypes>
#include <memory>

extern "C" pdcid_t PDCobj_create_mpi(pdcid_t, const char *, pdcid_t, int, MPI_Comm);
extern "C" perr_t PDC_Client_all_server_checkpoint();

namespace rg {
using pbt::Case;

struct Obj {
    std::string            name;
    int                    ndim;
    uint64_t               dims[3], dims0[3]; // now and when created
    int                    type;
    size_t                 unit;
    pdc_region_partition_t part;
    pdc_consistency_t      cons;
    std::vector<uint8_t>   val;  // model: bytes of every element
    std::vector<uint8_t>   mask; // 1: written, comparable; 2: written, but before the dimensions of a statically partitioned object changed
    bool                   resized = false;
    int                    root = -1; // created by all clients together, this one first
    uint64_t               n() const { uint64_t r = 1; for (int i = 0; i < ndim; i++) r *= dims[i]; return r; }
};

struct Box {
    uint64_t off[3], cnt[3];
    uint64_t n(int nd) const { uint64_t r = 1; for (int i = 0; i < nd; i++) r *= cnt[i]; return r; }
};
inline bool meet(const Box &a, const Box &b, int nd)
{
    for (int i = 0; i < nd; i++)
        if (a.off[i] + a.cnt[i] <= b.off[i] || b.off[i] + b.cnt[i] <= a.off[i]) return false;
    return true;
}
// element indices of a box within an array of the given dims, in row-major order of the box
inline std::vector<uint64_t> elems(const Box &b, const uint64_t *dims, int nd)
{
    std::vector<uint64_t> r;
    Box x = b;
    for (int i = nd; i < 3; i++) x.off[i] = 0, x.cnt[i] = 1;
    uint64_t d[3] = {dims[0], nd > 1 ? dims[1] : 1, nd > 2 ? dims[2] : 1};
    for (uint64_t i = 0; i < x.cnt[0]; i++)
        for (uint64_t j = 0; j < x.cnt[1]; j++)
            for (uint64_t k = 0; k < x.cnt[2]; k++)
                r.push_back(((x.off[0] + i) * d[1] + x.off[1] + j) * d[2] + x.off[2] + k);
    return r;
}
inline std::string show(const Box &b, int nd)
{
    std::string s = "[";
    for (int i = 0; i < nd; i++) s += (i ? ", " : "") + std::to_string(b.off[i]) + "+" + std::to_string(b.cnt[i]);
    return s + "]";
}

struct Req {
    bool                 write;
    int                  obj;
    Box                  remote;
    int                  lnd; // dimensions of the local region
    Box                  local;
    std::vector<uint8_t> data;   // write: bytes sent, in row-major order of the region; read: bytes expected
    std::vector<uint8_t> mask;   // read: which elements are determined
    size_t               bufelems;
    uint64_t             dims[3]; // of the object when the request is made
    // at run time
    pdcid_t              id = 0;
    std::vector<uint8_t> buf, before;
    bool                 done = false;
};

enum Kind { START, STARTALL, WAIT, WAITALL, STATUS, REOPEN, SETDIMS, CLOSEOBJ, FLUSH, FLUSHALL, SLEEP, CLOSEREQ, BARRIER, CHECKPOINT };
struct Op {
    Kind             k;
    std::vector<int> reqs;
    int              obj = 0;
    double           secs = 0;
    std::vector<uint64_t> dims;
};

struct ClientPlan {
    std::vector<Op>  ops;
    std::vector<Req> reqs;
};

struct Plan {
    int                     nserver, nclient;
    std::vector<Obj>        objs;
    std::vector<ClientPlan> clients;
    std::string             cache_max, flush_freq;
    bool                    col_open = false;
    bool                    resize_static = false;
    bool                    fixed_dims = false;
    bool                    checkpoints = false; // clients ask for checkpoints during their work
    bool                    storm = false; // many requests at once to objects of one kind
    size_t nwrites = 0, nreads = 0, overlaps = 0;
};

static const std::vector<std::pair<int, size_t>> TYPES = {{PDC_INT, 4}, {PDC_FLOAT, 4}, {PDC_DOUBLE, 8}, {PDC_CHAR, 1},
    {PDC_UINT, 4}, {PDC_INT64, 8}, {PDC_UINT64, 8}, {PDC_INT16, 2}, {PDC_INT8, 1}};

inline void gen_objects(Case &c, Plan &P, int maxobj)
{
    int i0 = (int)P.objs.size(), n = i0 + (i0 ? (int)c.below(maxobj + 1) : 1 + (int)c.below(maxobj));
    for (int i = i0; i < n; i++) {
        Obj o;
        o.name = "obj" + std::to_string(i) + (c.chance(1, 4) ? std::string(1 + c.below(40), 'n') : "");
        o.ndim = 1 + (int)c.weighted({3, 3, 2});
        bool big = c.chance(1, 12);
        for (int d = 0; d < 3; d++)
            o.dims[d] = d >= o.ndim ? 1 : 1 + c.below(o.ndim == 1 ? (big ? 3000 : 40) : o.ndim == 2 ? (big ? 60 : 9) : (big ? 16 : 6));
        auto t = TYPES[c.below(TYPES.size())];
        o.type = t.first; o.unit = t.second;
        o.part = P.storm && i ? P.objs[0].part : (pdc_region_partition_t)c.below(4);
        if (P.storm && i == 0 && c.flip()) o.part = PDC_REGION_DYNAMIC;
        o.cons = (pdc_consistency_t)c.pick({(int)PDC_CONSISTENCY_EVENTUAL, (int)PDC_CONSISTENCY_POSIX, (int)PDC_CONSISTENCY_COMMIT,
                                            (int)PDC_CONSISTENCY_SESSION, (int)PDC_CONSISTENCY_DEFAULT});
        memcpy(o.dims0, o.dims, sizeof o.dims);
        o.val.assign(o.n() * o.unit, 0);
        o.mask.assign(o.n(), 0);
        static const char *pn[] = {"OBJ_STATIC", "REGION_STATIC", "REGION_DYNAMIC", "REGION_LOCAL"};
        if (c.chance(1, 3)) o.root = (int)c.below(P.nclient), c.label("created together");
        c.note("object %d: %s %" PRIu64 "x%" PRIu64 "x%" PRIu64 " elements of %zu bytes, %s, consistency %d%s\n", i, o.name.c_str(), o.dims[0], o.dims[1],
               o.dims[2], o.unit, pn[o.part], (int)o.cons, o.root < 0 ? "" : (", created together (root " + std::to_string(o.root) + ")").c_str());
        c.label(pn[o.part]);
        P.objs.push_back(o);
    }
}

// a box within bounds [lo0,hi0) along dimension 0 of the object
inline Box gen_box(Case &c, const Obj &o, uint64_t lo0, uint64_t hi0)
{
    Box b;
    for (int d = 0; d < 3; d++) {
        uint64_t lo = d == 0 ? lo0 : 0, hi = d == 0 ? hi0 : o.dims[d];
        if (d >= o.ndim) { b.off[d] = 0; b.cnt[d] = 1; continue; }
        if (c.chance(1, 4)) { b.off[d] = lo; b.cnt[d] = hi - lo; continue; }
        b.off[d] = lo + c.below(hi - lo);
        b.cnt[d] = 1 + c.below(hi - b.off[d]);
    }
    return b;
}

// the memory side of a request: a 1-D region with an offset, or a subarray of a buffer laid out with the object's dims
inline void gen_local(Case &c, const Obj &o, Req &r)
{
    uint64_t n = r.remote.n(o.ndim);
    if (o.ndim == 1 || c.chance(1, 2)) {
        r.lnd = 1;
        r.local.off[0] = c.chance(1, 3) ? 1 + c.below(7) : 0;
        r.local.cnt[0] = n;
        r.bufelems = r.local.off[0] + n + (c.chance(1, 3) ? c.below(5) : 0);
    }
    else {
        r.lnd = o.ndim;
        for (int d = 0; d < o.ndim; d++) {
            r.local.cnt[d] = r.remote.cnt[d];
            r.local.off[d] = c.below(o.dims[d] - r.remote.cnt[d] + 1);
        }
        r.bufelems = o.n();
    }
}

inline std::vector<uint64_t> local_elems(const Req &r, int ndim)
{
    if (r.lnd == 1) { uint64_t d[3] = {r.bufelems, 1, 1}; return elems(r.local, d, 1); }
    return elems(r.local, r.dims, ndim);
}

struct Out { Box b; bool write; int obj, req; };

// One client's activity in a phase.  excl[i]: 0 none, 1 read only, 2 read and write; slab gives the part of dimension 0.
struct Access { int mode; uint64_t lo, hi; };

// the object gets new dimensions; what is inside both the old and the new ones stays
inline void gen_set_dims(Case &c, Plan &P, int cl, int oi)
{
    Obj &o = P.objs[oi];
    // Known finding static-resized: the server that holds an element of a statically partitioned object follows from the dimensions.
    bool stat = o.part == PDC_REGION_STATIC && P.nserver > 1 && *std::max_element(o.mask.begin(), o.mask.end());
    if (stat && !(P.resize_static && c.chance(1, 6))) return;
    uint64_t old[3];
    memcpy(old, o.dims, sizeof old);
    for (int d = 0; d < o.ndim; d++)
        if (c.chance(2, 3)) o.dims[d] = c.flip() ? 1 + c.below(o.ndim == 1 ? 60 : o.ndim == 2 ? 12 : 7) : o.dims[d] + 1 + c.below(5);
    std::vector<uint8_t> val(o.n() * o.unit, 0), mask(o.n(), 0);
    for (uint64_t i = 0; i < std::min(old[0], o.dims[0]); i++)
        for (uint64_t j = 0; j < std::min(old[1], o.dims[1]); j++)
            for (uint64_t k = 0; k < std::min(old[2], o.dims[2]); k++) {
                uint64_t a = (i * old[1] + j) * old[2] + k, b = (i * o.dims[1] + j) * o.dims[2] + k;
                mask[b] = o.mask[a] ? stat ? 2 : o.mask[a] : 0;
                memcpy(&val[b * o.unit], &o.val[a * o.unit], o.unit);
            }
    o.val = val; o.mask = mask;
    o.resized = true;
    Op op{SETDIMS, {}, oi};
    op.dims.assign(o.dims, o.dims + o.ndim);
    c.note(" client %d sets the dimensions of object %d to %" PRIu64 "x%" PRIu64 "x%" PRIu64 "\n", cl, oi, o.dims[0], o.dims[1], o.dims[2]);
    c.label("new dimensions");
    P.clients[cl].ops.push_back(op);
}

// a write of one row of an object
inline void gen_row(Case &c, Plan &P, int cl, int oi, uint64_t row, std::vector<int> &batch)
{
    ClientPlan &C = P.clients[cl];
    Obj &o = P.objs[oi];
    Req r;
    r.write = true; r.obj = oi;
    memcpy(r.dims, o.dims, sizeof r.dims);
    for (int d = 0; d < 3; d++) r.remote.off[d] = d ? 0 : row, r.remote.cnt[d] = d ? o.dims[d] : 1;
    r.lnd = 1; r.local.off[0] = 0; r.local.cnt[0] = r.bufelems = r.remote.n(o.ndim);
    uint64_t s = c.bits(32);
    for (uint64_t e : elems(r.remote, o.dims, o.ndim)) {
        for (size_t b = 0; b < o.unit; b++) {
            s = s * 6364136223846793005ULL + 1442695040888963407ULL;
            r.data.push_back(o.val[e * o.unit + b] = (uint8_t)(s >> 56));
        }
        o.mask[e] = 1;
    }
    P.nwrites++;
    c.note(" client %d request %zu: write object %d %s\n", cl, C.reqs.size(), oi, show(r.remote, o.ndim).c_str());
    batch.push_back((int)C.reqs.size());
    C.reqs.push_back(r);
}

inline void gen_phase(Case &c, Plan &P, int cl, std::vector<Access> acc, std::vector<Out> &out, int maxops, bool last)
{
    ClientPlan &C = P.clients[cl];
    auto usable = [&](bool wr) {
        std::vector<int> r;
        for (size_t i = 0; i < acc.size(); i++)
            if (acc[i].hi > acc[i].lo && acc[i].mode >= (wr ? 2 : 1)) r.push_back((int)i);
        return r;
    };
    auto finish_obj = [&](int o) { out.erase(std::remove_if(out.begin(), out.end(), [&](const Out &x) { return x.obj == o; }), out.end()); };
    int nops = 1 + (int)c.below(maxops);
    for (int k = 0; k < nops; k++) {
        c.span_begin();
        size_t what = P.storm ? c.weighted({8, 8, 0, 1, 0, 0, 1, 0, 0, P.checkpoints ? 3u : 0u}) : c.weighted({8, 3, 2, 1, 1, 1, 1, 1, 1, P.checkpoints ? 2u : 0u});
        if (what == 0) { // a batch of requests
            int nreq = 1 + (int)c.weighted({4, 2, 2, 1});
            std::vector<int> batch;
            for (int q = 0; q < nreq; q++) {
                Req r;
                r.write = c.flip();
                auto us = usable(r.write);
                if (us.empty()) { r.write = false; us = usable(false); }
                if (us.empty()) break;
                r.obj = us[c.below(us.size())];
                Obj &o = P.objs[r.obj];
                memcpy(r.dims, o.dims, sizeof r.dims);
                r.remote = gen_box(c, o, acc[r.obj].lo, acc[r.obj].hi);
                bool clash = false;
                for (auto &x : out) if (x.obj == r.obj && (x.write || r.write) && meet(x.b, r.remote, o.ndim)) clash = true;
                if (clash) continue; // outcome would depend on order
                gen_local(c, o, r);
                auto re = elems(r.remote, o.dims, o.ndim);
                r.data.resize(re.size() * o.unit);
                if (r.write) {
                    uint64_t s = c.bits(32);
                    bool over = false;
                    for (size_t i = 0; i < re.size(); i++) {
                        for (size_t b = 0; b < o.unit; b++) {
                            s = s * 6364136223846793005ULL + 1442695040888963407ULL;
                            r.data[i * o.unit + b] = (uint8_t)(s >> 56);
                            o.val[re[i] * o.unit + b] = r.data[i * o.unit + b];
                        }
                        over |= o.mask[re[i]];
                        o.mask[re[i]] = 1;
                    }
                    P.overlaps += over;
                    P.nwrites++;
                }
                else {
                    r.mask.resize(re.size());
                    for (size_t i = 0; i < re.size(); i++) {
                        memcpy(&r.data[i * o.unit], &o.val[re[i] * o.unit], o.unit);
                        r.mask[i] = o.mask[re[i]];
                    }
                    P.nreads++;
                }
                c.note(" client %d request %zu: %s object %d %s, memory %s\n", cl, C.reqs.size(), r.write ? "write" : "read", r.obj,
                       show(r.remote, o.ndim).c_str(), show(r.local, r.lnd).c_str());
                out.push_back({r.remote, r.write, r.obj, (int)C.reqs.size()});
                batch.push_back((int)C.reqs.size());
                C.reqs.push_back(r);
            }
            if (!batch.empty()) {
                if (c.flip() || (P.storm && c.chance(3, 4))) C.ops.push_back({STARTALL, batch});
                else for (int b : batch) C.ops.push_back({START, {b}});
                c.note(" client %d starts %zu request(s) %s\n", cl, batch.size(), C.ops.back().k == STARTALL ? "together" : "one by one");
            }
        }
        else if (what == 1 && !out.empty()) { // wait for some
            std::vector<int> w;
            bool all = c.flip() || P.storm;
            for (size_t i = 0; i < out.size();)
                if (all || c.flip()) { w.push_back(out[i].req); out.erase(out.begin() + i); }
                else i++;
            for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[c.below(i)]);
            if (!w.empty()) {
                if (c.flip()) C.ops.push_back({WAITALL, w});
                else for (int b : w) C.ops.push_back({c.chance(1, 8) ? CLOSEREQ : WAIT, {b}});
                c.note(" client %d %s %zu request(s) %s\n", cl, C.ops.back().k == CLOSEREQ ? "closes" : "waits for", w.size(), C.ops.back().k == WAITALL ? "together" : "one by one");
            }
        }
        else if (what == 2 && !out.empty()) {
            C.ops.push_back({STATUS, {out[c.below(out.size())].req}});
            c.note(" client %d asks for the status of request %d\n", cl, C.ops.back().reqs[0]);
        }
        else if (what == 3) {
            int o = (int)c.below(P.objs.size());
            finish_obj(o);
            C.ops.push_back({REOPEN, {}, o});
            c.note(" client %d closes and opens object %d\n", cl, o);
        }
        else if (what == 4) { C.ops.push_back({FLUSH, {}, (int)c.below(P.objs.size())}); c.note(" client %d flushes object %d\n", cl, C.ops.back().obj); }
        else if (what == 5) { C.ops.push_back({FLUSHALL}); c.note(" client %d flushes all\n", cl); }
        else if (what == 6) {
            double s = c.pick({0.001, 0.01, 0.6, 1.1, 10.0, 31.0});
            C.ops.push_back({SLEEP, {}, 0, s});
            c.note(" client %d sleeps %g s\n", cl, s);
        }
        else if (what == 9) { C.ops.push_back({CHECKPOINT}); c.note(" client %d asks for a checkpoint\n", cl); }
        else if (what == 8 && P.nclient == 1 && out.empty() && !P.fixed_dims) {
            int o = (int)c.below(P.objs.size());
            gen_set_dims(c, P, cl, o);
            acc[o].hi = P.objs[o].dims[0];
        }
        c.span_end();
    }
    if (last && !out.empty()) { // everything is finished before the phase ends
        std::vector<int> w;
        if (c.flip()) {
            for (auto &x : out) w.push_back(x.req);
            if (c.flip()) C.ops.push_back({WAITALL, w});
            else for (int b : w) C.ops.push_back({WAIT, {b}});
            c.note(" client %d waits for all\n", cl);
        }
        else {
            std::set<int> os;
            for (auto &x : out) os.insert(x.obj);
            for (int o : os) { C.ops.push_back({REOPEN, {}, o}); c.note(" client %d closes and opens object %d\n", cl, o); }
        }
        out.clear();
    }
}

// ---- running a plan ---------------------------------------------------------------------------------------------
struct Runner {
    sim::Proc               &p;
    Case                    &c;
    Plan                    &P;
    int                      cl;
    pdcid_t                  pdc = 0, cont = 0, contp = 0;
    std::vector<pdcid_t>     obj;
    std::vector<uint64_t>    meta;

    Runner(sim::Proc &p_, Case &c_, Plan &P_) : p(p_), c(c_), P(P_), cl(sim::rank(p_)) { obj.resize(P.objs.size()); }

    void init()
    {
        pdc = SIM(p, PDCinit)("pdc");
        PBT_CHECK(c, pdc, "init", "PDCinit failed");
    }
    void create(size_t from = 0)
    {
        contp = SIM(p, PDCprop_create)(PDC_CONT_CREATE, pdc);
        cont = SIM(p, PDCcont_create_col)("cont", contp);
        PBT_CHECK(c, cont, "cont", "no container");
        for (size_t i = 0; i < P.objs.size(); i++) {
            Obj &o = P.objs[i];
            if ((cl == 0 || o.root >= 0) && i >= from) {
                pdcid_t pr = SIM(p, PDCprop_create)(PDC_OBJ_CREATE, pdc);
                SIM(p, PDCprop_set_obj_dims)(pr, o.ndim, o.dims0);
                SIM(p, PDCprop_set_obj_type)(pr, (pdc_var_type_t)o.type);
                SIM(p, PDCprop_set_obj_user_id)(pr, 1000);
                SIM(p, PDCprop_set_obj_time_step)(pr, 0);
                SIM(p, PDCprop_set_obj_app_name)(pr, (char *)"app");
                SIM(p, PDCprop_set_obj_transfer_region_type)(pr, o.part);
                SIM(p, PDCprop_set_obj_consistency_semantics)(pr, o.cons);
                obj[i] = o.root >= 0 ? SIM(p, PDCobj_create_mpi)(cont, o.name.c_str(), pr, o.root, MPI_COMM_WORLD) : SIM(p, PDCobj_create)(cont, o.name.c_str(), pr);
                PBT_CHECK(c, obj[i], "create", "creating object %zu failed", i);
                SIM(p, PDCprop_close)(pr);
            }
        }
        barrier();
        for (size_t i = 0; i < obj.size(); i++) if (i < from || (cl && P.objs[i].root < 0)) open(i);
    }
    void open(size_t i)
    {
        obj[i] = SIM(p, PDCobj_open)(P.objs[i].name.c_str(), pdc);
        PBT_CHECK(c, obj[i], "open", "client %d cannot open object %zu", cl, i);
    }
    void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
    void make(Req &r, int idx)
    {
        Obj &o = P.objs[r.obj];
        auto le = local_elems(r, o.ndim);
        r.buf.assign(r.bufelems * o.unit, 0xC5);
        if (r.write)
            for (size_t i = 0; i < le.size(); i++) memcpy(&r.buf[le[i] * o.unit], &r.data[i * o.unit], o.unit);
        r.before = r.buf;
        pdcid_t lr = SIM(p, PDCregion_create)(r.lnd, r.local.off, r.local.cnt);
        pdcid_t rr = SIM(p, PDCregion_create)(o.ndim, r.remote.off, r.remote.cnt);
        r.id = SIM(p, PDCregion_transfer_create)(r.buf.data(), r.write ? PDC_WRITE : PDC_READ, obj[r.obj], lr, rr);
        PBT_CHECK(c, r.id, "transfer_create", "client %d: no transfer request %d", cl, idx);
        SIM(p, PDCregion_close)(lr);
        SIM(p, PDCregion_close)(rr);
    }
    // the request is finished: its buffer belongs to the user again
    void finished(Req &r, int idx)
    {
        if (r.done) return;
        r.done = true;
        Obj &o = P.objs[r.obj];
        if (r.write) PBT_CHECK(c, r.buf == r.before, "write-buffer", "client %d request %d: writing changed the user's buffer", cl, idx);
        else {
            auto le = local_elems(r, o.ndim);
            std::vector<char> in(r.bufelems, 0);
            for (size_t i = 0; i < le.size(); i++) {
                in[le[i]] = 1;
                if (r.mask[i] && memcmp(&r.buf[le[i] * o.unit], &r.data[i * o.unit], o.unit)) {
                    std::string got, exp;
                    for (size_t b = 0; b < o.unit; b++) {
                        char t[4]; snprintf(t, 4, "%02x", r.buf[le[i] * o.unit + b]); got += t;
                        snprintf(t, 4, "%02x", r.data[i * o.unit + b]); exp += t;
                    }
                    c.fail(r.mask[i] == 2 ? "static-resized" : "wrong-data", "client %d request %d: reading object %d %s: element %zu of the region is %s, last written was %s", cl, idx,
                           r.obj, show(r.remote, o.ndim).c_str(), i, got.c_str(), exp.c_str());
                }
            }
            for (size_t e = 0; e < r.bufelems; e++)
                if (!in[e] && memcmp(&r.buf[e * o.unit], &r.before[e * o.unit], o.unit))
                    c.fail("outside", "client %d request %d: reading object %d %s changed memory element %zu outside the local region", cl, idx, r.obj,
                           show(r.remote, o.ndim).c_str(), e);
        }
        memset(r.buf.data(), 0xEE, r.buf.size());
    }
    // with POSIX semantics starting a request completes it: its memory can be used again
    void started(int q)
    {
        Req &r = P.clients[cl].reqs[q];
        if (P.objs[r.obj].cons == PDC_CONSISTENCY_POSIX) finished(r, q);
    }
    void close_req(Req &r)
    {
        SIM(p, PDCregion_transfer_close)(r.id);
        r.buf = std::vector<uint8_t>();
    }
    void run()
    {
        ClientPlan &C = P.clients[cl];
        for (auto &op : C.ops) {
            switch (op.k) {
            case START:
                make(C.reqs[op.reqs[0]], op.reqs[0]);
                PBT_CHECK(c, SIM(p, PDCregion_transfer_start)(C.reqs[op.reqs[0]].id) >= 0, "start", "client %d: start failed", cl);
                started(op.reqs[0]);
                break;
            case STARTALL: {
                std::vector<pdcid_t> ids;
                for (int q : op.reqs) { make(C.reqs[q], q); ids.push_back(C.reqs[q].id); }
                PBT_CHECK(c, SIM(p, PDCregion_transfer_start_all)(ids.data(), (int)ids.size()) >= 0, "start", "client %d: start_all failed", cl);
                for (int q : op.reqs) started(q);
                break;
            }
            case WAIT: {
                Req &r = C.reqs[op.reqs[0]];
                if (!r.done) PBT_CHECK(c, SIM(p, PDCregion_transfer_wait)(r.id) >= 0, "wait", "client %d: wait failed", cl);
                finished(r, op.reqs[0]);
                close_req(r);
                break;
            }
            case CLOSEREQ: { // without waiting: an outstanding request is completed first
                Req &r = C.reqs[op.reqs[0]];
                PBT_CHECK(c, SIM(p, PDCregion_transfer_close)(r.id) >= 0, "close", "client %d: closing request %d failed", cl, op.reqs[0]);
                finished(r, op.reqs[0]);
                r.buf = std::vector<uint8_t>();
                break;
            }
            case WAITALL: {
                std::vector<pdcid_t> ids;
                for (int q : op.reqs)
                    ids.push_back(C.reqs[q].id);
                if (!ids.empty())
                    PBT_CHECK(c, SIM(p, PDCregion_transfer_wait_all)(ids.data(), (int)ids.size()) >= 0, "wait", "client %d: wait_all failed", cl);
                for (int q : op.reqs) { finished(C.reqs[q], q); close_req(C.reqs[q]); }
                break;
            }
            case STATUS: {
                Req &r = C.reqs[op.reqs[0]];
                pdc_transfer_status_t st = (pdc_transfer_status_t)77;
                SIM(p, PDCregion_transfer_status)(r.id, &st);
                if (r.done) { // the request is gone
                    PBT_CHECK(c, st == PDC_TRANSFER_STATUS_NOT_FOUND || st == PDC_TRANSFER_STATUS_COMPLETE, "status", "client %d request %d, completed: status %d", cl, op.reqs[0], (int)st);
                    break;
                }
                PBT_CHECK(c, st == PDC_TRANSFER_STATUS_COMPLETE || st == PDC_TRANSFER_STATUS_PENDING, "status", "client %d request %d: status %d", cl, op.reqs[0], (int)st);
                if (st != PDC_TRANSFER_STATUS_PENDING) finished(r, op.reqs[0]);
                break;
            }
            case REOPEN:
                PBT_CHECK(c, SIM(p, PDCobj_close)(obj[op.obj]) >= 0, "close", "client %d: closing object %d failed", cl, op.obj);
                for (size_t q = 0; q < C.reqs.size(); q++)
                    if (C.reqs[q].obj == op.obj && C.reqs[q].id && !C.reqs[q].buf.empty()) {
                        finished(C.reqs[q], (int)q);
                        close_req(C.reqs[q]);
                    }
                open(op.obj);
                break;
            case SETDIMS: {
                std::vector<uint64_t> d = op.dims;
                PBT_CHECK(c, SIM(p, PDCobj_set_dims)(obj[op.obj], (int)d.size(), d.data()) >= 0, "set-dims", "client %d: setting the dimensions of object %d failed", cl, op.obj);
                break;
            }
            case FLUSH: SIM(p, PDCobj_flush_start)(obj[op.obj]); break;
            case FLUSHALL: SIM(p, PDCobj_flush_all_start)(); break;
            case SLEEP: sim::advance(op.secs); break;
            case BARRIER: barrier(); break;
            case CHECKPOINT: PBT_CHECK(c, SIM(p, PDC_Client_all_server_checkpoint)() >= 0, "checkpoint-request", "client %d: requesting a checkpoint failed", cl); break;
            default: break;
            }
        }
    }
    // reads every object in full and compares with the model
    void verify() { verify(P.objs); }
    void verify(const std::vector<Obj> &objs)
    {
        for (size_t i = 0; i < objs.size(); i++) {
            const Obj &o = objs[i];
            Req r;
            r.write = false; r.obj = (int)i;
            memcpy(r.dims, o.dims, sizeof r.dims);
            for (int d = 0; d < 3; d++) r.remote.off[d] = 0, r.remote.cnt[d] = o.dims[d];
            r.lnd = 1; r.local.off[0] = 0; r.local.cnt[0] = r.bufelems = o.n();
            r.data = o.val; r.mask = o.mask;
            make(r, -1);
            SIM(p, PDCregion_transfer_start)(r.id);
            SIM(p, PDCregion_transfer_wait)(r.id);
            finished(r, -1);
            close_req(r);
        }
    }
    void close()
    {
        for (size_t i = 0; i < obj.size(); i++)
            PBT_CHECK(c, SIM(p, PDCobj_close)(obj[i]) >= 0, "close", "client %d: closing object %zu failed", cl, i);
        if (cont) PBT_CHECK(c, SIM(p, PDCcont_close)(cont) >= 0, "close", "client %d: closing the container failed", cl);
        if (contp) SIM(p, PDCprop_close)(contp);
        barrier();
        SIM(p, PDC_Client_close_all_server)();
        SIM(p, PDCclose)(pdc);
    }
};

inline void gen_env(Case &c, Plan &P)
{
    P.cache_max = c.chance(1, P.storm ? 2 : 4) ? std::to_string(c.pick({16, 100, 400, 2000})) : "";
    P.flush_freq = c.chance(1, 3) ? std::to_string(c.pick({0, 0, 1, 5})) : P.storm && c.flip() ? "0" : "";
    if (P.cache_max.size()) { setenv("PDC_SERVER_CACHE_MAX_SIZE", P.cache_max.c_str(), 1); c.note("cache limit %s bytes\n", P.cache_max.c_str()); }
    else unsetenv("PDC_SERVER_CACHE_MAX_SIZE");
    if (P.flush_freq.size()) { setenv("PDC_SERVER_CACHE_FLUSH_FREQUENCY_S", P.flush_freq.c_str(), 1); c.note("cache flush every %s s\n", P.flush_freq.c_str()); }
    else unsetenv("PDC_SERVER_CACHE_FLUSH_FREQUENCY_S");
    if (c.chance(1, 4)) { setenv("PDC_DATA_SIEVING", "1", 1); c.note("data sieving\n"); }
    else unsetenv("PDC_DATA_SIEVING");
}

inline std::vector<std::vector<Access>> gen_access(Case &c, Plan &P)
{
    std::vector<std::vector<Access>> a(P.nclient, std::vector<Access>(P.objs.size()));
    for (size_t i = 0; i < P.objs.size(); i++) {
        uint64_t n = P.objs[i].dims[0];
        size_t how = P.nclient == 1 ? 0 : c.weighted({3, 2, 3});
        if (how == 0) { // one client owns it
            int w = (int)c.below(P.nclient);
            for (int k = 0; k < P.nclient; k++) a[k][i] = {k == w ? 2 : 0, 0, n};
        }
        else if (how == 1) for (int k = 0; k < P.nclient; k++) a[k][i] = {1, 0, n};
        else { // slabs
            uint64_t at = 0;
            for (int k = 0; k < P.nclient; k++) {
                uint64_t to = k == P.nclient - 1 ? n : std::min(n, at + c.below(n - at + 1));
                a[k][i] = {2, at, to};
                at = to;
            }
        }
    }
    return a;
}

inline void gen_plan(Case &c, Plan &P, int ns, int nc, int maxobj, int maxphases, int maxops)
{
    P.nserver = ns; P.nclient = nc;
    c.note("%d server(s), %d client(s)\n", ns, nc);
    P.storm = c.chance(1, nc > 1 ? 3 : 6);
    if (P.storm) { c.note("many requests at once\n"); c.label("storm"); }
    gen_env(c, P);
    gen_objects(c, P, maxobj);
    P.clients.resize(nc);
    int ph = 1 + (int)c.below(maxphases);
    for (int f = 0; f < ph; f++) {
        auto acc = gen_access(c, P);
        if (nc > 1) c.note("phase %d\n", f);
        for (int k = 0; k < nc; k++) {
            std::vector<Out> out;
            gen_phase(c, P, k, acc[k], out, maxops, true);
            P.clients[k].ops.push_back({BARRIER});
        }
        if (nc > 1 && c.chance(1, 5)) { // one client changes the dimensions, the others open the object again
            int o = (int)c.below(P.objs.size()), k = (int)c.below(nc);
            gen_set_dims(c, P, k, o);
            for (int q = 0; q < nc; q++) P.clients[q].ops.push_back({BARRIER});
            for (int q = 0; q < nc; q++) { if (q != k) P.clients[q].ops.push_back({REOPEN, {}, o}); P.clients[q].ops.push_back({BARRIER}); }
        }
    }
}
} // namespace rg
