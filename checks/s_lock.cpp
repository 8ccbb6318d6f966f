// C10: mapped regions and region locks. Data phases: clients map buffers to regions, lock, change or fetch, release and unmap, against an array
// model. Lock phases: clients compete for locks on shared regions, judged by who holds them.
#include "region_case.hpp"
#include <set>
#include <tuple>
using namespace rg;

enum LK { MAP, LOCKW, LOCKR, RELEASE, UNMAP, CLOSEREG, LBARRIER, OBTAIN, HOLD, DROP, BADRELEASE, RELOOK, LSLEEP, EVIL, SMAP, SUNMAP };
struct Mapping {
    int                  obj;
    Box                  remote;
    int                  lnd;
    Box                  local;
    size_t               bufelems = 0;
    uint64_t             start() const
    {
        uint64_t r = 0;
        for (int d = 0; d < lnd; d++) r = r * local.cnt[d] + local.off[d];
        return r;
    }
    pdcid_t              lr = 0, rr = 0;
    std::vector<uint8_t> buf;
};
struct LOp {
    LK                   k;
    int                  m = -1;          // mapping
    std::vector<uint8_t> data, mask;      // RELEASE of a write: new data; of a read: what must be there
    bool                 block = true, write = true;
    int                  spot = -1;       // shared region
    int                  n = 0;
};
struct LPlan : Plan {
    std::vector<std::vector<Mapping>> maps;
    std::vector<std::vector<LOp>>     ops;
    struct Spot { int obj; Box b; std::vector<uint8_t> val, mask; }; // shared region and its content (kept up to date by the lock holders)
    std::vector<Spot>                 spots;
    std::vector<std::vector<Mapping>> smaps; // [client][spot]; empty when not mapped
    int contended = 0, shared = 0;
};

static void gen_local(Case &c, Mapping &M, Obj &o)
{
    if (o.ndim == 1 || c.chance(1, 3)) {
        M.lnd = 1;
        M.local.off[0] = c.chance(1, 3) ? 1 + c.below(7) : 0;
        M.local.cnt[0] = M.remote.n(o.ndim);
        M.bufelems = M.local.off[0] + M.local.cnt[0] + c.below(3);
    }
    else { // an array with the widths of the local region, which starts at an offset in it
        uint64_t n = M.remote.n(o.ndim);
        M.lnd = o.ndim;
        for (int d = 0; d < o.ndim; d++) M.local.cnt[d] = M.remote.cnt[d];
        if (c.chance(1, 3)) { // another shape of as many elements
            M.lnd = 2 + (int)c.below(2);
            uint64_t m = n;
            for (int d = 0; d < M.lnd; d++) {
                std::vector<uint64_t> f;
                for (uint64_t k = 1; k <= m; k++) if (m % k == 0) f.push_back(k);
                M.local.cnt[d] = d == M.lnd - 1 ? m : f[c.below(f.size())];
                m /= M.local.cnt[d];
            }
        }
        for (int d = 0; d < M.lnd; d++) M.local.off[d] = c.chance(1, 4) ? 1 + c.below(4) : 0;
        M.bufelems = M.start() + n + (c.chance(1, 3) ? c.below(3) : 0);
    }
}

static void gen(Case &c, LPlan &P, int ns, int nc)
{
    P.nserver = ns; P.nclient = nc;
    c.note("%d server(s), %d client(s)\n", ns, nc);
    gen_env(c, P);
    gen_objects(c, P, 2);
    P.maps.resize(nc); P.ops.resize(nc); P.smaps.resize(nc);
    if (c.chance(1, 6)) { // nothing was ever mapped
        LOp o{EVIL}; o.spot = (int)c.below(P.objs.size()); o.n = (int)c.below(3);
        P.ops[c.below(nc)].push_back(o);
        for (int q = 0; q < nc; q++) P.ops[q].push_back({LBARRIER});
    }
    int phases = 1 + (int)c.below(4);
    for (int f = 0; f < phases; f++) {
        bool lockphase = nc > 1 && c.chance(1, 3);
        c.note("phase %d%s\n", f, lockphase ? " (locks)" : "");
        if (!lockphase) {
            auto acc = gen_access(c, P);
            std::set<std::string> taken; // a region is mapped by one client at a time
            for (int k = 0; k < nc; k++) {
                struct Live { int m; int st; }; // 0 mapped, 1 locked write, 2 locked read
                std::vector<Live> live;
                std::set<std::string> mine;
                int nops = 2 + (int)c.below(12);
                auto push = [&](LOp o) { P.ops[k].push_back(o); };
                auto rel = [&](Live &l) {
                    Mapping &M = P.maps[k][l.m];
                    Obj &o = P.objs[M.obj];
                    auto es = elems(M.remote, o.dims, o.ndim);
                    LOp op{RELEASE, l.m};
                    op.write = l.st == 1;
                    if (op.write) {
                        op.data.resize(es.size() * o.unit);
                        for (auto &x : op.data) x = (uint8_t)(1 + c.below(250));
                        for (size_t i = 0; i < es.size(); i++) {
                            if (o.mask[es[i]]) P.overlaps++;
                            memcpy(&o.val[es[i] * o.unit], &op.data[i * o.unit], o.unit);
                            o.mask[es[i]] = 1;
                        }
                        P.nwrites++;
                    }
                    else {
                        op.data.resize(es.size() * o.unit);
                        for (size_t i = 0; i < es.size(); i++) {
                            memcpy(&op.data[i * o.unit], &o.val[es[i] * o.unit], o.unit);
                            op.mask.push_back(o.mask[es[i]]);
                        }
                        P.nreads++;
                    }
                    c.note("  client %d: release mapping %d (%s)\n", k, l.m, op.write ? "write" : "read");
                    push(op);
                    l.st = 0;
                };
                auto unmap = [&](size_t i) {
                    c.note("  client %d: unmap %d\n", k, live[i].m);
                    Mapping &M = P.maps[k][live[i].m];
                    mine.erase(std::to_string(M.obj) + show(M.remote, P.objs[M.obj].ndim));
                    push({UNMAP, live[i].m});
                    live.erase(live.begin() + i);
                };
                for (int s = 0; s < nops; s++) {
                    c.span_begin();
                    if (live.empty() || c.chance(1, 4)) {
                        std::vector<int> can;
                        for (size_t i = 0; i < P.objs.size(); i++) if (acc[k][i].mode && acc[k][i].lo < acc[k][i].hi) can.push_back((int)i);
                        if (can.size()) {
                            Mapping M;
                            M.obj = can[c.below(can.size())];
                            Obj &o = P.objs[M.obj];
                            auto &A = acc[k][M.obj];
                            bool again = false;
                            if (P.maps[k].size() && c.chance(1, 3)) { // the same region as before
                                Mapping &L = P.maps[k][c.below(P.maps[k].size())];
                                if (L.obj == M.obj && L.remote.off[0] >= A.lo && L.remote.off[0] + L.remote.cnt[0] <= A.hi) { M.remote = L.remote; again = true; }
                            }
                            if (!again) M.remote = gen_box(c, o, A.lo, A.hi);
                            gen_local(c, M, o);
                            std::string key = std::to_string(M.obj) + show(M.remote, o.ndim);
                            if (!mine.count(key) && (taken.insert(std::to_string(k) + ":" + key), true)) {
                                bool other = false;
                                for (int q = 0; q < nc; q++) if (q != k && taken.count(std::to_string(q) + ":" + key)) other = true;
                                if (!other) {
                                    mine.insert(key);
                                    P.maps[k].push_back(M);
                                    live.push_back({(int)P.maps[k].size() - 1, 0});
                                    c.note("  client %d: map %zu to object %d %s, local part %s\n", k, P.maps[k].size() - 1, M.obj,
                                           show(M.remote, o.ndim).c_str(), show(M.local, M.lnd).c_str());
                                    push({MAP, (int)P.maps[k].size() - 1});
                                }
                            }
                        }
                    }
                    else {
                        size_t i = c.below(live.size());
                        auto &l = live[i];
                        if (l.st) rel(l);
                        else {
                            bool w = acc[k][P.maps[k][l.m].obj].mode == 2;
                            if (c.chance(1, 5)) unmap(i);
                            else if (c.chance(1, 10)) { c.note("  client %d: sleep\n", k); LOp o{LSLEEP}; o.n = 1 + (int)c.below(12); push(o); }
                            else {
                                // locks on overlapping regions are not taken together by one client: the order of their effects is not stated
                                bool wr = w && c.chance(1, 2);
                                l.st = wr ? 1 : 2;
                                LOp o{wr ? LOCKW : LOCKR, l.m};
                                o.block = c.flip();
                                c.note("  client %d: lock %d for %s%s\n", k, l.m, wr ? "writing" : "reading", o.block ? "" : " without waiting");
                                push(o);
                                if (c.chance(2, 3)) rel(l);
                            }
                        }
                    }
                    c.span_end();
                }
                while (live.size()) { if (live[0].st) rel(live[0]); unmap(0); }
            }
        }
        else {
            size_t first = P.spots.size(), n = 1 + c.below(3);
            for (size_t i = 0; i < n; i++) {
                int o = (int)c.below(P.objs.size());
                // spots are either the same region or do not meet
                LPlan::Spot s{o, gen_box(c, P.objs[o], 0, P.objs[o].dims[0])};
                bool bad = false;
                for (size_t j = first; j < P.spots.size(); j++) if (P.spots[j].obj == o && meet(P.spots[j].b, s.b, P.objs[o].ndim)) bad = true;
                if (!bad) { c.note("  region %zu: object %d %s\n", P.spots.size(), o, show(s.b, P.objs[o].ndim).c_str()); P.spots.push_back(s); }
            }
            bool data = c.chance(2, 3);
            for (int k = 0; k < nc; k++) P.smaps[k].resize(P.spots.size());
            if (data)
                for (size_t i = first; i < P.spots.size(); i++) {
                    auto &s = P.spots[i];
                    Obj &o = P.objs[s.obj];
                    auto es = elems(s.b, o.dims, o.ndim);
                    for (auto e : es) { s.val.insert(s.val.end(), &o.val[e * o.unit], &o.val[e * o.unit] + o.unit); s.mask.push_back(o.mask[e]); }
                    for (int k = 0; k < nc; k++)
                        if (c.chance(3, 4)) {
                            Mapping &M = P.smaps[k][i];
                            M.obj = s.obj; M.remote = s.b;
                            gen_local(c, M, o);
                            c.note("  client %d: map region %zu\n", k, i);
                            LOp op{SMAP}; op.spot = (int)i; P.ops[k].push_back(op);
                            for (auto e : es) o.mask[e] = 0; // from here on only the clients know
                        }
                }
            for (int k = 0; k < nc; k++) {
                int rounds = 1 + (int)c.below(4);
                for (int r = 0; r < rounds; r++) {
                    c.span_begin();
                    // one or several locks in the order of their numbers, so that waiting cannot go round in circles
                    std::vector<int> got;
                    for (size_t i = first; i < P.spots.size(); i++)
                        if (c.chance(2, 3)) {
                            LOp o{OBTAIN}; o.spot = (int)i; o.block = c.chance(2, 3); o.write = c.chance(data ? 1 : 2, data ? 2 : 3);
                            c.note("  client %d: obtain %zu %s%s\n", k, i, o.write ? "write" : "read", o.block ? "" : " without waiting");
                            P.ops[k].push_back(o); got.push_back((int)i);
                        }
                    if (got.size() && c.chance(3, 4)) { LOp o{HOLD}; o.n = 1 + (int)c.below(6); P.ops[k].push_back(o); }
                    while (got.size()) {
                        size_t j = c.below(got.size());
                        LOp o{DROP}; o.spot = got[j]; P.ops[k].push_back(o);
                        got.erase(got.begin() + j);
                    }
                    if (c.chance(1, 4)) { LOp o{HOLD}; o.n = 1 + (int)c.below(4); P.ops[k].push_back(o); }
                    c.span_end();
                }
            }
            P.contended++;
            if (data) { // at the end somebody looks at what is there
                for (int k = 0; k < nc; k++) P.ops[k].push_back({LBARRIER});
                for (size_t i = first; i < P.spots.size(); i++) {
                    LOp o{OBTAIN}, d{DROP}; o.spot = d.spot = (int)i; o.write = false;
                    int k = (int)c.below(nc);
                    P.ops[k].push_back(o); P.ops[k].push_back(d);
                    for (int q = 0; q < nc; q++)
                        if (P.smaps[q][i].bufelems) { LOp u{SUNMAP}; u.spot = (int)i; P.ops[q].push_back(u); P.shared++; }
                }
            }
        }
        for (int k = 0; k < nc; k++) P.ops[k].push_back({LBARRIER});
        if (c.chance(1, 4)) { // mistakes are refused; nobody else is affected
            int k = (int)c.below(nc);
            LOp o{EVIL}; o.spot = (int)c.below(P.objs.size()); o.n = (int)c.below(2);
            P.ops[k].push_back(o);
            for (int q = 0; q < nc; q++) P.ops[q].push_back({LBARRIER});
        }
    }
}

// who holds and who asks for a shared region, as the clients know it
struct Hold { int holder = -1; int asking = 0; uint64_t changes = 0, stamp = 0; };

struct LRunner : Runner {
    LPlan &L;
    std::vector<Hold> &H;
    std::vector<int> have;
    LRunner(sim::Proc &p_, Case &c_, LPlan &P_, std::vector<Hold> &h) : Runner(p_, c_, P_), L(P_), H(h), have(P_.spots.size()) {}

    std::vector<uint64_t> lelems(Mapping &m)
    {
        std::vector<uint64_t> r;
        uint64_t n = m.remote.n(P.objs[m.obj].ndim);
        for (uint64_t i = 0; i < n; i++) r.push_back(m.start() + i);
        return r;
    }
    void go()
    {
        for (auto &op : L.ops[cl]) step(op);
    }
    void step(LOp &op)
    {
        Mapping *m = op.m >= 0 ? &L.maps[cl][op.m] : nullptr;
        Obj *o = m ? &P.objs[m->obj] : nullptr;
        switch (op.k) {
            case MAP: {
                m->buf.assign(m->bufelems * o->unit, 0xC5);
                m->lr = SIM(p, PDCregion_create)(m->lnd, m->local.off, m->local.cnt);
                m->rr = SIM(p, PDCregion_create)(o->ndim, m->remote.off, m->remote.cnt);
                PBT_CHECK(c, SIM(p, PDCbuf_obj_map)(m->buf.data(), (pdc_var_type_t)o->type, m->lr, obj[m->obj], m->rr) >= 0, "map",
                          "client %d: mapping %d failed", cl, op.m);
                break;
            }
            case LOCKW:
            case LOCKR:
                PBT_CHECK(c, SIM(p, PDCreg_obtain_lock)(obj[m->obj], m->rr, op.k == LOCKW ? PDC_WRITE : PDC_READ, op.block ? PDC_BLOCK : PDC_NOBLOCK) >= 0,
                          "refused", "client %d: the lock on mapping %d, which nobody holds, was refused", cl, op.m);
                break;
            case RELEASE: {
                auto le = lelems(*m);
                if (op.write) {
                    std::fill(m->buf.begin(), m->buf.end(), 0xC5);
                    for (size_t i = 0; i < le.size(); i++) memcpy(&m->buf[le[i] * o->unit], &op.data[i * o->unit], o->unit);
                }
                else std::fill(m->buf.begin(), m->buf.end(), 0xD6);
                auto before = m->buf;
                PBT_CHECK(c, SIM(p, PDCreg_release_lock)(obj[m->obj], m->rr, op.write ? PDC_WRITE : PDC_READ) >= 0, "release",
                          "client %d: releasing mapping %d failed", cl, op.m);
                if (op.write) PBT_CHECK(c, m->buf == before, "write-buffer", "client %d mapping %d: releasing a write lock changed the user's buffer", cl, op.m);
                else {
                    std::vector<char> in(m->bufelems, 0);
                    for (size_t i = 0; i < le.size(); i++) {
                        in[le[i]] = 1;
                        if (op.mask[i] && memcmp(&m->buf[le[i] * o->unit], &op.data[i * o->unit], o->unit))
                            c.fail("wrong-data", "client %d mapping %d: after releasing the read lock on object %d %s element %zu is %02x.., last written was %02x..", cl,
                                   op.m, m->obj, show(m->remote, o->ndim).c_str(), i, m->buf[le[i] * o->unit], op.data[i * o->unit]);
                    }
                    for (size_t e = 0; e < m->bufelems; e++)
                        if (!in[e] && memcmp(&m->buf[e * o->unit], &before[e * o->unit], o->unit))
                            c.fail("outside", "client %d mapping %d: fetching changed memory element %zu outside the local region", cl, op.m, e);
                }
                break;
            }
            case SMAP: {
                Mapping &M = L.smaps[cl][op.spot];
                Obj &q = P.objs[M.obj];
                M.buf.assign(M.bufelems * q.unit, 0xC5);
                M.lr = SIM(p, PDCregion_create)(M.lnd, M.local.off, M.local.cnt);
                M.rr = SIM(p, PDCregion_create)(q.ndim, M.remote.off, M.remote.cnt);
                PBT_CHECK(c, SIM(p, PDCbuf_obj_map)(M.buf.data(), (pdc_var_type_t)q.type, M.lr, obj[M.obj], M.rr) >= 0, "map", "client %d: mapping region %d failed", cl,
                          op.spot);
                break;
            }
            case SUNMAP: {
                Mapping &M = L.smaps[cl][op.spot];
                PBT_CHECK(c, SIM(p, PDCbuf_obj_unmap)(obj[M.obj], M.rr) >= 0, "unmap", "client %d: unmapping region %d failed", cl, op.spot);
                PBT_CHECK(c, SIM(p, PDCregion_close)(M.lr) >= 0, "regclose", "client %d: closing the local part of region %d failed", cl, op.spot);
                PBT_CHECK(c, SIM(p, PDCregion_close)(M.rr) >= 0, "regclose", "client %d: closing the remote part of region %d failed", cl, op.spot);
                PBT_CHECK(c, SIM(p, PDCregion_close)(M.rr) < 0, "regclose", "client %d: region %d is open after it was unmapped and closed", cl, op.spot);
                M.lr = 0; M.buf = std::vector<uint8_t>();
                break;
            }
            case UNMAP:
                PBT_CHECK(c, SIM(p, PDCbuf_obj_unmap)(obj[m->obj], m->rr) >= 0, "unmap", "client %d: unmapping %d failed", cl, op.m);
                PBT_CHECK(c, SIM(p, PDCregion_close)(m->lr) >= 0, "regclose", "client %d: closing the local region of %d failed", cl, op.m);
                PBT_CHECK(c, SIM(p, PDCregion_close)(m->rr) >= 0, "regclose", "client %d: closing the remote region of %d failed", cl, op.m);
                PBT_CHECK(c, SIM(p, PDCregion_close)(m->rr) < 0, "regclose", "client %d: region %d is open after it was unmapped and closed", cl, op.m);
                m->buf = std::vector<uint8_t>();
                break;
            case OBTAIN: {
                auto &s = L.spots[op.spot];
                Hold &h = H[op.spot];
                pdcid_t r = SIM(p, PDCregion_create)(P.objs[s.obj].ndim, s.b.off, s.b.cnt);
                int held = h.holder, asking = h.asking; uint64_t ch = h.changes;
                h.asking++; h.changes++;
                int ret = SIM(p, PDCreg_obtain_lock)(obj[s.obj], r, op.write ? PDC_WRITE : PDC_READ, op.block ? PDC_BLOCK : PDC_NOBLOCK);
                h.asking--;
                bool quiet = h.changes == ch + 1; // nobody else did anything about this region meanwhile
                if (ret >= 0) {
                    PBT_CHECK(c, h.holder < 0, "exclusion", "client %d got the lock on region %d while client %d holds it", cl, op.spot, h.holder);
                    h.holder = cl; have[op.spot] = op.write ? 2 : 1;
                }
                else {
                    PBT_CHECK(c, !op.block, "blocked-refused", "client %d: a lock request that may wait was refused", cl);
                    PBT_CHECK(c, !(quiet && held < 0 && !asking), "refused", "client %d: the lock on region %d was refused though nobody held it", cl, op.spot);
                    c.label("refused");
                }
                h.changes++;
                SIM(p, PDCregion_close)(r);
                break;
            }
            case DROP: {
                if (!have[op.spot]) break;
                auto &s = L.spots[op.spot];
                Hold &h = H[op.spot];
                pdcid_t r = SIM(p, PDCregion_create)(P.objs[s.obj].ndim, s.b.off, s.b.cnt);
                if (h.asking) c.label("handed over");
                PBT_CHECK(c, h.holder == cl, "exclusion", "client %d holds the lock on region %d but client %d got it as well", cl, op.spot, h.holder);
                bool wr = have[op.spot] == 2;
                h.holder = -1; have[op.spot] = 0; h.changes++;
                // from here on the server may grant it to others
                h.asking++;
                Mapping &M = L.smaps[cl][op.spot];
                Obj &q = P.objs[s.obj];
                std::vector<uint8_t> before, val, mask;
                std::vector<uint64_t> le;
                if (M.lr) {
                    le = lelems(M);
                    std::fill(M.buf.begin(), M.buf.end(), 0xD6);
                    if (wr)
                        for (size_t i = 0; i < le.size(); i++) {
                            for (int b = 0; b < (int)q.unit; b++) M.buf[le[i] * q.unit + b] = s.val[i * q.unit + b] = (uint8_t)(1 + (h.stamp * 41 + i * 7 + b) % 250);
                            s.mask[i] = 1;
                        }
                    h.stamp++;
                    before = M.buf;
                    val = s.val; mask = s.mask;
                }
                int ret = SIM(p, PDCreg_release_lock)(obj[s.obj], r, wr ? PDC_WRITE : PDC_READ);
                h.asking--; h.changes++;
                PBT_CHECK(c, ret >= 0, "release", "client %d: releasing the lock on region %d failed", cl, op.spot);
                if (M.lr) {
                    if (wr) PBT_CHECK(c, M.buf == before, "write-buffer", "client %d region %d: releasing a write lock changed the user's buffer", cl, op.spot);
                    else {
                        std::vector<char> in(M.bufelems, 0);
                        for (size_t i = 0; i < le.size(); i++) {
                            in[le[i]] = 1;
                            if (mask[i] && memcmp(&M.buf[le[i] * q.unit], &val[i * q.unit], q.unit))
                                c.fail("wrong-data", "client %d region %d: after releasing the read lock element %zu is %02x.., last released was %02x..", cl, op.spot, i,
                                       M.buf[le[i] * q.unit], val[i * q.unit]);
                        }
                        for (size_t e = 0; e < M.bufelems; e++)
                            if (!in[e] && memcmp(&M.buf[e * q.unit], &before[e * q.unit], q.unit))
                                c.fail("outside", "client %d region %d: fetching changed memory element %zu outside the local region", cl, op.spot, e);
                    }
                }
                SIM(p, PDCregion_close)(r);
                break;
            }
            case HOLD:
                for (int i = 0; i < op.n; i++) sim::yield();
                break;
            case LSLEEP: sim::advance(op.n); break;
            case EVIL: {
                Box b; Obj &q = P.objs[op.spot];
                for (int d = 0; d < 3; d++) b.off[d] = 0, b.cnt[d] = q.dims[d];
                pdcid_t r = SIM(p, PDCregion_create)(q.ndim, b.off, b.cnt);
                if (op.n == 0) PBT_CHECK(c, SIM(p, PDCreg_release_lock)(obj[op.spot], r, PDC_WRITE) < 0, "phantom-release", "releasing a lock that was not obtained succeeded");
                if (op.n == 1) PBT_CHECK(c, SIM(p, PDCreg_release_lock)(obj[op.spot], r, PDC_READ) < 0, "phantom-release", "releasing a lock that was not obtained succeeded");
                if (op.n == 2) PBT_CHECK(c, SIM(p, PDCbuf_obj_unmap)(obj[op.spot], r) < 0, "phantom-unmap", "unmapping a region that was not mapped succeeded");
                SIM(p, PDCregion_close)(r);
                break;
            }
            case LBARRIER: barrier(); break;
            default: break;
        }
    }
};

static void run(Case &c)
{
    sim::begin(c);
    sim::connections(c);
    LPlan P;
    int ns = 1 + (int)c.below(3), nc = 1 + (int)c.below(3);
    gen(c, P, ns, nc);
    if ((P.nwrites && P.nreads) || P.contended) c.nontrivial();
    if (P.overlaps) c.label("overwrites");
    if (P.contended) c.label("lock phase");
    if (P.shared > 1) c.label("shared mapped region");
    for (auto &m : P.smaps) m.resize(P.spots.size());
    std::vector<Hold> H(P.spots.size());
    sim::servers(ns);
    sim::clients(nc, [&](sim::Proc &p) {
        LRunner r(p, c, P, H);
        r.init();
        r.create();
        r.barrier();
        r.go();
        r.barrier();
        r.close();
    });
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
    sim::end();
}
int main(int argc, char **argv)
{
    sim::preload(3, 3);
    pbt::Property p{"C10", "each case starts 1-3 servers and clients which map buffers to regions, lock, release and unmap them, and compete for locks; non-trivial: "
        "at least one write and one read through a mapping, or a phase of competing locks", 4000u, 80000u, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads and clocks are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
