// Generated histories of metadata operations (objects, containers, tags, queries, restarts) with the reference model:
// the set of living objects and containers, their attributes, tags and contents.
#pragma once
#include "sim.hpp"
#include "pdc_api.hpp"
#include "mpi.h"
#include <unistd.h>
#include <cinttypes>
#include <memory>
#include <cmath>

extern "C" {
typedef struct {
    int         user_id, time_step, type;
    const char *app_name, *obj_name, *tags;
    uint64_t    obj_id, cont_id, ndim, dims[4];
    int         partition, consistency;
    const char *data_location;
} vs_meta;
void     vs_read_meta(const void *p, vs_meta *o);
size_t   vs_meta_size(void);
void     vs_set_update(void *p, const char *app, const char *tags, const char *loc);
void     vs_init_update(void *p, const void *old);
uint64_t vs_cont_meta(void *info);
void    *PDC_cont_get_info(pdcid_t);
// client functions declared in headers C++ cannot read
perr_t PDC_Client_query_metadata_name_timestep(const char *, int, void **, uint32_t *);
perr_t PDC_Client_query_metadata_name_timestep_agg(const char *, int, void **, uint32_t *);
perr_t PDC_Client_delete_metadata(char *, pdcid_t);
perr_t PDC_Client_add_tag(pdcid_t, const char *);
perr_t PDC_Client_update_metadata(void *, void *);
perr_t PDC_Client_list_all(int *, void ***);
perr_t PDC_partial_query(int, int, const char *, const char *, int, int, int, const char *, int *, void ***);
perr_t PDC_Client_query_tag(const char *, int *, void ***);
perr_t PDC_Client_query_kvtag(const pdc_kvtag_t *, int *, uint64_t **);
perr_t PDC_Client_query_kvtag_col(const pdc_kvtag_t *, int *, uint64_t **, int *);
perr_t PDC_Client_query_kvtag_mpi(const pdc_kvtag_t *, int *, uint64_t **, MPI_Comm);
perr_t PDC_Client_all_server_checkpoint();
pdcid_t PDCobj_create_mpi(pdcid_t, const char *, pdcid_t, int, MPI_Comm);

}

namespace mc {
using pbt::Case;
enum Kind { LIFE, TAGS, QUERY, RESTART };

struct Tag {
    int                  type;
    std::vector<uint8_t> val;
    bool operator==(const Tag &o) const { return type == o.type && val == o.val; }
};
struct Ent {
    bool        cont = false, alive = true;
    std::string name;
    int         ts = 0, user = 0;
    std::string app;
    int         ndim = 0;
    uint64_t    dims[4] = {0, 0, 0, 0};
    int         type = 0, part = 0, cons = 0;
    std::string tags = " ", loc = " ";
    int         in = -1; // the container it was created in
    std::map<std::string, Tag> kv;
    std::vector<uint8_t> data, mask; // contents, when the history writes any
    size_t      unit = 1;
    uint64_t n() const { uint64_t r = 1; for (int i = 0; i < ndim; i++) r *= dims[i]; return r; }
};
struct Slot { int ent; int ndim; uint64_t dims[4]; bool open = true; };

struct Runner;
typedef std::function<void(Runner &)> Op;

// what the clients of one case share while it runs
struct Shared {
    std::vector<uint64_t> meta; // by entity
    std::map<int, std::vector<std::pair<int, uint64_t>>> coll; // collective query -> (client, id) results
};

inline std::string bytes(const void *p, size_t n)
{
    std::string s;
    char t[4];
    for (size_t i = 0; i < n && i < 24; i++) { snprintf(t, 4, "%02x", ((const uint8_t *)p)[i]); s += t; }
    return s + (n > 24 ? "..." : "");
}

struct Runner {
    sim::Proc           &p;
    Case                &c;
    Shared              &S;
    int                  cl;
    pdcid_t              pdc = 0;
    std::vector<pdcid_t> slot;
    Runner(sim::Proc &p_, Case &c_, Shared &s_) : p(p_), c(c_), S(s_), cl(sim::rank(p_)) {}
    pdcid_t &at(size_t i) { if (slot.size() <= i) slot.resize(i + 1, 0); return slot[i]; }
    void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
};

struct World {
    Case &c;
    int   kind, ns, nc, ncoll = 0;
    Shared                         S;
    std::vector<Ent>               ents;
    std::vector<std::string>       names, dnames, kvnames;
    std::vector<std::vector<Slot>> slots; // by client
    std::vector<std::vector<Op>>   ops;   // by client
    std::map<std::string, int>     owner; // by name in the current phase; -1: nobody changes it
    size_t nmut = 0, nread = 0, nquery = 0;
    uint64_t filln = 0;

    World(Case &c_, int k) : c(c_), kind(k) {}

    // ---- model ---------------------------------------------------------------------------------------------------
    static bool same(const Ent &a, const Ent &b)
    {
        return !a.cont && !b.cont && a.ts == b.ts && a.name == b.name && (!a.user || !b.user || a.user == b.user) && a.app == b.app;
    }
    std::vector<int> objs(const std::string &name, int ts = -1)
    {
        std::vector<int> r;
        for (size_t i = 0; i < ents.size(); i++)
            if (ents[i].alive && !ents[i].cont && ents[i].name == name && (ts < 0 || ents[i].ts == ts)) r.push_back((int)i);
        return r;
    }
    int cont(const std::string &name)
    {
        for (size_t i = 0; i < ents.size(); i++)
            if (ents[i].alive && ents[i].cont && ents[i].name == name) return (int)i;
        return -1;
    }
    bool mine(const std::string &n, int cl) { return owner[n] == cl; }
    bool steady(const std::string &n, int cl) { return owner[n] == cl || owner[n] == -1; }
    std::string who(int e)
    {
        const Ent &x = ents[e];
        std::string nm = x.name.size() > 24 ? x.name.substr(0, 8) + "...(" + std::to_string(x.name.size()) + ")" : x.name;
        if (x.cont) return "container " + nm + " #" + std::to_string(e);
        return "object " + nm + "/" + std::to_string(x.ts) + "/" + std::to_string(x.user) + "/" + x.app + " #" + std::to_string(e);
    }
    int newslot(int cl, int e)
    {
        Slot s{e, 0, {0, 0, 0, 0}};
        if (e >= 0) { s.ndim = ents[e].ndim; memcpy(s.dims, ents[e].dims, sizeof s.dims); }
        slots[cl].push_back(s);
        return (int)slots[cl].size() - 1;
    }
    // a handle of the client on an entity that satisfies pred, or -1
    template <class F> int findslot(int cl, F pred)
    {
        std::vector<int> r;
        for (size_t i = 0; i < slots[cl].size(); i++)
            if (slots[cl][i].open && slots[cl][i].ent >= 0 && pred(ents[slots[cl][i].ent])) r.push_back((int)i);
        return r.empty() ? -1 : r[c.below(r.size())];
    }

    // ---- generators ----------------------------------------------------------------------------------------------
    void gen_names()
    {
        static const std::vector<std::string> pool = {"a", "ab", "bA", "obj", "obj1", "o", "temperature", "x,y", "a b"}; // ab and bA have the same hash
        size_t n = 2 + c.below(4);
        size_t at = c.below(pool.size());
        for (size_t i = 0; i < n; i++) names.push_back(pool[(at + i) % pool.size()]);
        if (c.chance(1, 4)) names.push_back(std::string(200 + c.below(800), 'L'));
        dnames = {"d0", "d1"};
        kvnames = {"color", "colour", "c", "size", "x1"};
    }
    Tag gen_tag(bool query = false)
    {
        Tag t;
        switch (c.weighted({4, 3, 2, 2, 1})) {
        case 0: {
            static const std::vector<std::string> pool = {"red", "reddish", "blue", "bluered", "e", "darkred", "red "};
            std::string s = pool[c.below(pool.size())];
            if (!query && c.chance(1, 8)) s = std::string(1 + c.below(300), 'z');
            t.type = PDC_STRING;
            t.val.assign(s.c_str(), s.c_str() + s.size() + 1);
            break;
        }
        case 1: { int v = (int)c.pick({1, 2, 7, -1, 256}); t.type = PDC_INT; t.val.assign((uint8_t *)&v, (uint8_t *)&v + 4); break; }
        case 2: { double v = c.pick({1.5, 0.0, -3.25}); t.type = PDC_DOUBLE; t.val.assign((uint8_t *)&v, (uint8_t *)&v + 8); break; }
        case 3: {
            int v[4];
            size_t n = 2 + c.below(3);
            for (size_t i = 0; i < 4; i++) v[i] = (int)c.pick({1, 2, 7});
            t.type = PDC_INT; t.val.assign((uint8_t *)v, (uint8_t *)v + 4 * n);
            break;
        }
        default: { uint8_t v = (uint8_t)c.below(3); t.type = PDC_UINT8; t.val.assign(1, v); break; }
        }
        return t;
    }
    void phase_owners(bool frozen)
    {
        auto one = [&](const std::string &n) { owner[n] = frozen ? -1 : (int)c.below(nc + 1) - 1; };
        for (auto &n : names) one(n);
        for (auto &n : dnames) one(n);
        if (kind == RESTART && frozen) for (auto &o : owner) o.second = -1;
    }

    // ---- checks at run time --------------------------------------------------------------------------------------
    static void check_meta(Runner &R, const vs_meta &m, const Ent &e, uint64_t id, const char *how)
    {
        Case &c = R.c;
        PBT_CHECK(c, m.obj_id == id, "wrong-object", "client %d: %s returned id %" PRIu64 ", the object's is %" PRIu64, R.cl, how, m.obj_id, id);
        PBT_CHECK(c, e.name == m.obj_name, "meta-name", "client %d: %s returned the name '%s' for '%s'", R.cl, how, m.obj_name, e.name.c_str());
        PBT_CHECK(c, e.app == m.app_name, "meta-app", "client %d: %s returned the application '%s', expected '%s'", R.cl, how, m.app_name, e.app.c_str());
        PBT_CHECK(c, e.ts == m.time_step, "meta-step", "client %d: %s returned time step %d, expected %d", R.cl, how, m.time_step, e.ts);
        PBT_CHECK(c, e.user == m.user_id, "meta-user", "client %d: %s returned user %d, expected %d", R.cl, how, m.user_id, e.user);
        PBT_CHECK(c, (uint64_t)e.ndim == m.ndim, "meta-ndim", "client %d: %s returned %d dimensions, expected %d", R.cl, how, (int)m.ndim, e.ndim);
        for (int i = 0; i < e.ndim; i++)
            PBT_CHECK(c, e.dims[i] == m.dims[i], "meta-dims", "client %d: %s returned dimension %d = %" PRIu64 ", expected %" PRIu64, R.cl, how, i, m.dims[i], e.dims[i]);
        PBT_CHECK(c, e.type == m.type, "meta-type", "client %d: %s returned type %d, expected %d", R.cl, how, m.type, e.type);
        if (e.in >= 0)
            PBT_CHECK(c, R.S.meta[e.in] == m.cont_id, "meta-container", "client %d: %s returned container id %" PRIu64 ", the object was created in %" PRIu64, R.cl, how,
                      m.cont_id, R.S.meta[e.in]);
        PBT_CHECK(c, e.tags == m.tags, "meta-tags", "client %d: %s returned tags '%.60s', expected '%.60s'", R.cl, how, m.tags, e.tags.c_str());
        if (e.part < 0) return;
        PBT_CHECK(c, e.part == m.partition, "meta-partition", "client %d: %s returned partition %d, expected %d", R.cl, how, m.partition, e.part);
        PBT_CHECK(c, e.cons == m.consistency, "meta-consistency", "client %d: %s returned consistency %d, expected %d", R.cl, how, m.consistency, e.cons);
    }
    // a set of returned metadata records against the expected entities
    static void check_set(Runner &R, void **out, int n, const std::vector<std::pair<int, Ent>> &exp, bool complete, const char *how, int coll)
    {
        Case &c = R.c;
        std::set<uint64_t> got;
        for (int i = 0; i < n; i++) {
            vs_meta m;
            vs_read_meta(out[i], &m);
            PBT_CHECK(c, got.insert(m.obj_id).second, "query-twice", "client %d: %s returned object '%.40s' twice", R.cl, how, m.obj_name);
            const Ent *e = nullptr;
            for (auto &x : exp) if (R.S.meta[x.first] == m.obj_id) e = &x.second;
            PBT_CHECK(c, e, "query-extra", "client %d: %s returned object '%.40s' (step %d, user %d, id %" PRIu64 "), which does not match", R.cl, how, m.obj_name,
                      m.time_step, m.user_id, m.obj_id);
            check_meta(R, m, *e, m.obj_id, how);
            if (coll >= 0) R.S.coll[coll].push_back({R.cl, m.obj_id});
        }
        if (complete)
            for (auto &x : exp)
                PBT_CHECK(c, got.count(R.S.meta[x.first]), "query-missing", "client %d: %s did not return object '%.40s' (step %d, user %d)", R.cl, how,
                          x.second.name.c_str(), x.second.ts, x.second.user);
    }
    static void check_ids(Runner &R, const uint64_t *ids, int n, const std::vector<int> &exp, bool complete, const char *how, int coll)
    {
        Case &c = R.c;
        std::set<uint64_t> got, want;
        for (int e : exp) want.insert(R.S.meta[e]);
        for (int i = 0; i < n; i++) {
            PBT_CHECK(c, got.insert(ids[i]).second, "query-twice", "client %d: %s returned id %" PRIu64 " twice", R.cl, how, ids[i]);
            PBT_CHECK(c, want.count(ids[i]), "query-extra", "client %d: %s returned id %" PRIu64 ", which does not match", R.cl, how, ids[i]);
            if (coll >= 0) R.S.coll[coll].push_back({R.cl, ids[i]});
        }
        if (complete)
            for (int e : exp)
                PBT_CHECK(c, got.count(R.S.meta[e]), "query-missing", "client %d: %s did not return entity #%d (%zu expected, %d returned)", R.cl, how, e, want.size(), n);
    }
    // after all clients have their part of a collective query
    void check_union(int cl, int coll, std::vector<int> exp, const char *how)
    {
        ops[cl].push_back([=](Runner &R) {
            R.barrier();
            if (R.cl == 0) {
                std::set<uint64_t> got;
                for (auto &x : R.S.coll[coll])
                    PBT_CHECK(R.c, got.insert(x.second).second, "query-twice", "%s: two clients got id %" PRIu64, how, x.second);
                for (int e : exp)
                    PBT_CHECK(R.c, got.count(R.S.meta[e]), "query-missing", "%s: no client got entity #%d", how, e);
            }
            R.barrier();
        });
    }

    // ---- operations ----------------------------------------------------------------------------------------------
    void op_create_cont(int cl, const std::string &name)
    {
        int e = cont(name);
        bool fresh = e < 0;
        if (fresh) {
            Ent x;
            x.cont = true; x.name = name;
            ents.push_back(x);
            e = (int)ents.size() - 1;
            S.meta.push_back(0);
        }
        int s = newslot(cl, e);
        c.note(" client %d creates %s%s -> handle %d\n", cl, who(e).c_str(), fresh ? "" : " (exists)", s);
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            pdcid_t pr = SIM(R.p, PDCprop_create)(PDC_CONT_CREATE, R.pdc);
            pdcid_t id = SIM(R.p, PDCcont_create)(name.c_str(), pr);
            PBT_CHECK(R.c, id, "cont-create", "client %d: no container '%s'", R.cl, name.c_str());
            SIM(R.p, PDCprop_close)(pr);
            R.at(s) = id;
            set_cont(R, e, id);
        });
    }
    static void set_cont(Runner &R, int e, pdcid_t id)
    {
        uint64_t m = vs_cont_meta(SIM(R.p, PDC_cont_get_info)(id));
        PBT_CHECK(R.c, m, "no-id", "client %d: container #%d has no id", R.cl, e);
        if (!R.S.meta[e]) {
            for (size_t k = 0; k < R.S.meta.size(); k++)
                PBT_CHECK(R.c, R.S.meta[k] != m, "id-reused", "client %d: the new container #%d got the id %" PRIu64 " of #%zu", R.cl, e, m, k);
            R.S.meta[e] = m;
        }
        PBT_CHECK(R.c, R.S.meta[e] == m, "cont-id", "client %d: container #%d has id %" PRIu64 ", was %" PRIu64, R.cl, e, m, R.S.meta[e]);
    }
    // all clients create (or open) the same container together
    void col_create_cont(const std::string &name, bool open)
    {
        int e = cont(name);
        if (e < 0 && !open) {
            Ent x;
            x.cont = true; x.name = name;
            ents.push_back(x);
            e = (int)ents.size() - 1;
            S.meta.push_back(0);
        }
        c.note(" all clients %s container %.20s together -> #%d\n", open ? "open" : "create", name.c_str(), e);
        nmut++;
        for (int cl = 0; cl < nc; cl++) {
            int s = e >= 0 ? newslot(cl, e) : -1;
            ops[cl].push_back([=](Runner &R) {
                pdcid_t id;
                if (open) id = SIM(R.p, PDCcont_open_col)(name.c_str(), R.pdc);
                else {
                    pdcid_t pr = SIM(R.p, PDCprop_create)(PDC_CONT_CREATE, R.pdc);
                    id = SIM(R.p, PDCcont_create_col)(name.c_str(), pr);
                    SIM(R.p, PDCprop_close)(pr);
                }
                if (e < 0) { PBT_CHECK(R.c, !id, "cont-open-missing", "client %d opened container '%s', which does not exist", R.cl, name.c_str()); return; }
                PBT_CHECK(R.c, id, "cont-create", "client %d: no container '%s' (collective)", R.cl, name.c_str());
                R.at(s) = id;
                set_cont(R, e, id);
            });
        }
    }
    void op_open_cont(int cl, const std::string &name)
    {
        int e = cont(name), s = e >= 0 ? newslot(cl, e) : -1;
        c.note(" client %d opens container %.20s -> %s\n", cl, name.c_str(), e >= 0 ? ("handle " + std::to_string(s)).c_str() : "none");
        nread++;
        ops[cl].push_back([=](Runner &R) {
            pdcid_t id = SIM(R.p, PDCcont_open)(name.c_str(), R.pdc);
            if (e < 0) { PBT_CHECK(R.c, !id, "cont-open-missing", "client %d opened container '%s', which does not exist", R.cl, name.c_str()); return; }
            PBT_CHECK(R.c, id, "cont-open", "client %d cannot open container '%s'", R.cl, name.c_str());
            R.at(s) = id;
            set_cont(R, e, id);
        });
    }
    void op_del_cont(int cl, int s)
    {
        int e = slots[cl][s].ent;
        bool was = ents[e].alive;
        c.note(" client %d deletes %s%s\n", cl, who(e).c_str(), was ? "" : " (again)");
        ents[e].alive = false;
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            perr_t r = SIM(R.p, PDCcont_del)(R.at(s));
            if (was) PBT_CHECK(R.c, r >= 0, "cont-del", "client %d: deleting the container failed", R.cl);
            else PBT_CHECK(R.c, r < 0, "cont-del-again", "client %d: deleting a deleted container succeeded", R.cl);
        });
    }
    void op_close(int cl, int s)
    {
        bool ct = ents[slots[cl][s].ent].cont;
        slots[cl][s].open = false;
        c.note(" client %d closes handle %d\n", cl, s);
        ops[cl].push_back([=](Runner &R) {
            perr_t r = ct ? SIM(R.p, PDCcont_close)(R.at(s)) : SIM(R.p, PDCobj_close)(R.at(s));
            PBT_CHECK(R.c, r >= 0, "close", "client %d: closing a handle failed", R.cl);
        });
    }
    static const std::vector<std::string> &apps()
    {
        static const std::vector<std::string> v = {"Noname", "vpic", "vpicio"};
        return v;
    }
    Ent gen_ent(const std::string &name)
    {
        Ent x;
        x.name = name;
        x.ts = (int)c.weighted({5, 2, 1, 1});
        x.user = 1000 + (int)c.weighted({4, 1});
        x.app = apps()[c.weighted({3, 2, 1})];
        bool data = kind == RESTART;
        x.ndim = 1 + (int)c.weighted({3, 2, 2, 1});
        for (int i = 0; i < x.ndim; i++) x.dims[i] = data ? 1 + c.below(x.ndim == 1 ? 30 : 5) : c.chance(1, 8) ? 1 + c.bits(40) : 1 + c.below(20);
        static const std::vector<std::pair<int, int>> ty = {{PDC_INT, 4}, {PDC_FLOAT, 4}, {PDC_DOUBLE, 8}, {PDC_CHAR, 1}, {PDC_INT64, 8}, {PDC_UINT16, 2}};
        auto t = ty[c.below(ty.size())];
        x.type = t.first; x.unit = t.second;
        x.part = (int)c.below(4);
        x.cons = (int)c.pick({(int)PDC_CONSISTENCY_EVENTUAL, (int)PDC_CONSISTENCY_POSIX, (int)PDC_CONSISTENCY_COMMIT, (int)PDC_CONSISTENCY_SESSION});
        if (c.chance(1, 3)) x.tags = c.pick({std::string("alpha"), std::string("alpha,beta"), std::string("b=1")});
        return x;
    }
    // the container a client may create objects in (any living one it has a handle on that nobody else may delete now)
    int cont_slot(int cl)
    {
        return findslot(cl, [&](Ent &e) { return e.cont && e.alive && steady(e.name, cl); });
    }
    static pdcid_t make_prop(Runner &R, const Ent &x)
    {
        pdcid_t pr = SIM(R.p, PDCprop_create)(PDC_OBJ_CREATE, R.pdc);
        uint64_t d[4];
        memcpy(d, x.dims, sizeof d);
        SIM(R.p, PDCprop_set_obj_dims)(pr, x.ndim, d);
        SIM(R.p, PDCprop_set_obj_type)(pr, (pdc_var_type_t)x.type);
        SIM(R.p, PDCprop_set_obj_user_id)(pr, x.user);
        SIM(R.p, PDCprop_set_obj_time_step)(pr, x.ts);
        if (x.app != "Noname") SIM(R.p, PDCprop_set_obj_app_name)(pr, (char *)x.app.c_str());
        if (x.tags != " ") SIM(R.p, PDCprop_set_obj_tags)(pr, (char *)x.tags.c_str());
        SIM(R.p, PDCprop_set_obj_transfer_region_type)(pr, (pdc_region_partition_t)x.part);
        SIM(R.p, PDCprop_set_obj_consistency_semantics)(pr, (pdc_consistency_t)x.cons);
        return pr;
    }
    static void new_meta(Runner &R, int e, pdcid_t id)
    {
        struct pdc_obj_info *i = SIM(R.p, PDCobj_get_info)(id);
        PBT_CHECK(R.c, i && i->meta_id, "no-id", "client %d: the new object has no id", R.cl);
        for (size_t k = 0; k < R.S.meta.size(); k++)
            PBT_CHECK(R.c, R.S.meta[k] != i->meta_id, "id-reused", "client %d: the new object #%d got the id %" PRIu64 " of #%zu", R.cl, e, (uint64_t)i->meta_id, k);
        R.S.meta[e] = i->meta_id;
    }
    bool op_create(int cl, const std::string &name, const Ent *like = nullptr)
    {
        int cs = cont_slot(cl);
        if (cs < 0) return false;
        Ent x = like ? *like : gen_ent(name);
        if (!like && c.chance(1, 5)) { // one that exists
            auto o = objs(name);
            if (!o.empty()) {
                const Ent &y = ents[o[c.below(o.size())]];
                x.ts = y.ts; x.user = y.user; x.app = y.app;
            }
        }
        x.kv.clear(); x.alive = true; x.in = slots[cl][cs].ent; x.mask.clear(); x.data.clear();
        bool dup = false;
        for (auto &y : ents) if (y.alive && same(x, y)) dup = true;
        int e = -1, s = -1;
        if (!dup) {
            ents.push_back(x);
            e = (int)ents.size() - 1;
            S.meta.push_back(0);
            s = newslot(cl, e);
        }
        c.note(" client %d creates object %.20s/%d/%d/%s (%d-d) in #%d -> %s\n", cl, name.c_str(), x.ts, x.user, x.app.c_str(), x.ndim, x.in,
               dup ? "exists already" : ("#" + std::to_string(e) + " handle " + std::to_string(s)).c_str());
        if (dup) c.label("duplicate-create");
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            pdcid_t pr = make_prop(R, x);
            pdcid_t id = SIM(R.p, PDCobj_create)(R.at(cs), x.name.c_str(), pr);
            SIM(R.p, PDCprop_close)(pr);
            if (dup) { PBT_CHECK(R.c, !id, "dup-create", "client %d: creating an object that exists already succeeded", R.cl); return; }
            PBT_CHECK(R.c, id, "create", "client %d: creating object #%d failed", R.cl, e);
            R.at(s) = id;
            new_meta(R, e, id);
            check_info(R, id, x, e);
        });
        return true;
    }
    // all clients create the same object together: one of them on the server, the others a handle of their own
    void col_create(const std::string &name)
    {
        std::vector<int> cs;
        for (int k = 0; k < nc; k++) {
            int in = k ? slots[0][cs[0]].ent : -1;
            int s = findslot(k, [&](Ent &e) { return e.cont && e.alive && (!k || &e == &ents[in]); });
            if (s < 0) return;
            cs.push_back(s);
        }
        Ent x = gen_ent(name);
        if (c.chance(1, 4)) {
            auto o = objs(name);
            if (!o.empty()) { const Ent &y = ents[o[c.below(o.size())]]; x.ts = y.ts; x.user = y.user; x.app = y.app; }
        }
        x.in = slots[0][cs[0]].ent;
        bool dup = false;
        for (auto &y : ents) if (y.alive && same(x, y)) dup = true;
        int e = -1, root = (int)c.below(nc);
        if (!dup) { ents.push_back(x); e = (int)ents.size() - 1; S.meta.push_back(0); }
        c.note(" all clients create object %.20s/%d/%d/%s together (root %d, %d-d) in #%d -> %s\n", name.c_str(), x.ts, x.user, x.app.c_str(), root, x.ndim, x.in,
               dup ? "exists already" : ("#" + std::to_string(e)).c_str());
        c.label(dup ? "duplicate-create-together" : "create-together");
        nmut++;
        barrier();
        for (int k = 0; k < nc; k++) {
            int s = dup ? -1 : newslot(k, e), cslot = cs[k];
            ops[k].push_back([=](Runner &R) {
                pdcid_t pr = make_prop(R, x);
                pdcid_t id = SIM(R.p, PDCobj_create_mpi)(R.at(cslot), x.name.c_str(), pr, root, MPI_COMM_WORLD);
                SIM(R.p, PDCprop_close)(pr);
                if (dup) { PBT_CHECK(R.c, !id, "dup-create", "client %d: creating an object that exists already succeeded (together)", R.cl); return; }
                PBT_CHECK(R.c, id, "create", "client %d: creating object #%d together failed", R.cl, e);
                R.at(s) = id;
                if (R.cl == root) new_meta(R, e, id);
                R.barrier();
                check_info(R, id, x, e);
            });
        }
        barrier();
    }
    static void check_info(Runner &R, pdcid_t id, const Ent &x, int e)
    {
        struct pdc_obj_info *i = SIM(R.p, PDCobj_get_info)(id);
        PBT_CHECK(R.c, i, "info", "client %d: no info about #%d", R.cl, e);
        PBT_CHECK(R.c, i->name && x.name == i->name, "info-name", "client %d: object #%d is called '%.40s'", R.cl, e, i->name);
        PBT_CHECK(R.c, i->meta_id == R.S.meta[e], "info-id", "client %d: object #%d has id %" PRIu64 ", was %" PRIu64, R.cl, e, (uint64_t)i->meta_id, R.S.meta[e]);
        PBT_CHECK(R.c, i->local_id == id, "info-local", "client %d: the info of #%d names another handle", R.cl, e);
        PBT_CHECK(R.c, i->obj_pt && i->obj_pt->ndim == (size_t)x.ndim, "info-ndim", "client %d: object #%d has %zu dimensions, expected %d", R.cl, e, i->obj_pt->ndim, x.ndim);
        for (int k = 0; k < x.ndim; k++)
            PBT_CHECK(R.c, i->obj_pt->dims[k] == x.dims[k], "info-dims", "client %d: object #%d dimension %d is %" PRIu64 ", expected %" PRIu64, R.cl, e, k,
                      i->obj_pt->dims[k], x.dims[k]);
        PBT_CHECK(R.c, (int)i->obj_pt->type == x.type, "info-type", "client %d: object #%d has type %d, expected %d", R.cl, e, (int)i->obj_pt->type, x.type);
        if (x.part >= 0) PBT_CHECK(R.c, (int)i->obj_pt->region_partition == x.part && (int)i->obj_pt->consistency == x.cons, "info-part",
                  "client %d: object #%d has partition %d and consistency %d, expected %d and %d", R.cl, e, (int)i->obj_pt->region_partition,
                  (int)i->obj_pt->consistency, x.part, x.cons);
    }
    void op_open(int cl, const std::string &name, bool col = false)
    {
        auto o = objs(name, 0);
        int lo = col ? 0 : cl, hi = col ? nc : cl + 1;
        for (int k = lo; k < hi; k++) {
            int s = o.size() == 1 ? newslot(k, o[0]) : -1;
            std::vector<Ent> xs;
            for (int e : o) xs.push_back(ents[e]);
            c.note(" client %d opens object %.20s%s -> %s\n", k, name.c_str(), col ? " (all together)" : "",
                   o.empty() ? "none" : o.size() == 1 ? ("#" + std::to_string(o[0]) + " handle " + std::to_string(s)).c_str() : "one of several");
            ops[k].push_back([=](Runner &R) {
                pdcid_t id = col ? SIM(R.p, PDCobj_open_col)(name.c_str(), R.pdc) : SIM(R.p, PDCobj_open)(name.c_str(), R.pdc);
                if (o.empty()) { PBT_CHECK(R.c, !id, "open-missing", "client %d opened object '%.40s', which does not exist", R.cl, name.c_str()); return; }
                PBT_CHECK(R.c, id, "open", "client %d cannot open object '%.40s'", R.cl, name.c_str());
                struct pdc_obj_info *i = SIM(R.p, PDCobj_get_info)(id);
                PBT_CHECK(R.c, i, "info", "client %d: no info about an open object", R.cl);
                size_t w = 0;
                while (w < o.size() && R.S.meta[o[w]] != i->meta_id) w++;
                PBT_CHECK(R.c, w < o.size(), "open-wrong", "client %d: opening '%.40s' gave id %" PRIu64 ", which is not an object of that name", R.cl, name.c_str(),
                          (uint64_t)i->meta_id);
                check_info(R, id, xs[w], o[w]);
                if (s >= 0) R.at(s) = id;
                else PBT_CHECK(R.c, SIM(R.p, PDCobj_close)(id) >= 0, "close", "client %d: closing a handle failed", R.cl);
            });
        }
        nread++;
    }
    void op_info(int cl, int s)
    {
        Ent x = ents[slots[cl][s].ent];
        x.ndim = slots[cl][s].ndim;
        memcpy(x.dims, slots[cl][s].dims, sizeof x.dims);
        int e = slots[cl][s].ent;
        nread++;
        c.note(" client %d asks about handle %d\n", cl, s);
        ops[cl].push_back([=](Runner &R) {
            check_info(R, R.at(s), x, e);
            int nd = -1;
            uint64_t *d = nullptr;
            PBT_CHECK(R.c, SIM(R.p, PDCobj_get_dims)(R.at(s), &nd, &d) >= 0, "get-dims", "client %d: PDCobj_get_dims failed", R.cl);
            PBT_CHECK(R.c, nd == x.ndim && !memcmp(d, x.dims, nd * sizeof *d), "get-dims", "client %d: the dimensions of #%d are not those last set", R.cl, e);
            free(d);
        });
    }
    void op_set_dims(int cl, int s)
    {
        int e = slots[cl][s].ent;
        Ent &x = ents[e];
        if (x.ndim != slots[cl][s].ndim) return;
        std::vector<uint64_t> d;
        for (int i = 0; i < x.ndim; i++) d.push_back(c.chance(1, 3) ? x.dims[i] : 1 + c.below(kind == RESTART ? 6 : 50));
                for (int i = 0; i < x.ndim; i++) x.dims[i] = slots[cl][s].dims[i] = d[i];
        c.note(" client %d sets the dimensions of %s\n", cl, who(e).c_str());
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            std::vector<uint64_t> dd = d;
            perr_t r = SIM(R.p, PDCobj_set_dims)(R.at(s), (int)dd.size(), dd.data());
            PBT_CHECK(R.c, r >= 0, "set-dims", "client %d: PDCobj_set_dims of #%d failed", R.cl, e);
        });
    }
    void op_del(int cl, int s)
    {
        int e = slots[cl][s].ent;
        bool was = ents[e].alive;
        ents[e].alive = false;
        c.note(" client %d deletes %s%s\n", cl, who(e).c_str(), was ? "" : " (again)");
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            perr_t r = SIM(R.p, PDCobj_del)(R.at(s));
            if (was) PBT_CHECK(R.c, r >= 0, "del", "client %d: deleting #%d failed", R.cl, e);
            else PBT_CHECK(R.c, r < 0, "del-again", "client %d: deleting #%d, which is deleted, succeeded", R.cl, e);
        });
    }
    // deletes by name and time step, when that names one object
    bool op_del_name(int cl, const std::string &name)
    {
        int ts = (int)c.below(4);
        auto o = objs(name, ts);
        if (o.size() > 1) return false;
        if (o.size()) ents[o[0]].alive = false;
        c.note(" client %d deletes object %.20s of step %d -> %s\n", cl, name.c_str(), ts, o.empty() ? "none" : ("#" + std::to_string(o[0])).c_str());
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            pdcid_t pr = SIM(R.p, PDCprop_create)(PDC_OBJ_CREATE, R.pdc);
            SIM(R.p, PDCprop_set_obj_time_step)(pr, ts);
            SIM(R.p, PDC_Client_delete_metadata)((char *)name.c_str(), pr);
            SIM(R.p, PDCprop_close)(pr);
        });
        return true;
    }
    void op_lookup(int cl, const std::string &name, int ts, bool col = false)
    {
        auto o = objs(name, ts);
        std::vector<Ent> xs;
        for (int e : o) xs.push_back(ents[e]);
        for (int k = col ? 0 : cl; k < (col ? nc : cl + 1); k++) {
            c.note(" client %d looks up object %.20s of step %d%s -> %zu\n", k, name.c_str(), ts, col ? " (all together)" : "", o.size());
            ops[k].push_back([=](Runner &R) {
                void *m = (void *)0x77;
                uint32_t sv = 999;
                perr_t r = col ? SIM(R.p, PDC_Client_query_metadata_name_timestep_agg)(name.c_str(), ts, &m, &sv)
                               : SIM(R.p, PDC_Client_query_metadata_name_timestep)(name.c_str(), ts, &m, &sv);
                if (o.empty()) { PBT_CHECK(R.c, r < 0 || m == nullptr, "lookup-missing", "client %d: found object '%.40s' of step %d, which does not exist", R.cl, name.c_str(), ts); return; }
                PBT_CHECK(R.c, r >= 0 && m, "lookup", "client %d: object '%.40s' of step %d was not found", R.cl, name.c_str(), ts);
                vs_meta v;
                vs_read_meta(m, &v);
                size_t w = 0;
                while (w < o.size() && R.S.meta[o[w]] != v.obj_id) w++;
                PBT_CHECK(R.c, w < o.size(), "lookup-wrong", "client %d: looking up '%.40s' of step %d gave id %" PRIu64, R.cl, name.c_str(), ts, v.obj_id);
                check_meta(R, v, xs[w], v.obj_id, "the lookup");
                free(m);
            });
        }
        nread++;
    }
    // changes the application name, tags and location of the object a lookup finds
    void op_update(int cl, int e)
    {
        Ent &x = ents[e];
        if (objs(x.name, x.ts).size() != 1) return;
        std::string app = c.chance(1, 2) ? apps()[c.below(3)] : "", tg = c.chance(1, 2) ? c.pick({std::string("gamma"), std::string("b=2")}) : "";
        if (app.size()) x.app = app;
        if (tg.size()) x.tags += "," + tg;
        c.note(" client %d updates %s: application '%s', tags '%s'\n", cl, who(e).c_str(), app.c_str(), tg.c_str());
        nmut++;
        std::string name = x.name;
        int ts = x.ts;
        ops[cl].push_back([=](Runner &R) {
            void *m = nullptr;
            uint32_t sv;
            SIM(R.p, PDC_Client_query_metadata_name_timestep)(name.c_str(), ts, &m, &sv);
            PBT_CHECK(R.c, m, "lookup", "client %d: object '%.40s' of step %d was not found", R.cl, name.c_str(), ts);
            std::vector<char> nw(vs_meta_size());
            vs_init_update(nw.data(), m);
            vs_set_update(nw.data(), app.c_str(), tg.c_str(), "");
            PBT_CHECK(R.c, SIM(R.p, PDC_Client_update_metadata)(m, nw.data()) >= 0, "update", "client %d: updating #%d failed", R.cl, e);
            free(m);
        });
    }
    void op_addtag(int cl, int s)
    {
        int e = slots[cl][s].ent;
        std::string t = c.pick({std::string("delta"), std::string("alp")});
        ents[e].tags += "," + t;
        c.note(" client %d adds the tag text '%s' to %s\n", cl, t.c_str(), who(e).c_str());
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            PBT_CHECK(R.c, SIM(R.p, PDC_Client_add_tag)(R.at(s), t.c_str()) >= 0, "add-tag", "client %d: adding a tag to #%d failed", R.cl, e);
        });
    }
    // ---- key-value tags
    void op_puttag(int cl, int s, const std::string *name = nullptr, const Tag *tag = nullptr)
    {
        int e = slots[cl][s].ent;
        std::string n = name ? *name : kvnames[c.below(kvnames.size())];
        Tag t = tag ? *tag : gen_tag();
        bool alive = ents[e].alive, ct = ents[e].cont, again = ents[e].kv.count(n);
        if (alive) ents[e].kv[n] = t;
        if (again) c.label("tag-replaced");
        c.note(" client %d puts tag %s type %d (%zu bytes) on %s%s\n", cl, n.c_str(), t.type, t.val.size(), who(e).c_str(), alive ? "" : " (deleted)");
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            std::vector<uint8_t> v = t.val;
            perr_t r = (ct ? SIM(R.p, PDCcont_put_tag) : SIM(R.p, PDCobj_put_tag))(R.at(s), (char *)n.c_str(), v.data(), (pdc_var_type_t)t.type, v.size());
            if (alive) PBT_CHECK(R.c, r >= 0, "put-tag", "client %d: putting tag %s on #%d failed", R.cl, n.c_str(), e);
            else PBT_CHECK(R.c, r < 0, "put-tag-deleted", "client %d: putting a tag on #%d, which is deleted, succeeded", R.cl, e);
        });
    }
    void op_gettag(int cl, int s, const std::string &n)
    {
        int e = slots[cl][s].ent;
        bool ct = ents[e].cont, has = ents[e].alive && ents[e].kv.count(n);
        Tag t;
        if (has) t = ents[e].kv[n];
        c.note(" client %d gets tag %s of %s -> %s\n", cl, n.c_str(), who(e).c_str(), has ? "there" : "none");
        nread++;
        ops[cl].push_back([=](Runner &R) {
            void *v = nullptr;
            pdc_var_type_t ty = (pdc_var_type_t)-9;
            psize_t sz = 0;
            perr_t r = (ct ? SIM(R.p, PDCcont_get_tag) : SIM(R.p, PDCobj_get_tag))(R.at(s), (char *)n.c_str(), &v, &ty, &sz);
            if (!has) { PBT_CHECK(R.c, r < 0 || sz == 0, "get-tag-missing", "client %d: #%d has a tag %s of %zu bytes it should not have", R.cl, e, n.c_str(), (size_t)sz); return; }
            PBT_CHECK(R.c, r >= 0 && v, "get-tag", "client %d: tag %s of #%d was not found", R.cl, n.c_str(), e);
            PBT_CHECK(R.c, sz == t.val.size(), "tag-size", "client %d: tag %s of #%d has %zu bytes, put with %zu", R.cl, n.c_str(), e, (size_t)sz, t.val.size());
            PBT_CHECK(R.c, !memcmp(v, t.val.data(), sz), "tag-value", "client %d: tag %s of #%d is %s, last put %s", R.cl, n.c_str(), e, bytes(v, sz).c_str(),
                      bytes(t.val.data(), sz).c_str());
            PBT_CHECK(R.c, (int)ty == t.type, "tag-type", "client %d: tag %s of #%d has type %d, put with %d", R.cl, n.c_str(), e, (int)ty, t.type);
            free(v);
        });
    }
    void op_deltag(int cl, int s)
    {
        int e = slots[cl][s].ent;
        std::string n = kvnames[c.below(kvnames.size())];
        if (c.chance(2, 3) && !ents[e].kv.empty()) n = std::next(ents[e].kv.begin(), c.below(ents[e].kv.size()))->first;
        bool ct = ents[e].cont, has = ents[e].alive && ents[e].kv.count(n);
        ents[e].kv.erase(n);
        c.note(" client %d deletes tag %s of %s -> %s\n", cl, n.c_str(), who(e).c_str(), has ? "there" : "none");
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            perr_t r = (ct ? SIM(R.p, PDCcont_del_tag) : SIM(R.p, PDCobj_del_tag))(R.at(s), (char *)n.c_str());
            if (has) PBT_CHECK(R.c, r >= 0, "del-tag", "client %d: deleting tag %s of #%d failed", R.cl, n.c_str(), e);
        });
    }
    void op_members(int cl, int cs)
    {
        std::vector<int> ss;
        for (size_t i = 0; i < slots[cl].size(); i++) {
            auto &s = slots[cl][i];
            if (s.open && s.ent >= 0 && !ents[s.ent].cont && ents[s.ent].alive && steady(ents[s.ent].name, cl) && c.flip()) ss.push_back((int)i);
        }
        if (ss.empty()) return;
        bool del = c.flip();
        c.note(" client %d %s %zu object(s) %s %s\n", cl, del ? "removes" : "adds", ss.size(), del ? "from" : "to", who(slots[cl][cs].ent).c_str());
        ops[cl].push_back([=](Runner &R) {
            std::vector<pdcid_t> ids;
            for (int s : ss) ids.push_back(R.at(s));
            perr_t r = (del ? SIM(R.p, PDCcont_del_objids) : SIM(R.p, PDCcont_put_objids))(R.at(cs), (int)ids.size(), ids.data());
            PBT_CHECK(R.c, r >= 0, "members", "client %d: changing the members of a container failed", R.cl);
        });
        nmut++;
    }
    // a container whose members come and go in numbers around those its list has room for
    void members_phase()
    {
        phase_owners(true);
        int cl = (int)c.below(nc);
        int cs = cont_slot(cl);
        if (cs < 0) return;
        std::vector<int> ss;
        for (size_t i = 0; i < slots[cl].size(); i++) {
            auto &s = slots[cl][i];
            if (s.open && s.ent >= 0 && !ents[s.ent].cont && ents[s.ent].alive) ss.push_back((int)i);
        }
        if (ss.empty()) return;
        c.label("members come and go");
        int rounds = 2 + (int)c.below(8);
        for (int r = 0; r < rounds; r++) {
            c.span_begin();
            bool del = c.chance(1, 3);
            size_t n = c.pick({1, 2, 5, 20, 31, 32, 33, 60, 64, 65, 100});
            std::vector<int> w;
            for (size_t i = 0, at = c.below(ss.size()); i < n; i++) w.push_back(ss[(at + i) % (del ? 1 + c.below(ss.size()) : ss.size())]);
            c.note(" client %d %s %zu time(s) an object %s %s\n", cl, del ? "removes" : "adds", n, del ? "from" : "to", who(slots[cl][cs].ent).c_str());
            ops[cl].push_back([=](Runner &R) {
                std::vector<pdcid_t> ids;
                for (int s : w) ids.push_back(R.at(s));
                perr_t q = (del ? SIM(R.p, PDCcont_del_objids) : SIM(R.p, PDCcont_put_objids))(R.at(cs), (int)ids.size(), ids.data());
                PBT_CHECK(R.c, q >= 0, "members", "client %d: changing the members of a container failed", R.cl);
            });
            c.span_end();
        }
        nmut++;
        barrier();
    }
    // ---- whole values
    bool op_put_data(int cl, const std::string &name)
    {
        int cs = cont_slot(cl);
        if (cs < 0) return false;
        Ent x;
        x.name = name; x.user = getuid() ? (int)getuid() : 65534 /* whom sim::begin() becomes */; x.app = "Noname"; x.ndim = 1; x.dims[0] = 1 + c.below(100); x.type = PDC_CHAR; x.unit = 1;
        x.part = -1; // whatever the default is
        x.in = slots[cl][cs].ent;
        bool dup = false;
        for (auto &y : ents) if (y.alive && same(x, y)) dup = true;
        std::vector<uint8_t> v(x.dims[0]);
        for (auto &b : v) { filln = filln * 6364136223846793005ULL + 1442695040888963407ULL; b = (uint8_t)(filln >> 56); }
        x.data = v; x.mask.assign(v.size(), 1);
        int e = -1, s = -1;
        if (!dup) { ents.push_back(x); S.meta.push_back(0); e = (int)ents.size() - 1; s = newslot(cl, e); }
        c.note(" client %d puts %zu bytes as object %s -> %s\n", cl, v.size(), name.c_str(), dup ? "exists already" : ("#" + std::to_string(e)).c_str());
        nmut++;
        ops[cl].push_back([=](Runner &R) {
            std::vector<uint8_t> b = v;
            pdcid_t id = SIM(R.p, PDCobj_put_data)(name.c_str(), b.data(), b.size(), R.at(cs));
            if (dup) { PBT_CHECK(R.c, !id, "dup-create", "client %d: putting an object that exists already succeeded", R.cl); return; }
            PBT_CHECK(R.c, id, "put-data", "client %d: putting object #%d failed", R.cl, e);
            R.at(s) = id;
            new_meta(R, e, id);
        });
        return true;
    }
    void op_get_data(int cl, int s)
    {
        int e = slots[cl][s].ent;
        std::vector<uint8_t> v = ents[e].data, m = ents[e].mask;
        size_t u = ents[e].unit;
        c.note(" client %d gets the data of %s\n", cl, who(e).c_str());
        nread++;
        ops[cl].push_back([=](Runner &R) {
            std::vector<uint8_t> b(v.size(), 0xC5);
            PBT_CHECK(R.c, SIM(R.p, PDCobj_get_data)(R.at(s), b.data(), b.size()) >= 0, "get-data", "client %d: getting the data of #%d failed", R.cl, e);
            for (size_t i = 0; i < v.size(); i++)
                PBT_CHECK(R.c, !m[i / u] || b[i] == v[i], "wrong-data", "client %d: byte %zu of #%d is %02x, put %02x", R.cl, i, e, b[i], v[i]);
        });
    }

    // ---- queries: run while nothing changes ----------------------------------------------------------------------
    std::vector<std::pair<int, Ent>> living() { std::vector<std::pair<int, Ent>> r; for (size_t i = 0; i < ents.size(); i++) if (ents[i].alive && !ents[i].cont) r.push_back({(int)i, ents[i]}); return r; }
    static bool strmatch(const std::string &s, const std::string &pat)
    {
        if (pat.find('*') == std::string::npos) return s == pat;
        bool a = pat[0] == '*', z = pat.back() == '*';
        std::string k = pat.substr(a, pat.size() - a - z);
        if (a && z) return s.find(k) != std::string::npos;
        if (a) return s.size() >= k.size() && s.compare(s.size() - k.size(), k.size(), k) == 0;
        return s.compare(0, k.size(), k) == 0;
    }
    std::string wild(const std::string &s)
    {
        switch (c.weighted({3, 2, 2, 2})) {
        case 1: return s.substr(0, 1 + c.below(s.size())) + "*";
        case 2: return "*" + s.substr(c.below(s.size()));
        case 3: { size_t a = c.below(s.size()); return "*" + s.substr(a, 1 + c.below(s.size() - a)) + "*"; }
        default: return s;
        }
    }
    void q_partial(bool list)
    {
        int user = -1, from = -1, to = -1, nd = -1;
        std::string app, name, tags;
        if (!list) {
            if (c.chance(1, 3)) user = 1000 + (int)c.below(2);
            if (c.chance(1, 3)) app = apps()[c.below(3)];
            if (c.chance(1, 3)) name = names[c.below(names.size())];
            if (c.chance(1, 3)) { from = 1 + (int)c.below(3); to = from + (int)c.below(3); }
            if (c.chance(1, 3)) nd = 1 + (int)c.below(4);
            if (c.chance(1, 3)) tags = c.pick({std::string("alpha"), std::string("beta"), std::string("b="), std::string("nothing")});
        }
        std::vector<std::pair<int, Ent>> exp;
        std::vector<int> ids;
        for (auto &x : living()) {
            const Ent &e = x.second;
            if ((user > 0 && e.user != user) || (app.size() && e.app != app) || (name.size() && e.name != name) || (from > 0 && (e.ts < from || e.ts > to)) ||
                (nd > 0 && e.ndim != nd) || (tags.size() && e.tags.find(tags) == std::string::npos)) continue;
            exp.push_back(x); ids.push_back(x.first);
        }
        int q = ncoll++;
        c.note(" all clients %s: user %d application '%s' name '%.20s' steps %d-%d dimensions %d tags '%s' -> %zu objects\n", list ? "list all objects" : "search",
               user, app.c_str(), name.c_str(), from, to, nd, tags.c_str(), ids.size());
        nquery++;
        for (int k = 0; k < nc; k++) {
            ops[k].push_back([=](Runner &R) {
                int n = -1;
                void **out = nullptr;
                perr_t r = list ? SIM(R.p, PDC_Client_list_all)(&n, &out)
                                : SIM(R.p, PDC_partial_query)(0, user, app.size() ? app.c_str() : nullptr, name.size() ? name.c_str() : nullptr, from, to, nd,
                                                              tags.size() ? tags.c_str() : nullptr, &n, &out);
                PBT_CHECK(R.c, r >= 0 && n >= 0, "query-fails", "client %d: the search failed", R.cl);
                check_set(R, out, n, exp, false, "the search", q);
            });
            check_union(k, q, ids, "the search");
        }
    }
    void q_tagtext(int cl)
    {
        std::string t = c.pick({std::string("alpha"), std::string("beta"), std::string("gamma"), std::string("b="), std::string(",delta"), std::string("nothing")});
        std::vector<std::pair<int, Ent>> exp;
        for (auto &x : living()) if (x.second.tags.find(t) != std::string::npos) exp.push_back(x);
        c.note(" client %d searches the tag text '%s' -> %zu objects\n", cl, t.c_str(), exp.size());
        nquery++;
        ops[cl].push_back([=](Runner &R) {
            int n = -1;
            void **out = nullptr;
            PBT_CHECK(R.c, SIM(R.p, PDC_Client_query_tag)(t.c_str(), &n, &out) >= 0, "query-fails", "client %d: the tag search failed", R.cl);
            check_set(R, out, n, exp, true, "the tag search", -1);
        });
    }
    void q_kvtag(int cl, int how, const std::string *name = nullptr, const Tag *tag = nullptr) // how: 0 one client asks, 1 each client a part, 2 all clients get all
    {
        std::string n = wild(name ? *name : kvnames[c.below(kvnames.size())]);
        Tag t = gen_tag(true);
        auto l = living();
        if (tag) t = *tag;
        else if (c.chance(1, 2)) { // a value that exists, or a part of it
            std::vector<Tag> v;
            for (auto &x : l) for (auto &k : x.second.kv) v.push_back(k.second);
            if (!v.empty()) t = v[c.below(v.size())];
            if (t.type != PDC_STRING && t.val.size() > 4 && c.chance(1, 4)) t.val.resize(4);
        }
        std::string sv;
        if (t.type == PDC_STRING) {
            sv = wild((char *)t.val.data());
            t.val.assign(sv.c_str(), sv.c_str() + sv.size() + 1);
        }
        std::vector<int> exp;
        for (auto &x : l)
            for (auto &k : x.second.kv)
                if (strmatch(k.first, n) && k.second.type == t.type && (t.type == PDC_STRING ? strmatch((char *)k.second.val.data(), sv) : k.second.val == t.val)) {
                    exp.push_back(x.first);
                    break;
                }
        int q = ncoll++;
        c.note(" %s: tag %s type %d value %s (%zu bytes) -> %zu objects\n", how == 0 ? ("client " + std::to_string(cl) + " searches").c_str() :
               how == 1 ? "all clients search, a part each" : "all clients search, all get everything", n.c_str(), t.type,
               t.type == PDC_STRING ? sv.c_str() : bytes(t.val.data(), t.val.size()).c_str(), t.val.size(), exp.size());
        if (!exp.empty()) c.label("tag-search-hits");
        nquery++;
        for (int k = how ? 0 : cl; k < (how ? nc : cl + 1); k++) {
            ops[k].push_back([=](Runner &R) {
                std::vector<uint8_t> v = t.val;
                pdc_kvtag_t kv;
                kv.name = (char *)n.c_str(); kv.size = v.size(); kv.type = t.type; kv.value = v.data();
                int r = -1, sent;
                uint64_t *ids = nullptr;
                perr_t e = how == 0 ? SIM(R.p, PDC_Client_query_kvtag)(&kv, &r, &ids) : how == 1 ? SIM(R.p, PDC_Client_query_kvtag_col)(&kv, &r, &ids, &sent)
                                    : SIM(R.p, PDC_Client_query_kvtag_mpi)(&kv, &r, &ids, MPI_COMM_WORLD);
                PBT_CHECK(R.c, e >= 0 && r >= 0, "query-fails", "client %d: the tag search failed", R.cl);
                check_ids(R, ids, r, exp, how != 1, "the tag search", how == 1 ? q : -1);
                if (ids && r > 0) free(ids);
            });
            if (how == 1) check_union(k, q, exp, "the tag search");
        }
    }

    // ---- phases --------------------------------------------------------------------------------------------------
    void barrier() { for (int k = 0; k < nc; k++) ops[k].push_back([](Runner &R) { R.barrier(); }); }

    void change_phase(int maxops)
    {
        phase_owners(false);
        for (int cl = 0; cl < nc; cl++) {
            std::vector<std::string> my, see, myd;
            for (auto &n : names) { if (mine(n, cl)) my.push_back(n); if (steady(n, cl)) see.push_back(n); }
            for (auto &n : dnames) if (mine(n, cl)) myd.push_back(n);
            int n = 1 + (int)c.below(maxops);
            for (int i = 0; i < n; i++) {
                c.span_begin();
                one_change(cl, my, see, myd);
                c.span_end();
            }
        }
        barrier();
    }
    void one_change(int cl, const std::vector<std::string> &my, const std::vector<std::string> &see, const std::vector<std::string> &myd)
    {
        auto omine = [&](Ent &e) { return !e.cont && e.alive && mine(e.name, cl); };
        auto osee = [&](Ent &e) { return !e.cont && e.alive && steady(e.name, cl); };
        auto emine = [&](Ent &e) { return mine(e.name, cl); };
        auto esee = [&](Ent &e) { return steady(e.name, cl); };
        unsigned L = kind == LIFE, T = kind == TAGS, Q = kind == QUERY, RS = kind == RESTART;
        switch (c.weighted({6 + 2 * L, 2 + L, 3, 1 + L, 2 + 2 * L, 1 + L, 1 + L, 2 + 2 * L, 1 + Q, 3 + 8 * T + 4 * Q, 3 + 6 * T, 1 + 3 * T, 1 + L, 1 + 2 * RS, 1, 1 + L, 1 + L, 1 + Q})) {
        case 0: if (my.size()) op_create(cl, my[c.below(my.size())]); break;
        case 1: if (my.size()) op_create_cont(cl, my[c.below(my.size())]); break;
        case 2: if (see.size()) op_open(cl, see[c.below(see.size())]); break;
        case 3: if (see.size()) op_open_cont(cl, see[c.below(see.size())]); break;
        case 4: { int s = findslot(cl, [&](Ent &e) { return !e.cont && mine(e.name, cl); }); if (s >= 0) op_del(cl, s); break; }
        case 5: { int s = findslot(cl, [&](Ent &e) { return e.cont && mine(e.name, cl); }); if (s >= 0 && c.chance(1, 2)) op_del_cont(cl, s); break; }
        case 6: if (my.size()) op_del_name(cl, my[c.below(my.size())]); break;
        case 7: { int s = findslot(cl, osee); if (s >= 0) op_info(cl, s); break; }
        case 8: { int s = findslot(cl, [&](Ent &e) { return omine(e) && e.data.empty(); }); if (s >= 0) op_set_dims(cl, s); break; }
        case 9: { int s = findslot(cl, emine); if (s >= 0) op_puttag(cl, s); break; }
        case 10: {
            int s = findslot(cl, esee);
            if (s < 0) break;
            auto &kv = ents[slots[cl][s].ent].kv;
            op_gettag(cl, s, !kv.empty() && c.chance(2, 3) ? std::next(kv.begin(), c.below(kv.size()))->first : kvnames[c.below(kvnames.size())]);
            break;
        }
        case 11: { int s = findslot(cl, [&](Ent &e) { return e.alive && mine(e.name, cl); }); if (s >= 0) op_deltag(cl, s); break; }
        case 12: { int s = findslot(cl, [&](Ent &) { return true; }); if (s >= 0 && c.chance(1, 2)) op_close(cl, s); break; }
        case 13: if (myd.size()) op_put_data(cl, myd[c.below(myd.size())]); break;
        case 14: { int s = findslot(cl, [&](Ent &e) { return osee(e) && !e.data.empty(); }); if (s >= 0) op_get_data(cl, s); break; }
        case 15: if (see.size()) op_lookup(cl, see[c.below(see.size())], (int)c.below(4)); break;
        case 16: { int s = findslot(cl, [&](Ent &e) { return e.cont && e.alive && mine(e.name, cl); }); if (s >= 0) op_members(cl, s); break; }
        case 17: {
            int s = findslot(cl, omine);
            if (s < 0) break;
            if (c.flip()) op_addtag(cl, s);
            else op_update(cl, slots[cl][s].ent);
            break;
        }
        }
    }
    // many objects of one name on one server
    void many_phase()
    {
        std::vector<std::string> fit;
        for (auto &n : names) fit.push_back(n);
        std::string n = fit[c.below(fit.size())];
        phase_owners(true);
        int cl = (int)c.below(nc);
        owner[n] = cl;
        if (cont_slot(cl) < 0) return;
        Ent x = gen_ent(n);
        int cnt = 60 + (int)c.below(20), t0 = 10 + (int)c.below(ns) ;
        bool crowd = kind == QUERY || c.chance(1, 8);
        if (crowd) cnt = (int)c.pick({10, 30, 60, 120, 250}) + (int)c.below(30);
        c.label(crowd ? "crowd" : "many-of-one-name");
        size_t s0 = slots[cl].size();
        for (int i = 0; i < cnt; i++) { x.ts = t0 + i * ns; op_create(cl, n, &x); }
        std::string tn = kvnames[c.below(kvnames.size())];
        Tag tg = gen_tag(true);
        if (crowd) {
            for (size_t s = s0; s < slots[cl].size(); s++) if (!c.chance(1, 40)) op_puttag(cl, (int)s, &tn, &tg);
            barrier();
            for (int k = 0, m = 1 + (int)c.below(3); k < m; k++) {
                if (c.chance(1, 4)) q_partial(c.flip());
                else q_kvtag((int)c.below(nc), (int)c.below(3), &tn, &tg);
            }
            barrier();
        }
        for (int i = 0, m = (int)c.below(8); i < m; i++) {
            auto o = objs(n, t0 + (int)c.below(cnt) * ns);
            if (o.size() != 1) continue;
            int e = o[0];
            if (c.flip()) { op_create(cl, n, &ents[e]); continue; } // exists
            int s = findslot(cl, [&](Ent &y) { return &y == &ents[e]; });
            if (s < 0) continue;
            Ent y = ents[e];
            op_del(cl, s);
            op_lookup(cl, n, y.ts);
            if (c.flip()) op_create(cl, n, &y);
        }
        barrier();
    }
    void query_phase(int maxops)
    {
        phase_owners(true);
        int n = 1 + (int)c.below(maxops);
        for (int i = 0; i < n; i++) {
            c.span_begin();
            int cl = (int)c.below(nc);
            auto any = [&](const std::vector<std::string> &v) { return v[c.below(v.size())]; };
            auto nm = [&]() { return c.chance(1, 6) ? any(dnames) : any(names); };
            switch (c.weighted({2, 1, 2, 1, 1, 3, 2, 2, 2, 3, 1, 1, 1u + (kind == LIFE)})) {
            case 0: q_partial(c.flip()); break;
            case 1: q_tagtext(cl); break;
            case 2: op_open(cl, nm()); break;
            case 3: op_open(cl, nm(), true); break;
            case 4: op_lookup(cl, nm(), (int)c.below(4), true); break;
            case 5: q_kvtag(cl, 0); break;
            case 6: q_kvtag(cl, 1); break;
            case 7: q_kvtag(cl, 2); break;
            case 8: op_lookup(cl, nm(), (int)c.below(4)); break;
            case 9: {
                int s = findslot(cl, [&](Ent &e) { return e.alive; });
                if (s < 0) break;
                auto &kv = ents[slots[cl][s].ent].kv;
                op_gettag(cl, s, !kv.empty() && c.chance(2, 3) ? std::next(kv.begin(), c.below(kv.size()))->first : any(kvnames));
                break;
            }
            case 10: col_create_cont(any(names), c.flip()); break;
            case 12: col_create(any(names)); break;
            case 11: { int s = findslot(cl, [&](Ent &e) { return e.alive && !e.data.empty(); }); if (s >= 0) op_get_data(cl, s); break; }
            }
            c.span_end();
        }
        barrier();
    }
    // everything the model knows, asked by random clients
    void verify_phase()
    {
        phase_owners(true);
        c.note(" verifying everything\n");
        q_partial(true);
        for (auto &n : names) {
            op_open(c.below(nc), n);
            op_open_cont(c.below(nc), n);
        }
        for (auto &n : dnames) op_open(c.below(nc), n);
        std::set<std::pair<std::string, int>> seen;
        for (auto &x : living())
            if (seen.insert({x.second.name, x.second.ts}).second && seen.size() < 40) op_lookup(c.below(nc), x.second.name, x.second.ts);
        for (int cl = 0; cl < nc; cl++)
            for (size_t s = 0; s < slots[cl].size(); s++) {
                if (!slots[cl][s].open || slots[cl][s].ent < 0 || !ents[slots[cl][s].ent].alive) continue;
                Ent &e = ents[slots[cl][s].ent];
                for (auto &k : kvnames) if (e.kv.count(k) || c.chance(1, 4)) op_gettag(cl, (int)s, k);
                if (!e.data.empty()) op_get_data(cl, (int)s);
            }
        barrier();
    }
    void start(int nserver, int nclient)
    {
        ns = nserver; nc = nclient;
        slots.assign(nc, {});
        ops.assign(nc, {});
        c.note("%d server(s), %d client(s)\n", ns, nc);
    }
    // the body of every client
    void body(sim::Proc &p, const std::function<void(Runner &)> &before_close = nullptr)
    {
        Runner R(p, c, S);
        R.pdc = SIM(p, PDCinit)("pdc");
        PBT_CHECK(c, R.pdc, "init", "PDCinit failed");
        for (auto &o : ops[R.cl]) o(R);
        R.barrier();
        for (size_t s = 0; s < R.slot.size() && s < slots[R.cl].size(); s++)
            if (slots[R.cl][s].open && R.slot[s]) {
                if (ents[slots[R.cl][s].ent].cont) SIM(p, PDCcont_close)(R.slot[s]);
                else SIM(p, PDCobj_close)(R.slot[s]);
            }
        R.barrier();
        if (before_close) before_close(R);
        SIM(p, PDC_Client_close_all_server)();
        PBT_CHECK(c, SIM(p, PDCclose)(R.pdc) >= 0, "pdc-close", "client %d: PDCclose failed", R.cl);
    }
};
} // namespace mc
