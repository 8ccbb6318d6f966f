// C09: property lists and the local handles of objects, containers and regions behave as independent values:
// model-based histories of one or two clients over real servers, against a table of what every open handle was given.
#include "sim.hpp"
#include "pdc_api.hpp"
#include <cinttypes>
#include <cstring>
#include <map>
#include <memory>
#include <set>

using pbt::Case;

extern "C" {
struct hs_prop {
    uint32_t    user, ts;
    const char *app, *loc, *tags;
    void *      buf;
    uint64_t    id, ndim;
    uint64_t *  dims;
    int         type, part, cons;
};
struct hs_obj {
    const char *name, *cont_name;
    uint64_t    meta_id, local_id, cont_meta, cont_local;
};
void     hs_read_prop(const void *, hs_prop *);
void     hs_read_obj(const void *, hs_obj *, hs_prop *);
int      hs_life(const void *);
uint64_t hs_cont_prop_id(const void *);
void     hs_read_cont(const void *, hs_obj *, int *);
void *   PDC_obj_prop_get_info(pdcid_t);
void *   PDC_obj_get_info(pdcid_t);
void *   PDC_cont_get_info(pdcid_t);
int      PDC_inc_ref(pdcid_t);
}

namespace {

struct Props { // the attributes a property list (and an object made with it) has
    bool                  user_set = false;
    uint32_t              user = 0, ts = 0;
    bool                  has_app = false, has_loc = false, has_tags = false;
    std::string           app, loc, tags;
    void *                buf = nullptr;
    std::vector<uint64_t> dims;
    int                   type = PDC_UNKNOWN, part = PDC_REGION_STATIC, cons = PDC_CONSISTENCY_EVENTUAL;
};
enum What { OPROP, CPROP, OBJ, CONT, REG };
struct H {
    What                  what;
    pdcid_t               id;
    int                   refs = 1;
    Props                 p;
    int                   life = PDC_PERSIST;
    std::string           name;
    uint64_t              meta = 0;
    pdcid_t               cont = 0; // local handle the object was created with; 0: opened
    std::string           cont_name;
    uint64_t              cont_meta = 0;
    std::vector<uint64_t> off, size;
};

struct Run {
    Case &                    c;
    sim::Proc &               p;
    pdcid_t                   pdc = 0;
    std::vector<H>            open;
    std::vector<pdcid_t>      closed;
    std::set<pdcid_t>         ever;
    std::vector<std::string>  objnames; // names of objects with time step 0
    std::map<std::string, uint64_t> objmeta;
    std::map<std::string, H>  made;     // created objects by name
    std::map<std::string, uint64_t> contmeta;
    int                       serial = 0, nshare = 0, nclosed = 0, nbad = 0;
    std::string               prefix;
    char                      bufs[4];

    Run(Case &c, sim::Proc &p) : c(c), p(p) {}

    std::vector<int> of(What w)
    {
        std::vector<int> r;
        for (size_t i = 0; i < open.size(); i++)
            if (open[i].what == w) r.push_back((int)i);
        return r;
    }
    int any(What w)
    {
        auto v = of(w);
        return v.empty() ? -1 : v[c.below(v.size())];
    }
    void issued(pdcid_t id, const char *what)
    {
        PBT_CHECK(c, id, "create", "%s failed", what);
        PBT_CHECK(c, ever.insert(id).second, "id-reused", "%s returned handle %#" PRIx64 ", which was issued before", what, (uint64_t)id);
    }
    std::string text(int max) { std::string s; for (int n = (int)c.below(max); n-- > 0;) s += (char)(33 + c.below(94)); return s; }
    static int idx(What w) { return (int)w; }

    // ---- comparing -------------------------------------------------------------------------------------------
    void same(const hs_prop &q, const Props &m, const char *what, bool priv, bool opened = false)
    {
        PBT_CHECK(c, q.ndim == m.dims.size(), "ndim", "%s has %" PRIu64 " dimensions, should have %zu", what, q.ndim, m.dims.size());
        for (size_t i = 0; i < m.dims.size(); i++)
            PBT_CHECK(c, q.dims[i] == m.dims[i], "dims", "%s: dimension %zu is %" PRIu64 ", should be %" PRIu64, what, i, q.dims[i], m.dims[i]);
        PBT_CHECK(c, q.type == m.type, "type", "%s has data type %d, should have %d", what, q.type, m.type);
        PBT_CHECK(c, q.part == m.part, "partition", "%s has region partition %d, should have %d", what, q.part, m.part);
        PBT_CHECK(c, q.cons == m.cons, "consistency", "%s has consistency %d, should have %d", what, q.cons, m.cons);
        if (!priv) return;
        PBT_CHECK(c, q.user == m.user, "user", "%s has user id %u, should have %u", what, q.user, m.user);
        PBT_CHECK(c, q.ts == m.ts, "time-step", "%s has time step %u, should have %u", what, q.ts, m.ts);
        if (opened) { if (m.has_app && !m.app.empty()) str(q.app, true, m.app, "application", what); return; }
        str(q.app, m.has_app, m.app, "application", what);
        str(q.loc, m.has_loc, m.loc, "data location", what);
        str(q.tags, m.has_tags, m.tags, "tags", what);
        PBT_CHECK(c, q.buf == m.buf, "buffer", "%s has another buffer than the one set", what);
    }
    void str(const char *got, bool has, const std::string &want, const char *field, const char *what)
    {
        PBT_CHECK(c, !!got == has, "string-presence", "%s: %s is %s, should be %s", what, field, got ? got : "unset", has ? want.c_str() : "unset");
        if (has) PBT_CHECK(c, want == got, "string", "%s: %s is '%s', should be '%s'", what, field, got, want.c_str());
    }
    static hs_prop view(struct pdc_obj_prop *q)
    {
        hs_prop r{};
        r.id = q->obj_prop_id; r.ndim = q->ndim; r.dims = q->dims; r.type = q->type; r.part = q->region_partition; r.cons = q->consistency;
        return r;
    }
    void verify(H &h)
    {
        char w[160];
        switch (h.what) {
        case OPROP: {
            snprintf(w, sizeof w, "object property list %#" PRIx64, (uint64_t)h.id);
            struct pdc_obj_prop *q = SIM(p, PDCobj_prop_get_info)(h.id);
            PBT_CHECK(c, q, "get-info", "no info about open %s", w);
            same(view(q), h.p, w, false);
            PBT_CHECK(c, q->obj_prop_id == h.id, "own-id", "%s reports the id %#" PRIx64, w, (uint64_t)q->obj_prop_id);
            free(q->dims);
            free(q);
            void *z = SIM(p, PDC_obj_prop_get_info)(h.id);
            PBT_CHECK(c, z, "get-info", "no internal info about open %s", w);
            hs_prop y;
            hs_read_prop(z, &y);
            same(y, h.p, w, true);
            break;
        }
        case CPROP: {
            snprintf(w, sizeof w, "container property list %#" PRIx64, (uint64_t)h.id);
            struct _pdc_cont_prop *q = SIM(p, PDCcont_prop_get_info)(h.id);
            PBT_CHECK(c, q, "get-info", "no info about open %s", w);
            PBT_CHECK(c, hs_life(q) == h.life, "lifetime", "%s has lifetime %d, should have %d", w, hs_life(q), h.life);
            PBT_CHECK(c, hs_cont_prop_id(q) == h.id, "own-id", "%s reports another id", w);
            break;
        }
        case OBJ: {
            snprintf(w, sizeof w, "object '%.40s' (handle %#" PRIx64 ")", h.name.c_str(), (uint64_t)h.id);
            struct pdc_obj_info *i = SIM(p, PDCobj_get_info)(h.id);
            PBT_CHECK(c, i, "get-info", "no info about open %s", w);
            PBT_CHECK(c, i->name && h.name == i->name, "name", "%s reports the name '%s'", w, i->name ? i->name : "none");
            PBT_CHECK(c, i->meta_id == h.meta, "meta-id", "%s reports the object id %#" PRIx64 ", should be %#" PRIx64, w, (uint64_t)i->meta_id, h.meta);
            PBT_CHECK(c, i->local_id == h.id, "own-id", "%s reports the handle %#" PRIx64, w, (uint64_t)i->local_id);
            same(view(i->obj_pt), h.p, w, false);
            void *z = SIM(p, PDC_obj_get_info)(h.id);
            hs_obj o;
            hs_prop y;
            PBT_CHECK(c, z, "get-info", "no internal info about open %s", w);
            hs_read_obj(z, &o, &y);
            same(y, h.p, w, true, !h.cont);
            PBT_CHECK(c, o.cont_meta == h.cont_meta, "container", "%s belongs to container %#" PRIx64 ", should be %#" PRIx64, w, o.cont_meta, h.cont_meta);
            if (h.cont) PBT_CHECK(c, o.cont_local == h.cont && h.cont_name == o.cont_name, "container", "%s is said to be in container '%s'", w, o.cont_name);
            int nd = -1;
            uint64_t *d = nullptr;
            PBT_CHECK(c, SIM(p, PDCobj_get_dims)(h.id, &nd, &d) >= 0 && nd == (int)h.p.dims.size(), "get-dims", "PDCobj_get_dims of %s: %d dimensions", w, nd);
            for (int k = 0; k < nd; k++) PBT_CHECK(c, d[k] == h.p.dims[k], "get-dims", "PDCobj_get_dims of %s: dimension %d is %" PRIu64, w, k, d[k]);
            free(d);
            void **b = SIM(p, PDCobj_buf_retrieve)(h.id);
            PBT_CHECK(c, b, "buffer", "PDCobj_buf_retrieve of %s failed", w);
            if (h.cont) PBT_CHECK(c, *b == h.p.buf, "buffer", "PDCobj_buf_retrieve of %s is not the buffer of its property list", w);
            break;
        }
        case CONT: {
            snprintf(w, sizeof w, "container '%.40s' (handle %#" PRIx64 ")", h.name.c_str(), (uint64_t)h.id);
            void *z = SIM(p, PDC_cont_get_info)(h.id);
            PBT_CHECK(c, z, "get-info", "no info about open %s", w);
            hs_obj o;
            int life;
            hs_read_cont(z, &o, &life);
            PBT_CHECK(c, h.name == o.name && o.meta_id == h.meta && o.local_id == h.id, "container-info", "%s reports '%s', id %#" PRIx64 ", handle %#" PRIx64, w, o.name,
                      o.meta_id, o.local_id);
            PBT_CHECK(c, life == h.life, "lifetime", "%s has lifetime %d, should have %d", w, life, h.life);
            break;
        }
        case REG: {
            snprintf(w, sizeof w, "region %#" PRIx64, (uint64_t)h.id);
            struct pdc_region_info *i = SIM(p, PDCregion_get_info)(h.id);
            PBT_CHECK(c, i, "get-info", "no info about open %s", w);
            PBT_CHECK(c, i->local_id == h.id && i->ndim == h.off.size(), "region", "%s has %zu dimensions, should have %zu", w, i->ndim, h.off.size());
            for (size_t k = 0; k < h.off.size(); k++)
                PBT_CHECK(c, i->offset[k] == h.off[k] && i->size[k] == h.size[k], "region", "%s: dimension %zu is %" PRIu64 "+%" PRIu64, w, k, i->offset[k], i->size[k]);
            break;
        }
        }
    }
    void verify_all() { for (auto &h : open) verify(h); }

    // ---- operations ------------------------------------------------------------------------------------------
    void new_oprop()
    {
        H h{OPROP, SIM(p, PDCprop_create)(PDC_OBJ_CREATE, pdc)};
        c.note("object property list %#" PRIx64 "\n", (uint64_t)h.id);
        issued(h.id, "PDCprop_create(PDC_OBJ_CREATE)");
        open.push_back(h);
    }
    void new_cprop()
    {
        H h{CPROP, SIM(p, PDCprop_create)(PDC_CONT_CREATE, pdc)};
        c.note("container property list %#" PRIx64 "\n", (uint64_t)h.id);
        issued(h.id, "PDCprop_create(PDC_CONT_CREATE)");
        open.push_back(h);
    }
    void dup()
    {
        int k = any(OPROP);
        if (k < 0) return;
        H h{OPROP, SIM(p, PDCprop_obj_dup)(open[k].id)};
        c.note("duplicate of %#" PRIx64 ": %#" PRIx64 "\n", (uint64_t)open[k].id, (uint64_t)h.id);
        issued(h.id, "PDCprop_obj_dup");
        h.p = open[k].p;
        h.p.has_loc = false;
        h.p.type = PDC_UNKNOWN;
        h.p.buf = nullptr;
        open.push_back(h);
        nshare++;
    }
    void set_dims(H &h)
    {
        int nd = 1 + (int)c.below(4);
        std::vector<uint64_t> d;
        for (int i = 0; i < nd; i++) d.push_back(1 + c.below(40));
        c.note("set %d dimensions of %#" PRIx64 "\n", nd, (uint64_t)h.id);
        std::vector<uint64_t> pass = d;
        PBT_CHECK(c, SIM(p, PDCprop_set_obj_dims)(h.id, nd, pass.data()) >= 0, "set", "PDCprop_set_obj_dims failed");
        std::fill(pass.begin(), pass.end(), 77777); // the caller's array is the caller's
        h.p.dims = d;
    }
    void set()
    {
        int k = any(OPROP);
        if (k < 0) return;
        H &h = open[k];
        int r = 0;
        int what = (int)c.below(9);
        std::string s;
        char *heap = nullptr;
        if (what == 1 || what == 3 || what == 4) {
            s = text(c.chance(1, 4) ? 90 : 12);
            heap = strdup(s.c_str());
        }
        if (what != 5) c.note("set attribute %d of %#" PRIx64 "\n", what, (uint64_t)h.id);
        switch (what) {
        case 0: h.p.user = (uint32_t)c.bits(32); r = SIM(p, PDCprop_set_obj_user_id)(h.id, h.p.user); break;
        case 1: h.p.has_app = true; h.p.app = s; r = SIM(p, PDCprop_set_obj_app_name)(h.id, heap); break;
        case 2: h.p.ts = c.flip() ? 0 : (uint32_t)c.below(100000); r = SIM(p, PDCprop_set_obj_time_step)(h.id, h.p.ts); break;
        case 3: h.p.has_loc = true; h.p.loc = s; r = SIM(p, PDCprop_set_obj_data_loc)(h.id, heap); break;
        case 4: h.p.has_tags = true; h.p.tags = s; r = SIM(p, PDCprop_set_obj_tags)(h.id, heap); break;
        case 5: set_dims(h); break;
        case 6: h.p.type = c.pick({(int)PDC_INT, (int)PDC_FLOAT, (int)PDC_DOUBLE, (int)PDC_CHAR, (int)PDC_INT64, (int)PDC_INT8}); r = SIM(p, PDCprop_set_obj_type)(h.id, (pdc_var_type_t)h.p.type); break;
        case 7:
            if (c.flip()) { h.p.part = (int)c.below(4); r = SIM(p, PDCprop_set_obj_transfer_region_type)(h.id, (pdc_region_partition_t)h.p.part); }
            else {
                h.p.cons = c.pick({(int)PDC_CONSISTENCY_EVENTUAL, (int)PDC_CONSISTENCY_POSIX, (int)PDC_CONSISTENCY_COMMIT, (int)PDC_CONSISTENCY_SESSION});
                r = SIM(p, PDCprop_set_obj_consistency_semantics)(h.id, (pdc_consistency_t)h.p.cons);
            }
            break;
        case 8: h.p.buf = c.chance(1, 4) ? nullptr : &bufs[c.below(4)]; r = SIM(p, PDCprop_set_obj_buf)(h.id, h.p.buf); break;
        }
        PBT_CHECK(c, r >= 0, "set", "setting attribute %d of a property list failed", what);
        if (heap) { memset(heap, '#', s.size()); free(heap); }
    }
    void set_life()
    {
        int k = any(CPROP);
        if (k < 0) return;
        open[k].life = c.flip() ? PDC_PERSIST : PDC_TRANSIENT;
        c.note("lifetime of %#" PRIx64 " is %d\n", (uint64_t)open[k].id, open[k].life);
        PBT_CHECK(c, SIM(p, PDCprop_set_cont_lifetime)(open[k].id, (pdc_lifetime_t)open[k].life) >= 0, "set", "PDCprop_set_cont_lifetime failed");
    }
    void new_cont()
    {
        int k = any(CPROP);
        if (k < 0) return;
        H h{CONT, 0};
        bool again = !contmeta.empty() && c.chance(1, 4);
        h.name = prefix + "c" + std::to_string(again ? (int)c.below(contmeta.size()) : (int)contmeta.size());
        h.life = open[k].life;
        h.id = SIM(p, PDCcont_create)(h.name.c_str(), open[k].id);
        c.note("container %s: %#" PRIx64 "\n", h.name.c_str(), (uint64_t)h.id);
        issued(h.id, "PDCcont_create");
        learn_cont(h);
        open.push_back(h);
        nshare++;
    }
    void learn_cont(H &h)
    {
        hs_obj o;
        int life;
        void *z = SIM(p, PDC_cont_get_info)(h.id);
        PBT_CHECK(c, z, "get-info", "no info about a new container");
        hs_read_cont(z, &o, &life);
        h.meta = o.meta_id;
        auto f = contmeta.find(h.name);
        if (f != contmeta.end()) PBT_CHECK(c, f->second == h.meta, "container-id", "container '%s' has id %#" PRIx64 ", had %#" PRIx64, h.name.c_str(), h.meta, f->second);
        else {
            for (auto &x : contmeta) PBT_CHECK(c, x.second != h.meta, "container-id", "two containers have id %#" PRIx64, h.meta);
            contmeta[h.name] = h.meta;
        }
    }
    void open_cont()
    {
        if (contmeta.empty()) return;
        auto it = contmeta.begin();
        std::advance(it, c.below(contmeta.size()));
        H h{CONT, SIM(p, PDCcont_open)(it->first.c_str(), pdc)};
        h.name = it->first;
        c.note("open container %s: %#" PRIx64 "\n", h.name.c_str(), (uint64_t)h.id);
        issued(h.id, "PDCcont_open");
        learn_cont(h);
        open.push_back(h);
    }
    void new_obj()
    {
        int k = any(OPROP), q = any(CONT);
        if (k < 0 || q < 0) return;
        if (open[k].p.dims.empty() && !c.chance(1, 6)) set_dims(open[k]);
        H h{OBJ, 0};
        h.name = prefix + "o" + std::to_string(made.size()) + (c.chance(1, 5) ? text(60) : "");
        h.p = open[k].p;
        h.cont = open[q].id;
        h.cont_name = open[q].name;
        h.cont_meta = open[q].meta;
        h.id = SIM(p, PDCobj_create)(open[q].id, h.name.c_str(), open[k].id);
        c.note("object %s in %#" PRIx64 " with %#" PRIx64 ": %#" PRIx64 "\n", h.name.c_str(), (uint64_t)open[q].id, (uint64_t)open[k].id, (uint64_t)h.id);
        issued(h.id, "PDCobj_create");
        struct pdc_obj_info *i = SIM(p, PDCobj_get_info)(h.id);
        PBT_CHECK(c, i && i->meta_id, "get-info", "no info about a new object");
        h.meta = i->meta_id;
        for (auto &x : made) PBT_CHECK(c, x.second.meta != h.meta, "meta-id", "two objects have id %#" PRIx64, h.meta);
        made.emplace(h.name, h);
        if (h.p.ts == 0) objnames.push_back(h.name);
        open.push_back(h);
        nshare++;
    }
    void open_obj()
    {
        if (objnames.empty()) return;
        H h = made.at(objnames[c.below(objnames.size())]);
        h.refs = 1;
        h.cont = 0;
        h.id = SIM(p, PDCobj_open)(h.name.c_str(), pdc);
        c.note("open object %s: %#" PRIx64 "\n", h.name.c_str(), (uint64_t)h.id);
        issued(h.id, "PDCobj_open");
        open.push_back(h);
    }
    void new_reg()
    {
        int nd = 1 + (int)c.below(4);
        H h{REG, 0};
        for (int i = 0; i < nd; i++) h.off.push_back(c.below(1000)), h.size.push_back(1 + c.below(1000));
        std::vector<uint64_t> a = h.off, b = h.size;
        h.id = SIM(p, PDCregion_create)(nd, a.data(), b.data());
        c.note("region %#" PRIx64 " of %d dimensions\n", (uint64_t)h.id, nd);
        issued(h.id, "PDCregion_create");
        std::fill(a.begin(), a.end(), 5);
        std::fill(b.begin(), b.end(), 5);
        open.push_back(h);
    }
    void close_one()
    {
        if (open.empty()) return;
        close_at((int)c.below(open.size()));
    }
    perr_t close_call(What w, pdcid_t id)
    {
        switch (w) {
        case OPROP: case CPROP: return SIM(p, PDCprop_close)(id);
        case OBJ: return SIM(p, PDCobj_close)(id);
        case CONT: return SIM(p, PDCcont_close)(id);
        default: return SIM(p, PDCregion_close)(id);
        }
    }
    void close_at(int k)
    {
        H h = open[k];
        c.note("close %#" PRIx64 "\n", (uint64_t)h.id);
        PBT_CHECK(c, close_call(h.what, h.id) >= 0, "close", "closing an open handle failed");
        if (--open[k].refs == 0) {
            open.erase(open.begin() + k);
            closed.push_back(h.id);
            nclosed++;
            PBT_CHECK(c, close_call(h.what, h.id) < 0, "close-twice", "closing handle %#" PRIx64 " a second time succeeds", (uint64_t)h.id);
        }
        else verify(open[k]);
    }
    void ref()
    {
        if (open.empty()) return;
        H &h = open[c.below(open.size())];
        c.note("another reference to %#" PRIx64 "\n", (uint64_t)h.id);
        h.refs++;
        PBT_CHECK(c, SIM(p, PDC_inc_ref)(h.id) == h.refs, "reference", "PDC_inc_ref does not return the new count");
    }
    void persist()
    {
        int k = any(CONT);
        if (k < 0) return;
        c.note("persist %#" PRIx64 "\n", (uint64_t)open[k].id);
        open[k].life = PDC_PERSIST;
        PBT_CHECK(c, SIM(p, PDCcont_persist)(open[k].id) >= 0, "set", "PDCcont_persist failed");
    }
    void obj_dims()
    {
        int k = any(OBJ);
        if (k < 0) return;
        H &h = open[k];
        std::vector<uint64_t> d;
        bool wrong = c.chance(1, 4);
        for (size_t i = 0; i < h.p.dims.size() + wrong; i++) d.push_back(1 + c.below(30));
        if (d.empty()) return;
        c.note("set %zu dimensions of object %#" PRIx64 "\n", d.size(), (uint64_t)h.id);
        perr_t r = SIM(p, PDCobj_set_dims)(h.id, (int)d.size(), d.data());
        PBT_CHECK(c, (r >= 0) == !wrong, "set-dims", "PDCobj_set_dims to %zu dimensions of an object of %zu returns %d", d.size(), h.p.dims.size(), (int)r);
        if (!wrong) h.p.dims = made.at(h.name).p.dims = d;
    }
    void cont_by_name()
    {
        std::string name = contmeta.empty() || c.chance(1, 4) ? prefix + "absent" : prefix + "c" + std::to_string(c.below(contmeta.size()));
        std::set<pdcid_t> ids;
        for (auto &h : open)
            if (h.what == CONT && h.name == name) ids.insert(h.id);
        c.note("info about container %s (%zu open handles)\n", name.c_str(), ids.size());
        struct pdc_cont_info *i = SIM(p, PDCcont_get_info)(name.c_str());
        if (ids.empty()) PBT_CHECK(c, !i, "get-info-absent", "there is info about container '%s', which is not open", name.c_str());
        else {
            PBT_CHECK(c, i, "get-info", "no info about container '%s'", name.c_str());
            PBT_CHECK(c, name == i->name && ids.count(i->local_id) && i->meta_id == contmeta.at(name), "container-info", "PDCcont_get_info('%s') reports '%s', handle %#" PRIx64 ", id %#" PRIx64,
                      name.c_str(), i->name, (uint64_t)i->local_id, i->meta_id);
        }
    }
    void iter_conts()
    {
        std::map<pdcid_t, int> seen;
        size_t n = 0;
        for (cont_handle *h = SIM(p, PDCcont_iter_start)(); !SIM(p, PDCcont_iter_null)(h); h = SIM(p, PDCcont_iter_next)(h)) {
            struct pdc_cont_info *i = SIM(p, PDCcont_iter_get_info)(h);
            PBT_CHECK(c, i, "iterate", "no info during container iteration");
            seen[i->local_id]++;
            PBT_CHECK(c, ++n <= open.size(), "iterate", "the container iteration does not end");
        }
        auto v = of(CONT);
        PBT_CHECK(c, n == v.size(), "iterate", "the container iteration yields %zu containers, %zu are open", n, v.size());
        for (int k : v) PBT_CHECK(c, seen.count(open[k].id), "iterate", "the container iteration misses '%s'", open[k].name.c_str());
    }
    void iter_objs()
    {
        int k = any(CONT);
        if (k < 0) return;
        pdcid_t cont = open[k].id;
        std::map<pdcid_t, std::string> want;
        for (auto &h : open)
            if (h.what == OBJ && h.cont == cont) want[h.id] = h.name;
        size_t n = 0;
        c.note("iterate over the %zu objects of %#" PRIx64 "\n", want.size(), (uint64_t)cont);
        for (obj_handle *h = SIM(p, PDCobj_iter_start)(cont); !SIM(p, PDCobj_iter_null)(h); h = SIM(p, PDCobj_iter_next)(h, cont)) {
            struct pdc_obj_info *i = SIM(p, PDCobj_iter_get_info)(h);
            PBT_CHECK(c, i, "iterate", "no info during object iteration");
            auto f = want.find(i->local_id);
            PBT_CHECK(c, f != want.end() && f->second == i->name, "iterate", "the iteration over container '%s' yields object '%s' %s", open[k].name.c_str(), i->name,
                      f == want.end() ? "of another container or a second time" : "under another name");
            want.erase(f);
            n++;
        }
        PBT_CHECK(c, want.empty(), "iterate", "the iteration over container '%s' misses object '%s'", open[k].name.c_str(), want.empty() ? "" : want.begin()->second.c_str());
    }
    pdcid_t invalid(What w)
    {
        // closed before, never issued, or not a handle at all
        if (!closed.empty() && c.chance(3, 4)) {
            static const int type[] = {(int)PDC_OBJ_CREATE};
            (void)type;
            return closed[c.below(closed.size())];
        }
        if (c.flip()) {
            int k = any(w);
            if (k >= 0) return open[k].id + 100000 + c.below(1000);
        }
        return c.pick({(pdcid_t)0, (pdcid_t)7, (pdcid_t)0x7fffffffffffffffull, (pdcid_t)-1, (pdcid_t)1 << 40});
    }
    void bad(bool wire)
    {
        int kp = any(OPROP), kc = any(CONT), kcp = any(CPROP), kr = any(REG), ko = any(OBJ);
        char s[] = "text";
        uint64_t d[4] = {1, 2, 3, 4};
        int nd = 0;
        uint64_t *dd = nullptr;
        nbad++;
        int what = wire ? 24 + (int)c.below(14) : (int)c.below(24);
        pdcid_t x = invalid(what < 11 ? OPROP : what < 14 ? CPROP : what < 19 ? OBJ : what < 21 ? CONT : REG);
        c.note("call %d with the invalid handle %#" PRIx64 "\n", what, (uint64_t)x);
        long r = -1;
        bool ptr = false;
        switch (what) {
        case 0: r = SIM(p, PDCprop_set_obj_user_id)(x, 1); break;
        case 1: r = SIM(p, PDCprop_set_obj_app_name)(x, s); break;
        case 2: r = SIM(p, PDCprop_set_obj_time_step)(x, 1); break;
        case 3: r = SIM(p, PDCprop_set_obj_data_loc)(x, s); break;
        case 4: r = SIM(p, PDCprop_set_obj_tags)(x, s); break;
        case 5: r = SIM(p, PDCprop_set_obj_dims)(x, 2, d); break;
        case 6: r = SIM(p, PDCprop_set_obj_type)(x, PDC_INT); break;
        case 7: r = SIM(p, PDCprop_set_obj_transfer_region_type)(x, PDC_OBJ_STATIC); break;
        case 8: r = SIM(p, PDCprop_set_obj_consistency_semantics)(x, PDC_CONSISTENCY_POSIX); break;
        case 9: r = SIM(p, PDCprop_set_obj_buf)(x, d); break;
        case 10: ptr = true; r = (long)(SIM(p, PDCprop_obj_dup)(x) | (pdcid_t)SIM(p, PDCobj_prop_get_info)(x) | (pdcid_t)SIM(p, PDC_obj_prop_get_info)(x)); break;
        case 11: r = SIM(p, PDCprop_set_cont_lifetime)(x, PDC_TRANSIENT); break;
        case 12: ptr = true; r = (long)SIM(p, PDCcont_prop_get_info)(x); break;
        case 13: ptr = true; r = (long)SIM(p, PDCcont_create)((prefix + "never").c_str(), x); break;
        case 14: ptr = true; r = (long)SIM(p, PDCobj_get_info)(x); break;
        case 15: r = SIM(p, PDCobj_get_dims)(x, &nd, &dd); break;
        case 16: r = SIM(p, PDCobj_set_dims)(x, 1, d); break;
        case 17: ptr = true; r = (long)SIM(p, PDCobj_buf_retrieve)(x); break;
        case 18: ptr = true; if (kc < 0) return; r = (long)SIM(p, PDCobj_create)(open[kc].id, (prefix + "never").c_str(), x); break;
        case 19: ptr = true; if (kp < 0) return; if (open[kp].p.dims.empty()) set_dims(open[kp]); r = (long)SIM(p, PDCobj_create)(x, (prefix + "never").c_str(), open[kp].id); break;
        case 20: r = SIM(p, PDCcont_persist)(x); break;
        case 21: ptr = true; r = (long)SIM(p, PDCregion_get_info)(x); break;
        case 22: ptr = true; r = (long)SIM(p, PDCprop_create)(c.flip() ? PDC_OBJ_CREATE : PDC_CONT_CREATE, x); break;
        case 23: {
            int w = (int)c.below(5);
            r = close_call((What)w, x);
            break;
        }
        // calls that would involve a server
        case 24: r = SIM(p, PDCobj_del)(x); break;
        case 25: r = SIM(p, PDCcont_del)(x); break;
        case 26: r = SIM(p, PDCobj_put_tag)(x, s, s, PDC_CHAR, 4); break;
        case 27: { void *v = nullptr; pdc_var_type_t t; psize_t n; r = SIM(p, PDCobj_get_tag)(x, s, &v, &t, &n); break; }
        case 28: r = SIM(p, PDCobj_del_tag)(x, s); break;
        case 29: r = SIM(p, PDCcont_put_tag)(x, s, s, PDC_CHAR, 4); break;
        case 30: { void *v = nullptr; pdc_var_type_t t; psize_t n; r = SIM(p, PDCcont_get_tag)(x, s, &v, &t, &n); break; }
        case 31: r = SIM(p, PDCcont_del_tag)(x, s); break;
        case 32: {
            if (kc < 0 && ko < 0) return;
            bool objbad = ko < 0 ? true : kc < 0 ? false : c.flip();
            if (objbad && kc < 0) return;
            pdcid_t o = objbad ? x : open[ko].id, ct = objbad ? open[kc].id : x;
            r = c.flip() ? SIM(p, PDCcont_put_objids)(ct, 1, &o) : SIM(p, PDCcont_del_objids)(ct, 1, &o);
            break;
        }
        case 33: ptr = true; r = (long)SIM(p, PDCobj_put_data)((prefix + "never").c_str(), s, 4, x); break;
        case 34: r = SIM(p, PDCobj_get_data)(x, s, 4); break;
        case 35: {
            ptr = true;
            if (kr < 0) return;
            int w = (int)c.below(3);
            if (w != 0 && ko < 0) return;
            r = (long)SIM(p, PDCregion_transfer_create)(d, PDC_WRITE, w == 0 ? x : open[ko].id, w == 1 ? x : open[kr].id, w == 2 ? x : open[kr].id);
            break;
        }
        case 36: { // mapping
            if (kr < 0) return;
            int w = (int)c.below(3);
            if (w != 0 && ko < 0) return;
            if (w != 0 && open[ko].p.type == PDC_UNKNOWN) return;
            pdcid_t ro = w == 0 ? x : open[ko].id;
            if (w && c.flip()) r = SIM(p, PDCbuf_obj_unmap)(ro, x);
            else r = SIM(p, PDCbuf_obj_map)(d, PDC_INT, w == 1 ? x : open[kr].id, ro, w == 2 ? x : open[kr].id);
            break;
        }
        case 37: { // locking
            if (kr < 0) return;
            bool objbad = ko < 0 || c.flip();
            pdcid_t o = objbad ? x : open[ko].id, rg = objbad ? open[kr].id : x;
            r = c.flip() ? SIM(p, PDCreg_obtain_lock)(o, rg, PDC_WRITE, PDC_NOBLOCK) : SIM(p, PDCreg_release_lock)(o, rg, c.flip() ? PDC_READ : PDC_WRITE);
            break;
        }
        }
        (void)kcp;
        if (ptr) PBT_CHECK(c, r == 0, "bad-handle", "call %d accepts the invalid handle %#" PRIx64, what, (uint64_t)x);
        else PBT_CHECK(c, r < 0, "bad-handle", "call %d succeeds with the invalid handle %#" PRIx64, what, (uint64_t)x);
    }
    // a transfer request is a handle too: it is usable until it is closed, and only outstanding while started
    void transfers()
    {
        std::vector<int> usable;
        for (int k : of(OBJ))
            if (open[k].p.dims.size() >= 1 && open[k].p.dims.size() <= 3 && open[k].p.type != PDC_UNKNOWN && open[k].cont) usable.push_back(k);
        if (usable.empty()) return;
        struct R { pdcid_t id; int state; bool blocking; };
        std::vector<R> live;
        std::vector<pdcid_t> regs;
        std::vector<std::vector<double>> data;
        data.reserve(6);
        int steps = 3 + (int)c.below(12);
        nshare++;
        for (int i = 0; i < steps; i++) {
            int op = live.empty() ? 0 : (int)c.below(7);
            size_t k = live.empty() ? 0 : c.below(live.size());
            switch (op) {
            case 0: {
                if (data.size() >= 6) break;
                H &o = open[usable[c.below(usable.size())]];
                std::vector<uint64_t> zero(o.p.dims.size(), 0), sz;
                uint64_t n = 1; // the local region lies in an array of the object's shape
                for (auto d : o.p.dims) sz.push_back(1 + c.below(std::min<uint64_t>(d, 8))), n *= d;
                data.emplace_back(n, 0.0);
                pdcid_t r1 = SIM(p, PDCregion_create)((int)sz.size(), zero.data(), sz.data()), r2 = SIM(p, PDCregion_create)((int)sz.size(), zero.data(), sz.data());
                issued(r1, "PDCregion_create"), issued(r2, "PDCregion_create");
                regs.push_back(r1), regs.push_back(r2);
                pdcid_t q = SIM(p, PDCregion_transfer_create)(data.back().data(), c.flip() ? PDC_WRITE : PDC_READ, o.id, r1, r2);
                c.note("request %#" PRIx64 " on object %#" PRIx64 "\n", (uint64_t)q, (uint64_t)o.id);
                issued(q, "PDCregion_transfer_create");
                live.push_back({q, 0, o.p.cons == PDC_CONSISTENCY_POSIX});
                break;
            }
            case 1: case 2: {
                c.note("start %#" PRIx64 " (state %d)\n", (uint64_t)live[k].id, live[k].state);
                if (live[k].state == 2) break;
                perr_t r = c.flip() ? SIM(p, PDCregion_transfer_start)(live[k].id) : SIM(p, PDCregion_transfer_start_all)(&live[k].id, 1);
                if (live[k].state == 0) PBT_CHECK(c, r >= 0, "request-start", "starting request %#" PRIx64 " failed", (uint64_t)live[k].id);
                else PBT_CHECK(c, r < 0, "request-restart", "starting the outstanding request %#" PRIx64 " again succeeds", (uint64_t)live[k].id);
                live[k].state = live[k].blocking ? 2 : 1; // with POSIX consistency starting blocks until it is done
                break;
            }
            case 3: {
                if (live[k].state != 1) break;
                c.note("wait for %#" PRIx64 "\n", (uint64_t)live[k].id);
                perr_t r = c.flip() ? SIM(p, PDCregion_transfer_wait)(live[k].id) : SIM(p, PDCregion_transfer_wait_all)(&live[k].id, 1);
                PBT_CHECK(c, r >= 0, "request-wait", "waiting for request %#" PRIx64 " failed", (uint64_t)live[k].id);
                live[k].state = 2;
                break;
            }
            case 4: {
                pdc_transfer_status_t st = PDC_TRANSFER_STATUS_NOT_FOUND;
                PBT_CHECK(c, SIM(p, PDCregion_transfer_status)(live[k].id, &st) >= 0, "request-status", "asking for the status of request %#" PRIx64 " failed", (uint64_t)live[k].id);
                if (live[k].state != 1) PBT_CHECK(c, st == PDC_TRANSFER_STATUS_NOT_FOUND, "request-status", "request %#" PRIx64 " is not outstanding and has status %d", (uint64_t)live[k].id, (int)st);
                else {
                    PBT_CHECK(c, st == PDC_TRANSFER_STATUS_COMPLETE || st == PDC_TRANSFER_STATUS_PENDING, "request-status", "outstanding request %#" PRIx64 " has status %d", (uint64_t)live[k].id, (int)st);
                    if (st == PDC_TRANSFER_STATUS_COMPLETE) live[k].state = 2;
                }
                break;
            }
            case 5: {
                c.note("close request %#" PRIx64 " (state %d)\n", (uint64_t)live[k].id, live[k].state);
                pdcid_t q = live[k].id;
                PBT_CHECK(c, SIM(p, PDCregion_transfer_close)(q) >= 0, "request-close", "closing request %#" PRIx64 " failed", (uint64_t)q);
                live.erase(live.begin() + k);
                closed.push_back(q);
                nclosed++;
                gone_request(q);
                break;
            }
            case 6: gone_request(invalid(REG)); break;
            }
        }
        for (auto &r : live) {
            PBT_CHECK(c, SIM(p, PDCregion_transfer_close)(r.id) >= 0, "request-close", "closing request %#" PRIx64 " failed", (uint64_t)r.id);
            closed.push_back(r.id);
        }
        for (auto r : regs) {
            PBT_CHECK(c, SIM(p, PDCregion_close)(r) >= 0, "close", "closing an open handle failed");
            closed.push_back(r);
        }
    }
    void gone_request(pdcid_t x)
    {
        pdc_transfer_status_t st;
        int w = (int)c.below(6);
        perr_t r = -1;
        c.note("request call %d with the invalid handle %#" PRIx64 "\n", w, (uint64_t)x);
        switch (w) {
        case 0: r = SIM(p, PDCregion_transfer_start)(x); break;
        case 1: r = SIM(p, PDCregion_transfer_start_all)(&x, 1); break;
        case 2: r = SIM(p, PDCregion_transfer_wait)(x); break;
        case 3: r = SIM(p, PDCregion_transfer_wait_all)(&x, 1); break;
        case 4: r = SIM(p, PDCregion_transfer_status)(x, &st); break;
        case 5: r = SIM(p, PDCregion_transfer_close)(x); break;
        }
        PBT_CHECK(c, r < 0, "bad-request", "request call %d succeeds with the invalid handle %#" PRIx64, w, (uint64_t)x);
    }
    void never()
    {
        // the failed creations above left nothing behind
        PBT_CHECK(c, !SIM(p, PDCobj_open)((prefix + "never").c_str(), pdc), "ghost", "an object whose creation failed exists");
        PBT_CHECK(c, !SIM(p, PDCcont_open)((prefix + "never").c_str(), pdc), "ghost", "a container whose creation failed exists");
    }
    void body(int nops)
    {
        pdc = SIM(p, PDCinit)("pdc");
        PBT_CHECK(c, pdc, "init", "PDCinit failed");
        prefix = "r" + std::to_string(sim::rank(p)) + "-";
        new_oprop();
        new_cprop();
        new_cont();
        for (int i = 0; i < nops; i++) {
            c.span_begin();
            switch (c.weighted({3, 2, 3, 10, 1, 2, 1, 6, 3, 2, 8, 1, 1, 3, 2, 2, 3, 5, 2, 3, 3})) {
            case 0: new_oprop(); break;
            case 1: new_cprop(); break;
            case 2: dup(); break;
            case 3: set(); break;
            case 4: set_life(); break;
            case 5: new_cont(); break;
            case 6: open_cont(); break;
            case 7: new_obj(); break;
            case 8: open_obj(); break;
            case 9: new_reg(); break;
            case 10: close_one(); break;
            case 11: ref(); break;
            case 12: persist(); break;
            case 13: obj_dims(); break;
            case 14: cont_by_name(); break;
            case 15: iter_conts(); break;
            case 16: iter_objs(); break;
            case 17: bad(false); break;
            case 18: bad(true); break;
            case 20: transfers(); break;
            case 19: if (!open.empty()) verify(open[c.below(open.size())]); break;
            }
            c.span_end();
            if (c.chance(1, 8)) verify_all();
        }
        verify_all();
        iter_conts();
        if (nbad) never();
        if (nshare > 1 && nclosed) c.nontrivial();
        if (nbad) c.label("invalid handles");
        bool tidy = c.chance(1, 3);
        while (tidy && !open.empty()) close_at((int)open.size() - 1);
        SIM(p, PDC_Client_close_all_server)();
        PBT_CHECK(c, SIM(p, PDCclose)(pdc) >= 0, "pdc-close", "PDCclose failed with %zu handles open", open.size());
    }
};

void run(Case &c)
{
    sim::begin(c);
    sim::connections(c);
    sim::servers(1 + (int)c.below(2));
    int nops = 10 + (int)c.below(c.chance(1, 8) ? 120 : 40);
    sim::clients(1, [&](sim::Proc &p) { Run(c, p).body(nops); });
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
    sim::end();
}
} // namespace
int main(int argc, char **argv)
{
    sim::preload(2, 1);
    pbt::Property p{"C09", "each case is a generated history of one client over 1-2 servers; non-trivial: property lists were used or duplicated at least twice and a handle was closed", 14000, 250000, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads and clocks are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
