/* C view of PDC's private handle structures, whose headers cannot be read by C++. */
#include "pdc.h"
#include "pdc_obj_pkg.h"
#include "pdc_cont_pkg.h"
#include "pdc_prop_pkg.h"
#include "pdc_id_pkg.h"
#include <string.h>

typedef struct {
    uint32_t    user, ts;
    const char *app, *loc, *tags;
    void *      buf;
    uint64_t    id, ndim;
    uint64_t *  dims;
    int         type, part, cons;
} hs_prop;
typedef struct {
    const char *name, *cont_name;
    uint64_t    meta_id, local_id, cont_meta, cont_local;
} hs_obj;

static void
pub(const struct pdc_obj_prop *q, hs_prop *o)
{
    o->id = q->obj_prop_id; o->ndim = q->ndim; o->dims = q->dims;
    o->type = q->type; o->part = q->region_partition; o->cons = q->consistency;
}
void
hs_read_prop(const void *p, hs_prop *o)
{
    const struct _pdc_obj_prop *q = p;
    pub(q->obj_prop_pub, o);
    o->user = q->user_id; o->ts = q->time_step; o->app = q->app_name; o->loc = q->data_loc; o->tags = q->tags; o->buf = q->buf;
}
void
hs_read_obj(const void *p, hs_obj *o, hs_prop *r)
{
    const struct _pdc_obj_info *i = p;
    o->name = i->obj_info_pub->name; o->meta_id = i->obj_info_pub->meta_id; o->local_id = i->obj_info_pub->local_id;
    o->cont_name = i->cont->cont_info_pub->name; o->cont_meta = i->cont->cont_info_pub->meta_id; o->cont_local = i->cont->cont_info_pub->local_id;
    hs_read_prop(i->obj_pt, r);
}
int hs_life(const void *p) { return ((const struct _pdc_cont_prop *)p)->cont_life; }
uint64_t hs_cont_prop_id(const void *p) { return ((const struct _pdc_cont_prop *)p)->cont_prop_id; }
void
hs_read_cont(const void *p, hs_obj *o, int *life)
{
    const struct _pdc_cont_info *i = p;
    o->name = i->cont_info_pub->name; o->meta_id = i->cont_info_pub->meta_id; o->local_id = i->cont_info_pub->local_id;
    *life = i->cont_pt->cont_life;
}
