/* C view of PDC's internal structures for the checks: their headers cannot be read by C++. */
#include "pdc.h"
#include "pdc_client_connect.h"
#include "pdc_obj_pkg.h"
#include "pdc_cont_pkg.h"
#include "pdc_prop_pkg.h"
#include <string.h>

typedef struct {
    int         user_id, time_step, type;
    const char *app_name, *obj_name, *tags;
    uint64_t    obj_id, cont_id, ndim, dims[4];
    int         partition, consistency;
    const char *data_location;
} vs_meta;

void
vs_read_meta(const void *p, vs_meta *o)
{
    const pdc_metadata_t *m = p;
    o->user_id = m->user_id; o->time_step = m->time_step; o->type = (int)m->data_type;
    o->app_name = m->app_name; o->obj_name = m->obj_name; o->tags = m->tags;
    o->obj_id = m->obj_id; o->cont_id = m->cont_id; o->ndim = m->ndim;
    for (int i = 0; i < 4; i++) o->dims[i] = m->dims[i];
    o->partition = m->region_partition; o->consistency = m->consistency;
    o->data_location = m->data_location;
}
size_t vs_meta_size(void) { return sizeof(pdc_metadata_t); }
void
vs_set_update(void *p, const char *app, const char *tags, const char *loc)
{
    pdc_metadata_t *m = p;
    if (app) strcpy(m->app_name, app); else m->app_name[0] = 0;
    if (tags) strcpy(m->tags, tags); else m->tags[0] = 0;
    if (loc) strcpy(m->data_location, loc); else m->data_location[0] = 0;
}
uint64_t vs_cont_meta(void *info) { return ((struct _pdc_cont_info *)info)->cont_info_pub->meta_id; }
uint64_t vs_obj_cont_meta(void *info) { return ((struct _pdc_obj_info *)info)->cont->cont_info_pub->meta_id; }
void
vs_init_update(void *p, const void *old)
{
    const pdc_metadata_t *o = old;
    pdc_metadata_t *      m = p;
    memset(m, 0, sizeof *m);
    m->time_step = o->time_step;
    m->obj_id    = o->obj_id;
    m->ndim      = o->ndim;
    memcpy(m->dims, o->dims, sizeof m->dims);
}
