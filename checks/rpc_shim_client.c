/* C view of the client's message structs and of the private structs they are made from. */
#include "pdc_client_server_common.h"
#include "pdc_analysis_and_transforms_common.h"
#include "pdc_transforms_common.h"
#include "rpc_types.h"
#include <string.h>
#include "rpc_table_client.inc"
const struct_t *rpc_structs_client(void) { return STRUCTS; }
const rpc_t *   rpc_list_client(void) { return RPCS; }

/* Regions and object descriptions: private structs -> message -> private structs, through function pointers because the
   functions live in the simulated processes' libraries. */
size_t shim_region_transfer_size(void) { return sizeof(region_info_transfer_t); }
void
shim_region_fill(void *t, uint64_t ndim, const uint64_t *off, const uint64_t *cnt)
{
    region_info_transfer_t *r = t;
    r->ndim = ndim;
    r->start_0 = off[0]; r->start_1 = off[1]; r->start_2 = off[2]; r->start_3 = off[3];
    r->count_0 = cnt[0]; r->count_1 = cnt[1]; r->count_2 = cnt[2]; r->count_3 = cnt[3];
}
void
shim_region_read(const void *t, uint64_t *ndim, uint64_t *off, uint64_t *cnt)
{
    const region_info_transfer_t *r = t;
    *ndim = r->ndim;
    off[0] = r->start_0; off[1] = r->start_1; off[2] = r->start_2; off[3] = r->start_3;
    cnt[0] = r->count_0; cnt[1] = r->count_1; cnt[2] = r->count_2; cnt[3] = r->count_3;
}
typedef perr_t (*info2t_f)(struct pdc_region_info *, region_info_transfer_t *);
typedef perr_t (*info2tu_f)(struct pdc_region_info *, region_info_transfer_t *, size_t);
typedef perr_t (*t2list_f)(region_info_transfer_t *, region_list_t *);
typedef perr_t (*list2t_f)(region_list_t *, region_info_transfer_t *);
typedef perr_t (*info2list_f)(struct pdc_region_info *, region_list_t *);
typedef struct pdc_region_info *(*t2info_f)(region_info_transfer_t *);
int
shim_info_to_transfer(void *f, uint64_t ndim, uint64_t *off, uint64_t *cnt, uint64_t unit, int scaled, void *t)
{
    struct pdc_region_info r;
    memset(&r, 0xA5, sizeof r);
    r.ndim = ndim; r.offset = off; r.size = cnt;
    return scaled ? ((info2tu_f)f)(&r, t, unit) : ((info2t_f)f)(&r, t);
}
int
shim_transfer_to_list(void *f, void *t, uint64_t *ndim, uint64_t *off, uint64_t *cnt)
{
    region_list_t *l = malloc(sizeof *l);
    memset(l, 0xA5, sizeof *l);
    int r = ((t2list_f)f)(t, l);
    *ndim = l->ndim;
    memcpy(off, l->start, 4 * sizeof *off); memcpy(cnt, l->count, 4 * sizeof *cnt);
    free(l);
    return r;
}
int
shim_list_to_transfer(void *f, uint64_t ndim, const uint64_t *off, const uint64_t *cnt, void *t)
{
    region_list_t *l = calloc(1, sizeof *l);
    l->ndim = ndim;
    memcpy(l->start, off, 4 * sizeof *off); memcpy(l->count, cnt, 4 * sizeof *cnt);
    int r = ((list2t_f)f)(l, t);
    free(l);
    return r;
}
int
shim_info_to_list(void *f, uint64_t ndim, uint64_t *off, uint64_t *cnt, uint64_t *n2, uint64_t *o2, uint64_t *c2)
{
    struct pdc_region_info r;
    region_list_t *l = malloc(sizeof *l);
    memset(&r, 0xA5, sizeof r);
    memset(l, 0xA5, sizeof *l);
    r.ndim = ndim; r.offset = off; r.size = cnt;
    int rc = ((info2list_f)f)(&r, l);
    *n2 = l->ndim;
    memcpy(o2, l->start, 4 * sizeof *o2); memcpy(c2, l->count, 4 * sizeof *c2);
    free(l);
    return rc;
}
int
shim_transfer_to_info(void *f, void *t, uint64_t *ndim, uint64_t *off, uint64_t *cnt)
{
    struct pdc_region_info *r = ((t2info_f)f)(t);
    if (!r) return -1;
    *ndim = r->ndim;
    for (size_t i = 0; i < r->ndim && i < 4; i++) { off[i] = r->offset[i]; cnt[i] = r->size[i]; }
    free(r->offset); free(r->size); free(r);
    return 0;
}

typedef struct {
    int      user, ts, type, transform, storage_order, t_type, meta_index, part, cons;
    uint64_t id, cont, server, ndim, dims[4], t_ndim, t_dims[4];
    char     app[1200], name[1200], tags[1200], loc[1200];
} rm_meta;
size_t shim_metadata_limits(int i) { return i == 0 ? OBJ_NAME_MAX : i == 1 ? TAG_LEN_MAX : ADDR_MAX; }
void *
shim_meta_new(const rm_meta *m, int poison)
{
    pdc_metadata_t *p = malloc(sizeof *p);
    memset(p, poison, sizeof *p);
    if (!m) return p;
    p->user_id = m->user; p->time_step = m->ts; p->data_type = m->type; p->transform_state = m->transform;
    p->region_partition = m->part; p->consistency = m->cons;
    p->obj_id = m->id; p->cont_id = m->cont; p->data_server_id = m->server; p->ndim = m->ndim;
    for (int i = 0; i < 4; i++) { p->dims[i] = m->dims[i]; p->current_state.dims[i] = m->t_dims[i]; }
    p->current_state.storage_order = m->storage_order; p->current_state.dtype = m->t_type;
    p->current_state.ndim = m->t_ndim; p->current_state.meta_index = m->meta_index;
    strcpy(p->app_name, m->app); strcpy(p->obj_name, m->name); strcpy(p->tags, m->tags); strcpy(p->data_location, m->loc);
    return p;
}
void
shim_meta_read(const void *q, rm_meta *m)
{
    const pdc_metadata_t *p = q;
    memset(m, 0, sizeof *m);
    m->user = p->user_id; m->ts = p->time_step; m->type = p->data_type; m->transform = p->transform_state;
    m->part = p->region_partition; m->cons = p->consistency;
    m->id = p->obj_id; m->cont = p->cont_id; m->server = p->data_server_id; m->ndim = p->ndim;
    for (int i = 0; i < 4; i++) { m->dims[i] = p->dims[i]; m->t_dims[i] = p->current_state.dims[i]; }
    m->storage_order = p->current_state.storage_order; m->t_type = p->current_state.dtype;
    m->t_ndim = p->current_state.ndim; m->meta_index = p->current_state.meta_index;
    strncpy(m->app, p->app_name, sizeof m->app - 1); strncpy(m->name, p->obj_name, sizeof m->name - 1);
    strncpy(m->tags, p->tags, sizeof m->tags - 1); strncpy(m->loc, p->data_location, sizeof m->loc - 1);
}
size_t shim_meta_transfer_size(void) { return sizeof(pdc_metadata_transfer_t); }
