/* The same structs as the server sees them. */
#define IS_PDC_SERVER 1
#include "pdc_client_server_common.h"
#include "pdc_analysis_and_transforms_common.h"
#include "pdc_transforms_common.h"
#include "rpc_types.h"
#include "rpc_table_server.inc"
const struct_t *rpc_structs_server(void) { return STRUCTS; }
const rpc_t *   rpc_list_server(void) { return RPCS; }
