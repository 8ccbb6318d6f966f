/* Description of the structs the repository's requests carry; the tables are made by lib/gen_rpc.py. */
#ifndef RPC_TYPES_H
#define RPC_TYPES_H
#include <stddef.h>
enum { K_END, K_NUM, K_ENUM, K_STR, K_BULK, K_STRUCT, K_CHARS, K_BYTES, K_PTR, K_SKIP, K_BOOL };
typedef struct {
    const char *name;
    int         kind;
    size_t      off, size;
    int         sub;
} field_t;
typedef struct {
    const char *   name;
    size_t         size;
    const field_t *fields;
} struct_t;
typedef struct {
    const char *name;
    int         in, out;
} rpc_t;
#endif
