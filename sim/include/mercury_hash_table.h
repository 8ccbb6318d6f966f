#ifndef SIM_MERCURY_hash_table_H
#define SIM_MERCURY_hash_table_H
#include "mercury.h"
#endif
