#ifndef SIM_MERCURY_bulk_H
#define SIM_MERCURY_bulk_H
#include "mercury.h"
#endif
