#ifndef SIM_MERCURY_types_H
#define SIM_MERCURY_types_H
#include "mercury.h"
#endif
