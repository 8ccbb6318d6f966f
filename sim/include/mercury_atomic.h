#ifndef SIM_MERCURY_atomic_H
#define SIM_MERCURY_atomic_H
#include "mercury.h"
#endif
