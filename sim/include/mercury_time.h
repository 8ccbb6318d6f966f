#ifndef SIM_MERCURY_time_H
#define SIM_MERCURY_time_H
#include "mercury.h"
#endif
