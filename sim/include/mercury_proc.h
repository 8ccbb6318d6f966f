#ifndef SIM_MERCURY_proc_H
#define SIM_MERCURY_proc_H
#include "mercury.h"
#endif
