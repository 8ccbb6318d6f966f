#ifndef SIM_MERCURY_thread_condition_H
#define SIM_MERCURY_thread_condition_H
#include "mercury.h"
#endif
