#ifndef SIM_MERCURY_thread_pool_H
#define SIM_MERCURY_thread_pool_H
#include "mercury.h"
#endif
