#ifndef SIM_MERCURY_thread_mutex_H
#define SIM_MERCURY_thread_mutex_H
#include "mercury.h"
#endif
