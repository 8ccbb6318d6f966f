#ifndef SIM_MERCURY_thread_H
#define SIM_MERCURY_thread_H
#include "mercury.h"
#endif
