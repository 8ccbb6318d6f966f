#ifndef SIM_MERCURY_list_H
#define SIM_MERCURY_list_H
#include "mercury.h"
#endif
