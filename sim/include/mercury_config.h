#ifndef SIM_MERCURY_config_H
#define SIM_MERCURY_config_H
#include "mercury.h"
#endif
