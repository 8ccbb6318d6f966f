#ifndef SIM_MERCURY_request_H
#define SIM_MERCURY_request_H
#include "mercury.h"
#endif
