// PDC's public headers, and the client functions its own tools and tests use that are declared in headers C++ cannot read.
#pragma once
extern "C" {
#include "pdc.h"
perr_t PDC_Client_close_all_server();
}
