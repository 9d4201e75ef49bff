/* Stands in for liquid's internal header, which is not installed: the EZGMSK sources use nothing else beyond the public one. */
#include <complex.h>
#include <stdlib.h>
#include "liquid.h"
#ifndef LIQUID_OK
#define LIQUID_OK 0
#define LIQUID_EINT 1
#endif
static inline int liquid_error(int code, const char* format, ...) { (void)format; abort(); return code; }
