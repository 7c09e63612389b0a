#define VLCB VLCB_due
#define PROC due
#define __AVR_ATSAM3X8E__ 1
#include "params.h"
