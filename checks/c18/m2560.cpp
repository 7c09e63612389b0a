#define VLCB VLCB_m2560
#define PROC m2560
#define __AVR_ATmega2560__ 1
#include "params.h"
