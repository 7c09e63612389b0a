#define VLCB VLCB_m1280
#define PROC m1280
#define __AVR_ATmega1280__ 1
#include "params.h"
