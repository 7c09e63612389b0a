#define VLCB VLCB_m16u4
#define PROC m16u4
#define __AVR_ATmega16U4__ 1
#include "params.h"
