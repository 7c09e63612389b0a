#define VLCB VLCB_m328
#define PROC m328
#define __AVR_ATmega328P__ 1
#include "params.h"
