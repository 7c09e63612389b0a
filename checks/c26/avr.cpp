#include <CAN2515.h>
#define PINS(c, cs, in) c.setPins(cs, in)
#include "drvof.h"
static SPIClass other;
SPIClass *avrBus[2] = {&SPI, &other};
Drv *makeAvr() { return mc::make<DrvOf<VLCB::CAN2515, VLCB::CANFrame, SPIClass>>(&SPI, &other); }
