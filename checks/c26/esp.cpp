#include <Arduino.h>
#include <SPI.h>
#include <Streaming.h>
#define VLCB VLCB_esp
#define ESP8266 1
#include <CAN2515.cpp>
#define PINS(c, cs, in) c.setPins(cs, in)
#include "drvof.h"
static SPIClass other;
SPIClass *espBus[2] = {&SPI, &other};
Drv *makeEsp() { return mc::make<DrvOf<VLCB_esp::CAN2515, VLCB_esp::CANFrame, SPIClass>>(&SPI, &other); }
