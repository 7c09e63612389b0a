#include <Arduino.h>
#include <SPI.h>
#include <Streaming.h>
#include "drv.h"
struct SPIClassRP2040 : SPIClass
{
  void setTX(int p) { pins()->tx = p; } void setRX(int p) { pins()->rx = p; } void setSCK(int p) { pins()->sck = p; } void setCS(int p) { pins()->cs = p; }
  void begin() { if (pins()->tx < 0 || pins()->rx < 0 || pins()->sck < 0) bad(); SPIClass::begin(); }
  BusPins *pins() { return busPins + (this != rpBus[0]); }
  static void bad();
};
static SPIClassRP2040 rpSpi, rpOther;
#define SPI rpSpi
#define VLCB VLCB_rp
#define ARDUINO_ARCH_RP2040 1
#include <CAN2515.cpp>
#define PINS(c, cs, in) c.setPins(cs, in, PIN_TX(cs, in), PIN_RX(cs, in), PIN_SCK(cs, in))
#undef SPI
#include "drvof.h"
void SPIClassRP2040::bad() { mc::fail("SPI bus started before its pins were chosen"); }
SPIClass *rpBus[2] = {&rpSpi, &rpOther};
Drv *makeRp() { return mc::make<DrvOf<VLCB_rp::CAN2515, VLCB_rp::CANFrame, SPIClassRP2040>>(&rpSpi, &rpOther); }
