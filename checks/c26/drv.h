// The driver as the check sees it, whichever platform it is compiled for.
#pragma once
#include <SPI.h>
#include <ACAN2515.h>
struct Drv
{
  virtual bool begin(int how, bool poll, int bus) = 0; // how: number of arguments given; bus 0 default, 1 another one
  virtual bool available() = 0; virtual CANMessage next() = 0; virtual bool send(const CANMessage &) = 0; virtual void reset() = 0;
  virtual void setPins(int cs, int in) = 0; virtual void setNumBuffers(int rx) = 0; virtual void setNumBuffers(int rx, int tx) = 0; virtual void setOscFreq(unsigned long) = 0;
  virtual unsigned received() = 0; virtual unsigned sent() = 0; virtual unsigned rxErrors() = 0; virtual unsigned txErrors() = 0; virtual unsigned status() = 0;
};
struct BusPins { int tx, rx, sck, cs, begun; };
extern BusPins *busPins;          // for each of the two buses: what the bus was told before it was started (platform with selectable pins)
Drv *makeAvr(); Drv *makeEsp(); Drv *makeRp();
extern SPIClass *avrBus[2], *espBus[2], *rpBus[2]; // the default bus and another one
// the bus pins that go with a choice of select and interrupt pin
inline int PIN_TX(int cs, int in) { return (cs + 9) & 255; } inline int PIN_RX(int cs, int in) { return (cs * 3 + in) & 255; } inline int PIN_SCK(int cs, int in) { return (in * 5 + 77) & 255; }
