// Adapts one platform's driver class to the check's view of it.
#pragma once
#include "drv.h"
#include "engine.h"
template <class C, class F, class BUS> struct DrvOf : Drv
{
  C c; BUS *b0, *b1;
  DrvOf(BUS *x, BUS *y) : b0(x), b1(y) {}
  bool begin(int how, bool poll, int bus) override { return how == 0 ? c.begin() : how == 1 ? c.begin(poll) : c.begin(poll, bus ? *b1 : *b0); }
  bool available() override { return c.available(); }
  CANMessage next() override { F f = c.getNextCanFrame(); CANMessage m; memset((void *)&m, 0, sizeof m); m.id = f.id; m.ext = f.ext; m.rtr = f.rtr; m.len = f.len; memcpy(m.data, f.data, f.len > 8 ? 8 : f.len); return m; }
  bool send(const CANMessage &m) override { F f; memset((void *)&f, 0, sizeof f); f.id = m.id; f.ext = m.ext; f.rtr = m.rtr; f.len = m.len; memcpy(f.data, m.data, m.len > 8 ? 8 : m.len); return c.sendCanFrame(&f); }
  void reset() override { c.reset(); }
  void setPins(int cs, int in) override { PINS(c, cs, in); }
  void setNumBuffers(int rx) override { c.setNumBuffers(rx); }
  void setNumBuffers(int rx, int tx) override { c.setNumBuffers(rx, tx); }
  void setOscFreq(unsigned long f) override { c.setOscFreq(f); }
  unsigned received() override { return c.receiveCounter(); } unsigned sent() override { return c.transmitCounter(); }
  unsigned rxErrors() override { return c.receiveErrorCounter(); } unsigned txErrors() override { return c.transmitErrorCounter(); } unsigned status() override { return c.errorStatus(); }
};
