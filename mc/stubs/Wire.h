#pragma once
#include <Arduino.h>
#include "c20.h"
// I2C bus with one serial EEPROM (16-bit addresses, page-limited writes, busy while programming)
struct TwoWire
{
  int dev = -1; unsigned char buf[32]; int n = 0;
  unsigned char rx[32]; int rn = 0, rp = 0;
  unsigned char present = 0x50;   // address of the device on this bus
  bool other = false;             // device has its own contents (not the one under test)
  unsigned ptr = 0; unsigned long busyUntil = 0; bool busy = false;
  void begin() {}
  void setClock(unsigned long) {}
  void beginTransmission(int a) { dev = a; n = 0; }
  size_t put(unsigned char b) { if (n >= 32) return 0; buf[n++] = b; return 1; }
  size_t write(int v) { return put((unsigned char)v); }
  size_t write(unsigned v) { return put((unsigned char)v); }
  size_t write(unsigned char v) { return put(v); }
  size_t write(const unsigned char *p, size_t k) { size_t i = 0; while (i < k && put(p[i])) ++i; return i; }
  unsigned char endTransmission(bool stop = true);
  unsigned char requestFrom(int a, int k);
  unsigned char requestFrom(unsigned char a, unsigned char k) { return requestFrom((int)a, (int)k); }
  int available() { return rn - rp; }
  int read() { return rp < rn ? rx[rp++] : -1; }
};
extern TwoWire Wire, Wire1;
