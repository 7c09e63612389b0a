#define VLCB VLCB_ext
#include <EepromExternalStorage.cpp>
TwoWire Wire, Wire1;
Backend *makeExt(bool otherBus, unsigned char addr) { if (otherBus) return new Wrap<VLCB_ext::EepromExternalStorage>(addr, &Wire1); return new Wrap<VLCB_ext::EepromExternalStorage>(addr); }
unsigned char TwoWire::endTransmission(bool)
{
  if (dev != present) { dev = -1; return 2; }
  if (other) medium::error("access to the device on the other bus", 0);
  if (busy && (long)(millis() - busyUntil) < 0) { if (n) medium::error("access while the device is programming", 0); return 2; }
  busy = false;
  if (n >= 1) ptr = buf[0] << 8 | (ptr & 0xFF);
  if (n >= 2) ptr = (ptr & 0xFF00) | buf[1];
  ptr &= medium::size - 1;
  if (n > 2)
  {
    unsigned base = ptr & ~(medium::page - 1);
    for (int i = 2; i < n; ++i) { medium::mem[ptr] = buf[i]; ptr = base | ((ptr + 1) & (medium::page - 1)); }
    busy = true; busyUntil = millis() + 5;
  }
  return 0;
}
unsigned char TwoWire::requestFrom(int a, int k)
{
  rn = rp = 0;
  if (a != present || (busy && (long)(millis() - busyUntil) < 0)) return 0;
  if (k > 32) k = 32;
  for (; rn < k; ++rn) { rx[rn] = medium::mem[ptr]; ptr = (ptr + 1) & (medium::size - 1); }
  return rn;
}
