#pragma once
#include <Arduino.h>
#include "c20.h"
// on-chip EEPROM, or its RAM-buffered emulation
struct EEPROMClass
{
  void begin(unsigned n);
  uint8_t read(int a);
  void write(int a, uint8_t v);
  void update(int a, uint8_t v) { if (read(a) != v) write(a, v); }
  bool commit();
  unsigned length() { return medium::size; }
};
extern EEPROMClass EEPROM;
