#pragma once
#include <Arduino.h>
#include "c20.h"
// emulation library of the SAM3X: byte reads and writes by offset
struct DueFlashStorage
{
  uint8_t read(uint32_t a);
  bool write(uint32_t a, uint8_t v);
  bool write(uint32_t a, uint8_t *p, uint32_t n) { for (uint32_t i = 0; i < n; ++i) write(a + i, p[i]); return true; }
};
