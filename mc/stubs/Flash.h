#pragma once
#include <Arduino.h>
#include "c20.h"
// AVR-Dx flash: page erase to 0xFF, writes only clear bits
#ifndef PROGMEM_SIZE
#define PROGMEM_SIZE 0x4000
#endif
enum : uint8_t { FLASHWRITE_OK = 0, FLASHWRITE_FAIL = 4 };
struct FlashClass
{
  uint8_t checkWritable() { return FLASHWRITE_OK; }
  uint8_t readByte(uint32_t a);
  uint16_t readWord(uint32_t a) { return readByte(a) | readByte(a + 1) << 8; }
  uint8_t erasePage(uint32_t a, uint8_t count = 1);
  uint8_t writeBytes(uint32_t a, const uint8_t *d, uint16_t n);
  uint8_t writeByte(uint32_t a, uint8_t v) { return writeBytes(a, &v, 1); }
};
extern FlashClass Flash;
