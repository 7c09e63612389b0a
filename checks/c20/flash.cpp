#define VLCB VLCB_flash
#define DXCORE 1
#include <Flash.h>
#include <FlashStorage.cpp>
Backend *makeFlash() { return new Wrap<VLCB_flash::FlashStorage>(); }
FlashClass Flash;
static const uint32_t LO = PROGMEM_SIZE - 0x800;
uint8_t FlashClass::readByte(uint32_t a) { if (a < LO || a >= PROGMEM_SIZE) { medium::error("flash read outside the reserved area", a); return 0; } return medium::mem[a - LO]; }
uint8_t FlashClass::erasePage(uint32_t a, uint8_t count)
{
  for (; count; --count, a += 512)
  {
    if (a < LO || a >= PROGMEM_SIZE) { medium::error("flash erase outside the reserved area", a); return FLASHWRITE_FAIL; }
    memset(medium::mem + ((a - LO) & ~511u), 0xFF, 512);
  }
  return FLASHWRITE_OK;
}
uint8_t FlashClass::writeBytes(uint32_t a, const uint8_t *d, uint16_t n)
{
  for (uint16_t i = 0; i < n; ++i, ++a)
  {
    if (a < LO || a >= PROGMEM_SIZE) { medium::error("flash write outside the reserved area", a); return FLASHWRITE_FAIL; }
    medium::mem[a - LO] &= d[i];
  }
  return FLASHWRITE_OK;
}
