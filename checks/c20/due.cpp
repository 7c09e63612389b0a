#define VLCB VLCB_due
#define __SAM3X8E__ 1
#include <DueFlashStorage.h>
#include <DueEepromEmulationStorage.cpp>
Backend *makeDue() { return new Wrap<VLCB_due::DueEepromEmulationStorage>(); }
uint8_t DueFlashStorage::read(uint32_t a) { if (a >= medium::size) { medium::error("flash read", a); return 0xFF; } return medium::mem[a]; }
bool DueFlashStorage::write(uint32_t a, uint8_t v) { if (a >= medium::size) { medium::error("flash write", a); return false; } medium::mem[a] = v; return true; }
