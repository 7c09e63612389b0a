#define VLCB VLCB_avr
#include <EepromInternalStorage.cpp>
Backend *makeAvr() { return new Wrap<VLCB_avr::EepromInternalStorage>(); }
EEPROMClass EEPROM;
void EEPROMClass::begin(unsigned) {}
uint8_t EEPROMClass::read(int a) { if (a < 0 || (unsigned)a >= medium::size) { medium::error("EEPROM read", a); return 0xFF; } return medium::ram ? medium::ram[a] : medium::mem[a]; }
void EEPROMClass::write(int a, uint8_t v) { if (a < 0 || (unsigned)a >= medium::size) { medium::error("EEPROM write", a); return; } (medium::ram ? medium::ram : medium::mem)[a] = v; }
bool EEPROMClass::commit() { if (medium::ram) memcpy(medium::mem, medium::ram, medium::size); return true; }
