#define VLCB VLCB_rp
#define ARDUINO_ARCH_RP2040 1
#include <EepromInternalStorage.cpp>
Backend *makeRp() { return new Wrap<VLCB_rp::EepromInternalStorage>(); }
