// Storage back-ends of /repo, each compiled against a model of its medium.
#pragma once
#include <cstdint>
#include <cstring>
struct Backend
{
  virtual void begin() = 0;
  virtual uint8_t read(unsigned a) = 0;
  virtual void write(unsigned a, uint8_t v) = 0;
  virtual uint8_t readBytes(unsigned a, uint8_t n, uint8_t *d) = 0;
  virtual void writeBytes(unsigned a, const uint8_t *s, uint8_t n) = 0;
  virtual void reset() = 0;
};
// wraps a storage class of the library, whatever namespace it was compiled into
template <class S> struct Wrap : Backend
{
  S s;
  template <class... A> Wrap(A... a) : s(a...) {}
  void begin() override { s.begin(); }
  uint8_t read(unsigned a) override { return s.read(a); }
  void write(unsigned a, uint8_t v) override { s.write(a, v); }
  uint8_t readBytes(unsigned a, uint8_t n, uint8_t *d) override { return s.readBytes(a, n, d); }
  void writeBytes(unsigned a, const uint8_t *p, uint8_t n) override { s.writeBytes(a, p, n); }
  void reset() override { s.reset(); }
};
namespace medium {
// the persistent contents: [0, size) is what storage addresses map to
extern uint8_t *mem; extern unsigned size;
extern uint8_t *ram;        // volatile image of emulated EEPROM
extern unsigned bad; extern char what[120]; // accesses a real medium would not survive
extern unsigned page;       // page size of the serial EEPROM
void error(const char *s, unsigned a);
}
Backend *makeAvr(); Backend *makeRp(); Backend *makeExt(bool otherBus, unsigned char addr); Backend *makeFlash(); Backend *makeDue();
