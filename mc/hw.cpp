#include "hw.h"
#include <Streaming.h>
#include <SPI.h>

namespace hw { int restarts; bool throwOnRestart; }
namespace hw {
unsigned long now;
int pins[32];
int modes[32];
int pinWrites;
Port port[2];
void serPut(char c, int p)
{
  Port &q = port[p]; int n = (q.head + 1) % HW_SERIAL_IN;
  if (n == q.tail) return; // UART overrun: byte lost
  q.in[q.head] = c;
  q.head = n;
}
int serPending(int p) { return (port[p].head - port[p].tail + HW_SERIAL_IN) % HW_SERIAL_IN; }
void (*serSink)(const char *, int);
static void out(Port &q, const char *s)
{
  if (serSink) serSink(s, &q - port);
  for (; *s; ++s) { if (q.outLen < HW_SERIAL_OUT) q.out[q.outLen] = *s; ++q.outLen; }
}
}
using namespace hw;

__attribute__((weak)) void printConfig() {}

unsigned long millis() { return now; }
void delay(unsigned int ms) { now += ms; }
byte highByte(unsigned int v) { return (v >> 8) & 0xff; }
byte lowByte(unsigned int v) { return v & 0xff; }
void pinMode(int p, PinMode m) { if (p >= 0 && p < 32) modes[p] = m; }
void digitalWrite(int p, int v) { if (p >= 0 && p < 32) { pins[p] = v; ++pinWrites; } }
byte digitalRead(int p) { return p >= 0 && p < 32 ? pins[p] : 0; }

static int no(const Serial_T *s) { return s != &Serial; }
void Serial_T::begin(int) {}
bool Serial_T::available() { return serPending(no(this)) > 0; }
char Serial_T::read()
{
  Port &q = port[no(this)];
  if (q.head == q.tail) return -1;
  char c = q.in[q.tail];
  q.tail = (q.tail + 1) % HW_SERIAL_IN;
  return c;
}
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int term, char *s, int n)
{
  int i = 0;
  while (i < n && serPending(no(this))) { char c = read(); if (c == term) break; s[i++] = c; }
  return i;
}
void Serial_T::print(const char *s) { hw::out(port[no(this)], s); }
void Serial_T::println(const char *s) { print(s); print("\r\n"); }
struct Serial_T Serial;

static char *num(long v, char *b) { char t[24]; int n = 0; bool neg = v < 0; unsigned long u = neg ? -v : v; do { t[n++] = '0' + u % 10; u /= 10; } while (u); int k = 0; if (neg) b[k++] = '-'; while (n) b[k++] = t[--n]; b[k] = 0; return b; }
Serial_T &operator<<(Serial_T &s, int v) { char b[24]; s.print(num(v, b)); return s; }
Serial_T &operator<<(Serial_T &s, unsigned int v) { char b[24]; s.print(num(v, b)); return s; }
Serial_T &operator<<(Serial_T &s, long v) { char b[24]; s.print(num(v, b)); return s; }
Serial_T &operator<<(Serial_T &s, unsigned long v) { char b[24]; s.print(num(v, b)); return s; }
Serial_T &operator<<(Serial_T &s, const char *v) { s.print(v); return s; }
Serial_T &operator<<(Serial_T &s, const ENDL_T &) { s.print("\r\n"); return s; }
ENDL_T endl;
SPIClass SPI;
void (*hw::spiBegin)(SPIClass *);
void SPIClass::begin() { if (hw::spiBegin) hw::spiBegin(this); }

#include <Storage.h>
namespace VLCB { __attribute__((weak)) Storage *createDefaultStorageForPlatform() { return nullptr; } }
// the sketch-provided default configuration, referenced by one Controller constructor that is never used here
namespace VLCB { __attribute__((weak)) alignas(16) char config[512]; }
