// Controllable stand-ins for the Arduino platform, declared in /repo/Arduino.
#pragma once
#include <Arduino.h>
struct SPIClass;
#ifndef HW_SERIAL_IN
#define HW_SERIAL_IN 128
#endif
#ifndef HW_SERIAL_OUT
#define HW_SERIAL_OUT 256
#endif
namespace hw {
extern int restarts;               // processor restarts asked for
extern bool throwOnRestart; struct Restart {};
extern unsigned long now;          // millis()
extern int pins[32];               // digital pin levels
extern int modes[32];
extern int pinWrites;
// serial ports: port 0 is Serial, any other Serial_T object is port 1
struct Port { char in[HW_SERIAL_IN]; int head, tail; char out[HW_SERIAL_OUT]; int outLen; }; // outLen: bytes written (may exceed the buffer)
extern Port port[2];
void serPut(char c, int p = 0);
inline void serPuts(const char *s, int p = 0) { while (*s) serPut(*s++, p); }
inline void serClearOut(int p = 0) { port[p].outLen = 0; }
int serPending(int p = 0);
extern void (*spiBegin)(SPIClass *); // sees an SPI bus being started
extern void (*serSink)(const char *, int p); // sees everything written
}
