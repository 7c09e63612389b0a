CANSH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -g -w -I$here/stub -Isrc -IArduino -o "$d/demo" "$here/demo.cpp" src/CAN2515.cpp || exit 2
timeout 60 "$d/demo"
'''
ACAN = '''#pragma once
#include <Arduino.h>
#include <SPI.h>
#include <stdint.h>
#include <deque>
#include <vector>
struct CANMessage { uint32_t id = 0; bool ext = false, rtr = false; uint8_t idx = 0, len = 0; union { uint64_t data64; uint8_t data[8]; }; CANMessage() : data64(0) {} };
struct ACAN2515Settings
{
  enum RequestedMode { NormalMode, ListenOnlyMode, LoopBackMode };
  ACAN2515Settings(uint32_t f, uint32_t b) : freq(f), bitrate(b) {}
  uint32_t freq, bitrate; RequestedMode mRequestedMode = NormalMode; uint16_t mReceiveBufferSize = 32, mTransmitBuffer0Size = 16, mTransmitBuffer1Size = 0, mTransmitBuffer2Size = 0;
};
struct ACAN2515
{
  ACAN2515(uint8_t c, SPIClass &, uint8_t i) : cs(c), in(i) { cur = this; }
  uint16_t begin(const ACAN2515Settings &s, void (*f)()) { rx = s.mReceiveBufferSize; tx = s.mTransmitBuffer0Size; freq = s.freq; isrf = f; return 0; }
  void end() {} void isr() {} void poll() { ++polls; }
  bool available() { return !q.empty(); } bool receive(CANMessage &m) { if (q.empty()) return false; m = q.front(); q.pop_front(); return true; }
  bool tryToSend(const CANMessage &m) { if (refuse) return false; sent.push_back(m); return true; }
  uint8_t receiveErrorCounter() { return 0; } uint8_t transmitErrorCounter() { return 0; } uint8_t errorFlagRegister() { return 0; }
  uint16_t transmitBufferSize(int) { return tx; } uint16_t transmitBufferPeakCount(int) { return 0; } uint16_t receiveBufferSize() { return rx; } uint16_t receiveBufferPeakCount() { return 0; }
  uint8_t cs, in; int rx = 0, tx = 0, polls = 0; uint32_t freq = 0; bool refuse = false; void (*isrf)() = nullptr;
  std::deque<CANMessage> q; std::vector<CANMessage> sent; static ACAN2515 *cur;
};
'''
CANTOP = '''#include <Arduino.h>
#include <SPI.h>
#include <ACAN2515.h>
#include <CAN2515.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
ACAN2515 *ACAN2515::cur; SPIClass SPI; void SPIClass::begin() {} void delay(unsigned int) {} unsigned long millis() { return 1; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
int main()
{
  VLCB::CAN2515 can;
'''
