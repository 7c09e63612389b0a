SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

S('space_after_count', 'C01', [('src/Configuration.cpp', '''  for (evidx = 0; evidx < EE_MAX_EVENTS; evidx++)
  {
    if (evhashtbl[evidx] == 0)''', '''  // the entries in front are in use
  for (evidx = numEvents(); evidx < EE_MAX_EVENTS; evidx++)
  {
    if (evhashtbl[evidx] == 0)''')],
  'a full event table from which an entry other than the last has been unlearned', 'teaching is refused as table full although an entry is free',
'''Node n; n.toNormal(260); n.learn(true);
for (int i = 0; i < n.o.events; ++i) n.teach(300, i + 1, 1, 10 + i);
n.msg({OPC_EVULN, 300 >> 8, 300 & 255, 0, 2});
n.teach(301, 9, 1, 99);
CHECK(n.cfg->numEvents() == n.o.events);
CHECK(n.cfg->findExistingEvent(301, 9) < n.o.events);''')

S('learn_by_zero', 'C02', [('src/EventTeachingService.cpp', '''    if (bLearn)
    {
      inhibitLearn();
    }
  }
}''', '''    // a node without a number can not be taught
    if (bLearn && nn != 0)
    {
      inhibitLearn();
    }
  }
}''')],
  'learn mode on, and a request to enter learn mode for node number 0', 'the node stays in learn mode while another node is put into learn mode',
'''Node n; n.toNormal(260); n.learn(true);
n.msg({OPC_NNLRN, 0, 0});
n.teach(300, 1, 1, 3);
CHECK(n.cfg->numEvents() == 0);''')

S('short_fallback', 'C03', [('src/EventConsumerService.cpp', '''  byte index = controller->getModuleConfig()->findExistingEvent(nn, en);
''', '''  byte index = controller->getModuleConfig()->findExistingEvent(nn, en);
  if (nn == 0 && index >= controller->getModuleConfig()->EE_MAX_EVENTS)
  {
    // taught with the number of the sender
    index = controller->getModuleConfig()->findExistingEvent(Configuration::getTwoBytes(&msg->data[1]), en);
  }
'''), ('src/EventConsumerService.cpp', '''  // try to find a matching stored event -- match on nn, en
''', '''  // try to find a matching stored event -- match on nn, en; prefer short events
''')],
  'a short event from a node whose long event of the same number is taught, no short one', 'a short event triggers the callback of a long event',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(300, 7, 1, 3); n.learn(false); g_events.clear();
n.msg({OPC_ASON, 300 >> 8, 300 & 255, 0, 7});
CHECK(g_events.empty());
n.msg({OPC_ACON, 300 >> 8, 300 & 255, 0, 7});
CHECK(g_events.size() == 1);''')

S('left_over_ev', 'C04', [('src/EventProducerService.cpp', '''  for (byte i = 2; i <= module_config->EE_NUM_EVS; i++)''', '''  for (byte i = 2; i < module_config->EE_NUM_EVS; i++)''')],
  'an entry with a non-zero last event variable unlearned, then an event created in its place', 'the last event variable of a created event keeps the value of an earlier event',
'''NodeOpt o; o.evs = 3; Node n(o); n.toNormal(260); n.learn(true);
n.teach(300, 5, 3, 99);
n.msg({OPC_EVULN, 300 >> 8, 300 & 255, 0, 5});
n.learn(false);
n.eps->sendEvent(true, 8); n.run();
byte i = n.cfg->findExistingEvent(260, 1);
CHECK(i < o.events);
CHECK(n.cfg->getEventEVval(i, 1) == 8); CHECK(n.cfg->getEventEVval(i, 2) == 0); CHECK(n.cfg->getEventEVval(i, 3) == 0);''')

S('response_low_nn', 'C05', [('src/EventProducerService.cpp', '''  if ((nn_en[0] == 0) && (nn_en[1] == 0))
  {
    opCode = (state ? OPC_ARSON2 : OPC_ARSOF2);''', '''  if (nn_en[0] == 0)
  {
    opCode = (state ? OPC_ARSON2 : OPC_ARSOF2);''')],
  'a status response with two data bytes for an event with a node number below 256', 'the response of a long event goes out as a short one with another node number',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(5, 5, 1, 3); n.can.out.clear();
n.eps->sendEventResponse(true, 0, 7, 8); n.run();
CHECK(Node::has(n.sent(), {OPC_ARON2, 0, 5, 0, 5, 7, 8}));''')

S('nn_low_half', 'C07', [('src/Service.cpp', '''  return nn == controller->getModuleConfig()->nodeNum;''', '''  // node numbers from 0xF000 are reserved
  return (nn & 0xEFFF) == (controller->getModuleConfig()->nodeNum & 0xEFFF);''')],
  'a message addressed to a node number that differs from the own one in one high bit only', 'a message for another node is taken as being for this one',
'''Node n; n.toNormal(260);
n.msg({OPC_NVSET, 0x11, 0x04, 1, 42});
CHECK(n.cfg->readNV(1) == 0);
for (int b = 0; b < 16; ++b) { int nn = 260 ^ (1 << b); CHECK(n.msg({OPC_NVRD, nn >> 8, nn & 255, 1}).empty()); }''')

S('grsp_after_release', 'C08', [('src/MinimumNodeService.cpp', '''        case MODE_SETUP:
        case MODE_NORMAL:
          controller->sendGRSP(OPC_MODE, getServiceID(), GRSP_OK);
          setUninitialised();
          break;''', '''        case MODE_SETUP:
        case MODE_NORMAL:
          setUninitialised();
          controller->sendGRSP(OPC_MODE, getServiceID(), GRSP_OK);
          break;''')],
  'a node in setup that still has a number (renegotiation), and the request for uninitialised mode', 'the response to a mode request carries node number 0 instead of the addressed number',
'''Node n; n.toNormal(260);
n.ctl->putAction(ACT_RENEGOTIATE); n.run();
auto r = n.msg({OPC_MODE, 1, 4, MODE_UNINITIALISED});
CHECK(Node::has(r, {OPC_GRSP, 1, 4, OPC_MODE, SERVICE_ID_MNS, GRSP_OK}));''')

S('hash_stop', 'C09', [('src/Configuration.cpp', '''  evhashtbl = (byte *)malloc(EE_MAX_EVENTS * sizeof(byte));

  for (byte idx = 0; idx < EE_MAX_EVENTS; idx++)
  {
    updateEvHashEntry(idx);
  }''', '''  evhashtbl = (byte *)calloc(EE_MAX_EVENTS, sizeof(byte));

  // the entries are stored one after the other
  for (byte idx = 0; idx < EE_MAX_EVENTS && (idx < 2 || evhashtbl[idx - 1] != 0 || evhashtbl[idx - 2] != 0); idx++)
  {
    updateEvHashEntry(idx);
  }''')],
  'two neighbouring entries unlearned with others stored behind them, then a restart', 'events stored behind a gap of two entries are gone after a restart',
'''Node n; n.toNormal(260); n.learn(true);
for (int i = 0; i < 5; ++i) n.teach(300, i + 1, 1, 10 + i);
n.msg({OPC_EVULN, 300 >> 8, 300 & 255, 0, 2});
n.msg({OPC_EVULN, 300 >> 8, 300 & 255, 0, 3});
n.restart();
CHECK(n.cfg->numEvents() == 3);''')

S('uninit_order', 'C10', [('src/Configuration.cpp', '''  setModuleMode(MODE_UNINITIALISED);
  setNodeNum(0);
  setCANID(0);''', '''  setNodeNum(0);
  setCANID(0);
  setModuleMode(MODE_UNINITIALISED);''')],
  'a power failure between the storage writes of a change to uninitialised mode', 'the node comes up in normal mode with number 0 or half of the old number',
'''for (int cut = 0; cut < 6; ++cut)
{
  Node n; n.toNormal(260);
  n.st->writes = 0; n.st->cut = cut;
  n.ctl->putAction(ACT_CHANGE_MODE); n.run();
  n.restart();
  CHECK(n.cfg->currentMode != MODE_NORMAL || n.cfg->nodeNum == 260);
}''')

S('enum_top_group', 'C11', [('src/CanService.cpp', '''  for (byte i = 0; i < 16; i++)
  {
    // ignore if this byte is all 1's''', '''  for (byte i = 0; i < 99 / 8; i++)
  {
    // ignore if this byte is all 1's''')],
  'an enumeration on a bus where the ids 1 to 95 are all taken', 'id 1, which another node uses, is taken though free ids exist',
'''Node n; n.toNormal(260);
n.ctl->putAction(ACT_START_CAN_ENUMERATION); n.run(10);
for (int i = 1; i <= 100; ++i) { n.frame({}, i); n.run(3); }
g_now += 200; n.run();
CHECK(n.cfg->CANID == 101);''')

S('rtr_unanswered', 'C12', [('src/CanService.cpp', '''  if (canFrame.rtr)
  {''', '''  if (canFrame.rtr && !bCANenum)
  {''')],
  "another node's remote request while this node enumerates", 'a remote frame received during the own enumeration gets no answer',
'''Node n; n.toNormal(260);
n.ctl->putAction(ACT_START_CAN_ENUMERATION); n.run(10); n.can.out.clear();
n.frame({}, 5, true); n.run();
CHECK(n.can.out.size() == 1);
CHECK(!n.can.out[0].rtr && n.can.out[0].len == 0);''')

S('sent_too_early', 'C14', [('src/LongMessageService.cpp', '''	return (_send_buffer_index < _send_buffer_len);
}''', '''	// the last fragment follows by itself
	return (_send_buffer_index + 5 < _send_buffer_len);
}''')],
  'a further message sent between the last but one and the last fragment of a message', 'a message is cut short when the next one is sent as soon as the service says it is ready',
'''NodeOpt o; o.longm = 1; Node n(o); n.toNormal(260); n.lms->setDelay(10);
n.can.out.clear();
CHECK(n.lms->sendLongMessage("0123456789", 10, 1));
int guard = 0;
while (n.lms->is_sending() && ++guard < 100) { g_now += 10; n.lms->process(); }
CHECK(n.lms->sendLongMessage("abcde", 5, 1));
for (int i = 0; i < 10; ++i) { g_now += 10; n.lms->process(); }
n.run();
int data = 0; for (auto &m : n.sent()) if (m[0] == OPC_DTXC && m[2] != 0) ++data;
CHECK(data == 3);''')

S('lmx_crc_part', 'C15', [('src/LongMessageService.cpp', '''        if (_receive_context[i]->incoming_message_crc != tmpcrc)''', '''        if (lowByte(_receive_context[i]->incoming_message_crc) != lowByte(tmpcrc))''')],
  'checksums on and a message whose checksum differs from the right one in the high byte only', 'a damaged message is delivered as complete',
'''NodeOpt o; o.longm = 2; Node n(o); n.toNormal(260);
static byte ids[] = {1};
CHECK(n.lmx->allocateContexts(2, 64, 2)); n.lmx->use_crc(true); n.lmx->subscribe(ids, 1, h);
n.can.out.clear();
n.lmx->sendLongMessage("hello", 5, 1);
n.run(); Bytes hd = n.sent().at(0);
CHECK(hd[0] == OPC_DTXC);
n.msg(hd); n.msg({OPC_DTXC, 1, 1, 'h', 'e', 'l', 'l', 'o'});
CHECK(last == LONG_MESSAGE_COMPLETE);
hd[5] ^= 0x40; last = -1;
n.msg(hd); n.msg({OPC_DTXC, 1, 1, 'h', 'e', 'l', 'l', 'o'});
CHECK(last == LONG_MESSAGE_CRC_ERROR);''', pre='static int last = -1; static void h(void *, unsigned, byte, byte st) { last = st; }\n')

S('gc_count_valid', 'C17', [('src/SerialGC.cpp', '''      receivedCount++;
      result = decodeGridConnect(rxBuffer, &rxCANFrame);
      if (!result)
      {''', '''      result = decodeGridConnect(rxBuffer, &rxCANFrame);
      if (result)
      {
        receivedCount++;
      }
      else
      {''')],
  'a malformed text ended by a semicolon', 'the receive counter leaves out the texts counted as errors',
'''SerialGC gc;
for (char c : std::string(":SB020N9G;")) { g_serialIn.push_back(c); CHECK(!gc.available()); }
CHECK(gc.receiveErrorCounter() == 1);
CHECK(gc.receiveCounter() == 1);''', pre='#include <SerialGC.h>\n')

S('gc_no_reset_after', 'C17', [('src/SerialGC.cpp', '''          rxBuffer[rxIndex++] = '\\0';     // null terminate
          rxIndex = 0;
          result = true;''', '''          rxBuffer[rxIndex] = '\\0';     // null terminate
          result = true;'''), ],
  'noise containing a semicolon after a complete frame', 'noise between two frames is counted as a text in error or makes the previous frame come twice',
'''SerialGC gc; int got = 0;
for (char c : std::string(":SB020N91;  ; ;:SB020N92;")) { g_serialIn.push_back(c); if (gc.available()) ++got; }
CHECK(got == 2);
CHECK(gc.receiveCounter() == 2); CHECK(gc.receiveErrorCounter() == 0);''', pre='#include <SerialGC.h>\n')

S('taught_produced', 'C18', [('src/EventTeachingService.cpp', '''      controller->sendGRSP(OPC_EVLRN, getServiceID(), GRSP_OK);
      ++diagEventsTaught;
      return;''', '''      controller->sendGRSP(OPC_EVLRN, getServiceID(), GRSP_OK);
      return;''')],
  'a produced event taught a new identity', 'teaching a produced event is not counted as an event taught',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(300, 5, 1, 7); n.teach(300, 6, 1, 7);
for (int s = 1; s <= 6; ++s) if (n.ctl->getServices()[s - 1]->getServiceID() == SERVICE_ID_OLD_TEACH) { auto r = n.msg({OPC_RDGN, 1, 4, s, 1}); CHECK(Node::has(r, {OPC_DGN, 1, 4, s, 1, 0, 2})); }''')

S('hb_in_setup', 'C21', [('src/MinimumNodeService.cpp', ''' && !noHeartbeat && instantMode != MODE_SETUP)''', ''' && !noHeartbeat)''')],
  'a node with a number that stays in setup for more than the heartbeat period', 'heartbeats are sent while in setup',
'''Node n; n.toNormal(260);
n.msg({OPC_MODE, 1, 4, MODE_HEARTBEAT_ON});
n.ctl->putAction(ACT_RENEGOTIATE); n.run(); n.can.out.clear();
g_now += 20000; n.run();
CHECK(n.can.out.empty());''')

S('pulse_inverts', 'C22', [('src/LED.cpp', '''  _write(_pin, _pulse || _state);''', '''  _write(_pin, _pulse != _state);''')],
  'activity while the green LED is lit (uninitialised mode)', 'the green LED of an uninitialised node goes dark on activity',
'''NodeOpt o; o.ui = true; Node n(o); g_now += 100; n.run();
CHECK(g_pin[4] == HIGH);
n.frame({OPC_QNN}); for (int i = 0; i < 8; ++i) { n.ctl->process(); CHECK(g_pin[4] == HIGH); }''')

S('setup_keeps_listening', 'C24', [('src/MinimumNodeService.cpp', '''  instantMode = MODE_NORMAL;
  controller->getModuleConfig()->setModuleNormalMode(nn);''', '''  instantMode = nn != 0 ? MODE_NORMAL : MODE_SETUP; // 0 is not a usable number, wait for another one
  controller->getModuleConfig()->setModuleNormalMode(nn);''')],
  'a node in setup is offered the number 0', 'a node given number 0 stays in setup and takes the number offered to the next node, too',
'''Node a, b;
a.ctl->putAction(ACT_CHANGE_MODE); a.run(); g_now += 200; a.run();
a.msg({OPC_SNN, 0, 0});
a.msg({OPC_SNN, 0, 9});
CHECK(a.cfg->nodeNum == 0);''')

S('reset_first_nvs', 'C25', [('src/Configuration.cpp', '''  for (byte i = 0; i < EE_NUM_NVS; i++)
  {
    writeNV(i + 1, 0);
  }''', '''  for (byte i = 1; i < EE_NUM_NVS; i++)
  {
    writeNV(i, 0);
  }''')],
  'a factory reset of a node with a non-zero last node variable', 'the last node variable is not zero after a factory reset',
'''Node n; n.toNormal(260);
n.msg({OPC_NVSET, 1, 4, 4, 77});
n.msg({OPC_NNRSM, 1, 4}); n.run(); n.restart();
for (int i = 1; i <= 4; ++i) CHECK(n.cfg->readNV(i) == 0);''')

S('sui_hash', 'C27', [('src/SerialUserInterface.cpp', '''            for (byte e = 0; e < 4; e++)
            {
              sprintf(dstr, " 0x%02hx | ", evarray[e]);''', '''            for (byte e = 0; e < 4; e++)
            {
              sprintf(dstr, " 0x%02x | ", (char)evarray[e]);''')],
  'an event with an identity byte of 128 or more', "the 'e' command prints identity bytes from 128 sign extended",
'''NodeOpt o; o.sui = true; Node n(o); n.toNormal(260); n.learn(true);
n.teach(0x81FE, 0x0290, 1, 3);
g_serialOut.clear(); g_serialIn.push_back('e'); n.run();
CHECK(g_serialOut.find(" 0x81 |  0xfe |  0x02 |  0x90 |") != std::string::npos);''')

# ---- storage
FLASHSH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -g -w -DDXCORE -I$here/stub -I$here -Isrc -IArduino -o "$d/demo" "$here/demo.cpp" src/FlashStorage.cpp || exit 2
timeout 60 "$d/demo"
'''
FLASHH = '''#pragma once
#include <stdint.h>
#include <string.h>
#define FLASHWRITE_OK 0
#define PROGMEM_SIZE 0x20000
struct FlashSim
{
  uint8_t mem[0x20000]; FlashSim() { memset(mem, 0xFF, sizeof mem); }
  uint8_t checkWritable() { return 0; }
  uint8_t readByte(uint32_t a) { return mem[a & 0x1FFFF]; }
  uint8_t erasePage(uint32_t a, uint8_t) { memset(mem + (a & 0x1FE00), 0xFF, 512); return 0; }
  uint8_t writeBytes(uint32_t a, const uint8_t *d, uint16_t n) { for (unsigned i = 0; i < n; ++i) mem[(a + i) & 0x1FFFF] &= d[i]; return 0; }
};
extern FlashSim Flash;
'''
S('flash_reset_one', 'C20', [('src/FlashStorage.cpp', '''  for (byte i = 0; i < 4; i++)
  {
    memset(cache_page.data, 0xff, FLASH_PAGE_SIZE);
    cache_page.dirty = true;
    flash_writeback_page(i);''', '''  memset(cache_page.data, 0xff, FLASH_PAGE_SIZE);
  cache_page.dirty = true;
  for (byte i = 0; i < 4; i++)
  {
    flash_writeback_page(i);''')],
  'data behind the first flash page before a reset', 'a reset clears only the first flash page',
'''#include <Arduino.h>
#include <Flash.h>
#include <FlashStorage.h>
#include <stdio.h>
#include <stdlib.h>
#include <initializer_list>
FlashSim Flash;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
int main()
{
  VLCB::FlashStorage s; s.begin();
  for (int a : {20, 600, 1100, 2000}) s.write(a, a & 0x7F);
  for (int a : {20, 600, 1100, 2000}) CHECK(s.read(a) == (a & 0x7F));
  s.reset();
  for (int a : {20, 600, 1100, 2000}) CHECK(s.read(a) == 0xFF);
  return 0;
}
''', sh=FLASHSH, plain=True, stub={'Flash.h': FLASHH})

S('eeprom_commit_block', 'C20', [('src/EepromInternalStorage.cpp', '''  for (byte i = 0; i < numbytes; i++)
  {
    setChipEEPROMVal(eeaddress + i, src[i]);
  }''', '''  // what is up to date already is not written again
  for (byte i = 0; i < numbytes && getChipEEPROMVal(eeaddress + i) != src[i]; i++)
  {
    setChipEEPROMVal(eeaddress + i, src[i]);
  }''')],
  'a block write whose first bytes equal what is stored already and whose later bytes differ', 'the rest of a block is not written if one of its bytes has the right value already',
'''#include <Arduino.h>
#include <EEPROM.h>
#include <EepromInternalStorage.h>
#include <stdio.h>
#include <stdlib.h>
EEPROMSim EEPROM;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
int main()
{
  VLCB::EepromInternalStorage s; s.begin();
  byte a[4] = {1, 2, 3, 4}, b[4] = {9, 2, 8, 7}, c[4];
  s.writeBytes(40, a, 4); s.writeBytes(40, b, 4);
  CHECK(s.readBytes(40, 4, c) == 4);
  for (int i = 0; i < 4; ++i) CHECK(c[i] == b[i]);
  return 0;
}
''', sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -g -w -I$here/stub -Isrc -IArduino -o "$d/demo" "$here/demo.cpp" src/EepromInternalStorage.cpp || exit 2
timeout 60 "$d/demo"
''', plain=True, stub={'EEPROM.h': '''#pragma once
#include <stdint.h>
#include <string.h>
struct EEPROMSim { uint8_t mem[4096]; EEPROMSim() { memset(mem, 0xFF, sizeof mem); } void begin(int) {} uint8_t read(int a) { return mem[a & 4095]; } void write(int a, uint8_t v) { mem[a & 4095] = v; } void update(int a, uint8_t v) { mem[a & 4095] = v; } void commit() {} };
extern EEPROMSim EEPROM;
'''})

# ---- CAN2515
CANSH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -g -w -I$here/stub -Isrc -IArduino -o "$d/demo" "$here/demo.cpp" src/CAN2515.cpp || exit 2
timeout 60 "$d/demo"
'''
ACAN = '''#pragma once
#include <Arduino.h>
#include <SPI.h>
#include <stdint.h>
#include <deque>
#include <vector>
struct CANMessage { uint32_t id = 0; bool ext = false, rtr = false; uint8_t idx = 0, len = 0; union { uint64_t data64; uint8_t data[8]; }; CANMessage() : data64(0) {} };
struct ACAN2515Settings
{
  enum RequestedMode { NormalMode, ListenOnlyMode, LoopBackMode };
  ACAN2515Settings(uint32_t f, uint32_t b) : freq(f), bitrate(b) {}
  uint32_t freq, bitrate; RequestedMode mRequestedMode = NormalMode; uint16_t mReceiveBufferSize = 32, mTransmitBuffer0Size = 16, mTransmitBuffer1Size = 0, mTransmitBuffer2Size = 0;
};
struct ACAN2515
{
  ACAN2515(uint8_t c, SPIClass &, uint8_t i) : cs(c), in(i) { cur = this; }
  uint16_t begin(const ACAN2515Settings &s, void (*f)()) { rx = s.mReceiveBufferSize; tx = s.mTransmitBuffer0Size; freq = s.freq; isrf = f; return 0; }
  void end() {} void isr() {} void poll() { ++polls; }
  bool available() { return !q.empty(); } bool receive(CANMessage &m) { if (q.empty()) return false; m = q.front(); q.pop_front(); return true; }
  bool tryToSend(const CANMessage &m) { if (refuse) return false; sent.push_back(m); return true; }
  uint8_t receiveErrorCounter() { return 0; } uint8_t transmitErrorCounter() { return 0; } uint8_t errorFlagRegister() { return 0; }
  uint16_t transmitBufferSize(int) { return tx; } uint16_t transmitBufferPeakCount(int) { return 0; } uint16_t receiveBufferSize() { return rx; } uint16_t receiveBufferPeakCount() { return 0; }
  uint8_t cs, in; int rx = 0, tx = 0, polls = 0; uint32_t freq = 0; bool refuse = false; void (*isrf)() = nullptr;
  std::deque<CANMessage> q; std::vector<CANMessage> sent; static ACAN2515 *cur;
};
'''
CANTOP = '''#include <Arduino.h>
#include <SPI.h>
#include <ACAN2515.h>
#include <CAN2515.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
ACAN2515 *ACAN2515::cur; SPIClass SPI; void SPIClass::begin() {} void delay(unsigned int) {} unsigned long millis() { return 1; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
int main()
{
  VLCB::CAN2515 can;
'''
S('can_refused_count', 'C26', [('src/CAN2515.cpp', '''  _numMsgsSent += ret;
''', '''  ++_numMsgsSent;
''')],
  'a frame the controller refuses because its transmit buffer is full', 'frames that were not accepted are counted as sent',
CANTOP + '''  can.begin(true);
  VLCB::CANFrame f; memset(&f, 0, sizeof f); f.id = 0x123; f.len = 2;
  CHECK(can.sendCanFrame(&f)); CHECK(can.transmitCounter() == 1);
  ACAN2515::cur->refuse = true;
  CHECK(!can.sendCanFrame(&f)); CHECK(can.transmitCounter() == 1);
  return 0;
}
''', sh=CANSH, plain=True, stub={'ACAN2515.h': ACAN})
