// Stand-ins for the Arduino platform, a storage medium and a CAN transport, and
// a node put together from the library's services, for demonstrations.
#pragma once
#include <Arduino.h>
#include <Streaming.h>
#include <SPI.h>
#include <Controller.h>
#include <Configuration.h>
#include <Storage.h>
#include <CanTransport.h>
#include <CanServiceWithDiagnostics.h>
#include <MinimumNodeServiceWithDiagnostics.h>
#include <NodeVariableService.h>
#include <EventTeachingServiceWithDiagnostics.h>
#include <EventConsumerServiceWithDiagnostics.h>
#include <EventProducerServiceWithDiagnostics.h>
#include <ConsumeOwnEventsService.h>
#include <LongMessageService.h>
#include <LEDUserInterface.h>
#include <SerialUserInterface.h>
#include <Parameters.h>
#include <vlcbdefs.hpp>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>
#include <memory>
using namespace VLCB;
typedef std::vector<int> Bytes;

static unsigned long g_now = 1000;
static int g_pin[64];
static std::string g_serialOut; static std::deque<char> g_serialIn;
unsigned long millis() { return g_now; }
void delay(unsigned int ms) { g_now += ms; }
byte highByte(unsigned int v) { return v >> 8; }
byte lowByte(unsigned int v) { return v; }
void pinMode(int, PinMode) {}
void digitalWrite(int p, int v) { g_pin[p] = v; }
byte digitalRead(int p) { return g_pin[p]; }
void Serial_T::begin(int) {}
bool Serial_T::available() { return !g_serialIn.empty(); }
char Serial_T::read() { if (g_serialIn.empty()) return -1; char c = g_serialIn.front(); g_serialIn.pop_front(); return c; }
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int t, char *s, int n) { int i = 0; while (i < n && available()) { char c = read(); if (c == t) break; s[i++] = c; } return i; }
void Serial_T::print(const char *s) { g_serialOut += s; }
void Serial_T::println(const char *s) { g_serialOut += s; g_serialOut += "\r\n"; }
Serial_T Serial;
Serial_T &operator<<(Serial_T &s, int v) { s.print(std::to_string(v).c_str()); return s; }
Serial_T &operator<<(Serial_T &s, unsigned v) { s.print(std::to_string(v).c_str()); return s; }
Serial_T &operator<<(Serial_T &s, long v) { s.print(std::to_string(v).c_str()); return s; }
Serial_T &operator<<(Serial_T &s, unsigned long v) { s.print(std::to_string(v).c_str()); return s; }
Serial_T &operator<<(Serial_T &s, const char *v) { s.print(v); return s; }
Serial_T &operator<<(Serial_T &s, const ENDL_T &) { s.print("\r\n"); return s; }
ENDL_T endl;
SPIClass SPI;
void SPIClass::begin() {}
void printConfig() {}
namespace VLCB { Storage *createDefaultStorageForPlatform() { return nullptr; } }
namespace VLCB { alignas(16) char config[1024]; }

#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)

struct MemStorage : Storage
{
  std::vector<byte> mem; long writes = 0, cut = -1; long outside = 0; unsigned limit;
  explicit MemStorage(unsigned n = 4096) : mem(n, 0xFF), limit(n) {}
  void begin() override {}
  byte read(unsigned a) override { return a < mem.size() ? mem[a] : 0xFF; }
  void write(unsigned a, byte v) override { if (a >= limit) ++outside; if (cut >= 0 && writes >= cut) return; ++writes; if (a < mem.size()) mem[a] = v; }
  byte readBytes(unsigned a, byte n, byte d[]) override { for (int i = 0; i < n; ++i) d[i] = read(a + i); return n; }
  void writeBytes(unsigned a, const byte s[], byte n) override { for (int i = 0; i < n; ++i) write(a + i, s[i]); }
  void reset() override { for (unsigned a = 10; a < mem.size() && a < limit; ++a) write(a, 0xFF); }
};
struct TestCan : CanTransport
{
  std::deque<CANFrame> in; std::vector<CANFrame> out;
  bool available() override { return !in.empty(); }
  CANFrame getNextCanFrame() override { CANFrame f = in.front(); in.pop_front(); return f; }
  bool sendCanFrame(CANFrame *f) override { out.push_back(*f); return true; }
  void reset() override {}
  unsigned receiveCounter() override { return 11; }
  unsigned transmitCounter() override { return 22; }
  unsigned receiveErrorCounter() override { return 33; }
  unsigned transmitErrorCounter() override { return 44; }
  unsigned errorStatus() override { return 55; }
};
static std::vector<std::pair<int, Bytes>> g_events, g_requests;
static Bytes bytesOf(const VlcbMessage *m) { Bytes b; for (int i = 0; i < m->len; ++i) b.push_back(m->data[i]); return b; }
static void onEvent(byte i, const VlcbMessage *m) { g_events.push_back({i, bytesOf(m)}); }
static void onRequest(byte i, const VlcbMessage *m) { g_requests.push_back({i, bytesOf(m)}); }

struct NodeOpt { int nvStart = 10, evStart = -1, events = 8, evs = 2, nvs = 4, produced = 0, longm = 0; bool coe = false, ui = false, sui = false, consumer = true, producer = true; };
struct Node
{
  NodeOpt o; std::shared_ptr<MemStorage> st; TestCan can;
  Configuration *cfg; Controller *ctl; MinimumNodeService *mns; CanService *cans; NodeVariableService *nv; EventTeachingService *ets;
  EventConsumerService *ecs; EventProducerService *eps; ConsumeOwnEventsService *coe; LongMessageService *lms; LongMessageServiceEx *lmx; LEDUserInterface *ui; SerialUserInterface *sui;
  unsigned char params[21];
  explicit Node(NodeOpt opt = NodeOpt(), std::shared_ptr<MemStorage> s = nullptr) : o(opt), st(s ? s : std::make_shared<MemStorage>()) { boot(); }
  void boot()
  {
    can.in.clear(); can.out.clear();
    cfg = new Configuration(st.get());
    cfg->EE_NVS_START = o.nvStart; cfg->EE_NUM_NVS = o.nvs; cfg->EE_EVENTS_START = o.evStart >= 0 ? o.evStart : 10 + o.nvs; cfg->EE_MAX_EVENTS = o.events; cfg->EE_NUM_EVS = o.evs; cfg->EE_PRODUCED_EVENTS = o.produced;
    mns = new MinimumNodeServiceWithDiagnostics; cans = new CanServiceWithDiagnostics(&can); nv = new NodeVariableService; ets = new EventTeachingServiceWithDiagnostics;
    ecs = new EventConsumerServiceWithDiagnostics; eps = new EventProducerServiceWithDiagnostics; coe = new ConsumeOwnEventsService; lms = new LongMessageService; lmx = new LongMessageServiceEx;
    ui = new LEDUserInterface(4, 5, 6); sui = new SerialUserInterface(&can);
    g_pin[6] = HIGH;
    if (o.coe) ctl = new Controller(cfg, {mns, cans, nv, ets, ecs, eps, coe});
    else if (o.ui) ctl = new Controller(cfg, {mns, ui, cans, nv, ets, ecs, eps});
    else if (o.sui) ctl = new Controller(cfg, {mns, sui, cans, nv, ets, ecs, eps});
    else if (o.longm == 1) ctl = new Controller(cfg, {mns, cans, nv, ets, ecs, eps, lms});
    else if (o.longm == 2) ctl = new Controller(cfg, {mns, cans, nv, ets, ecs, eps, lmx});
    else ctl = new Controller(cfg, {mns, cans, nv, ets, ecs, eps});
    ecs->setEventHandler(onEvent); eps->setRequestEventHandler(onRequest);
    cfg->begin();
    Parameters p(*cfg); p.setVersion(1, 'a', 2); p.setModuleId(99);
    memcpy(params, p.getParams(), 21);
    ctl->setParams(params); ctl->setName((const unsigned char *)"DEMO    ");
    ctl->begin();
    run();
  }
  void restart() { st->cut = -1; boot(); }
  void run(int n = 300) { for (int i = 0; i < n; ++i) ctl->process(); }
  void frame(Bytes b, int canid = 0x7E, bool rtr = false, bool ext = false)
  {
    CANFrame f; memset(&f, 0, sizeof f); f.id = (0xB << 7) | canid; f.rtr = rtr; f.ext = ext; f.len = b.size(); for (size_t i = 0; i < b.size(); ++i) f.data[i] = b[i];
    can.in.push_back(f);
  }
  // send one message to the node and return what it sends back
  std::vector<Bytes> msg(Bytes b, int canid = 0x7E) { can.out.clear(); frame(b, canid); run(); return sent(); }
  std::vector<Bytes> sent() { std::vector<Bytes> r; for (auto &f : can.out) { Bytes x; if (f.rtr) x.push_back(-1); for (int i = 0; i < f.len; ++i) x.push_back(f.data[i]); r.push_back(x); } return r; }
  static bool has(const std::vector<Bytes> &v, const Bytes &b) { for (auto &x : v) if (x == b) return true; return false; }
  // bring a factory-blank node into normal mode with a node number
  void toNormal(int nn) { ctl->putAction(ACT_CHANGE_MODE); run(); g_now += 200; run(); msg({OPC_SNN, nn >> 8, nn & 255}); g_events.clear(); g_requests.clear(); can.out.clear(); }
  int hi() { return cfg->nodeNum >> 8; } int lo() { return cfg->nodeNum & 255; }
  void learn(bool on) { msg({on ? OPC_NNLRN : OPC_NNULN, hi(), lo()}); }
  std::vector<Bytes> teach(int nn, int en, int ev, int val) { return msg({OPC_EVLRN, nn >> 8, nn & 255, en >> 8, en & 255, ev, val}); }
};
