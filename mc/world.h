// One complete real node (controller, configuration, services) on fake CAN and
// fake storage, plus lock-step comparison with RefNode.
#pragma once
#include "engine.h"
#include "hw.h"
#include "ref.h"
#include <Controller.h>
#include <Configuration.h>
#include <Service.h>
#include <Storage.h>
#include <CanTransport.h>
#include <CanServiceWithDiagnostics.h>
#include <MinimumNodeServiceWithDiagnostics.h>
#include <NodeVariableService.h>
#include <EventTeachingServiceWithDiagnostics.h>
#include <EventConsumerServiceWithDiagnostics.h>
#include <EventProducerServiceWithDiagnostics.h>
#include <ConsumeOwnEventsService.h>
#include <LongMessageService.h>
#include <LEDUserInterface.h>
#include <SerialUserInterface.h>
#include <Parameters.h>

#ifndef STORE_SIZE
#define STORE_SIZE 96
#endif

struct PowerCut {};

struct FakeStorage : public VLCB::Storage
{
  uint8_t *mem; unsigned size;
  uint32_t writes = 0;         // byte writes since last clear
  uint32_t oob = 0;            // accesses outside the medium
  long cutAfter = -1;          // power fails when this many byte writes have been made
  bool dead = false;           // power has failed: writes are lost
  unsigned lo = 0, hi = 0xFFFFFFFF; // allowed write window
  uint32_t outside = 0; unsigned outsideAddr = 0; // writes outside the window
  uint8_t *mask = nullptr;     // further restriction: writes are allowed where mask is 1
  explicit FakeStorage(unsigned n) : size(n) { mem = (uint8_t *)mc::arenaAlloc(n, false); memset(mem, 0xFF, n); }
  void begin() override {}
  uint8_t read(unsigned a) override { if (a >= size) { ++oob; return 0xFF; } return mem[a]; }
  void put(unsigned a, uint8_t v)
  {
    if (a < lo || a >= hi || (mask && a < size && !mask[a])) { if (!outside++) outsideAddr = a; }
    if (a >= size) { ++oob; return; }
    if (dead) return;
    if (cutAfter >= 0 && (long)writes >= cutAfter) { dead = true; return; }
    ++writes; mem[a] = v;
  }
  void write(unsigned a, uint8_t v) override { put(a, v); }
  uint8_t readBytes(unsigned a, uint8_t n, uint8_t *d) override { for (int i = 0; i < n; ++i) d[i] = read(a + i); return n; }
  void writeBytes(unsigned a, const uint8_t *s, uint8_t n) override { for (int i = 0; i < n; ++i) put(a + i, s[i]); }
  void reset() override { unsigned l = lo; uint8_t *k = mask; lo = 0; mask = nullptr; for (unsigned a = 10; a < size; ++a) put(a, 0xFF); lo = l; mask = k; }
};

struct FakeCan : public VLCB::CanTransport
{
  VLCB::CANFrame *in; int capIn, head = 0, n = 0;
  VLCB::CANFrame *out; int nout = 0, capOut;
  unsigned rx = 0x1234, tx = 0x2345, rxe = 0x3456, txe = 0x4567, es = 0x5678; int resets = 0;
  explicit FakeCan(int cap = 80, int ci = 16) : capIn(ci), capOut(cap) { in = (VLCB::CANFrame *)mc::arenaAlloc(sizeof(VLCB::CANFrame) * ci, true); out = (VLCB::CANFrame *)mc::arenaAlloc(sizeof(VLCB::CANFrame) * cap, true); }
  bool available() override { return n > 0; }
  VLCB::CANFrame getNextCanFrame() override
  {
    VLCB::CANFrame f = in[head]; memset((void *)&in[head], 0, sizeof f); head = (head + 1) % capIn; --n; if (!n) head = 0; return f;
  }
  bool sendCanFrame(VLCB::CANFrame *f) override { if (nout < capOut) out[nout] = *f; ++nout; return true; }
  void reset() override { ++resets; }
  unsigned receiveCounter() override { return rx; }
  unsigned transmitCounter() override { return tx; }
  unsigned receiveErrorCounter() override { return rxe; }
  unsigned transmitErrorCounter() override { return txe; }
  unsigned errorStatus() override { return es; }
  void push(const VLCB::CANFrame &f) { if (n < capIn) { in[(head + n) % capIn] = f; ++n; } }
  void pushMsg(const Msg &m, int canid = 0x7E)
  {
    VLCB::CANFrame f; memset(&f, 0, sizeof f);
    f.id = (0xB << 7) | canid; f.len = m.len; memcpy(f.data, m.d, m.len);
    for (int i = m.len; i < 8; ++i) f.data[i] = 0xEE; // bytes past the length are not part of the frame
    push(f);
  }
};

// sees every action like any other service (hidden id)
struct Spy : public VLCB::Service
{
  int lastMode = -1, nMode = 0, nActivity = 0;
  Msg in[24]; int nin = 0;
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override
  {
    if (!a) return;
    if (a->actionType == VLCB::ACT_INDICATE_MODE) { lastMode = a->mode; nMode = 1; }
    if (a->actionType == VLCB::ACT_INDICATE_ACTIVITY) ++nActivity;
    if (a->actionType == VLCB::ACT_MESSAGE_IN && nin < 24) { in[nin].len = a->vlcbMessage.len; memcpy(in[nin].d, a->vlcbMessage.data, 8); ++nin; }
  }
};

namespace VLCB { extern Configuration config; } // the one node's configuration, in some base states
extern Callback g_cb[32];
extern int g_ncb;
extern void (*g_onEvent)(uint8_t kind, uint8_t index, const VLCB::VlcbMessage *m);
void cbEvent(byte index, const VLCB::VlcbMessage *m);
void cbRequest(byte index, const VLCB::VlcbMessage *m);

struct NodeWorld
{
  NodeCfg c;
  FakeStorage *st; FakeCan *can;
  VLCB::Configuration *cfg; bool globalCfg; // the configuration is the global object that a controller takes by itself
  VLCB::Controller *ctl;
  VLCB::MinimumNodeService *mns; VLCB::CanService *cans; VLCB::NodeVariableService *nvs;
  VLCB::EventTeachingService *ets; VLCB::EventConsumerService *ecs; VLCB::EventProducerService *eps;
  VLCB::ConsumeOwnEventsService *coe; VLCB::LongMessageService *lms; VLCB::LongMessageServiceEx *lmx; Spy *spy, *spies[3]; VLCB::LEDUserInterface *ui; VLCB::SerialUserInterface *sui;
  unsigned char *params; char *name;

  // builds (or after a power cycle, rebuilds) the RAM part on top of existing storage
  void boot()
  {
    using namespace VLCB;
    if (globalCfg) { memset((void *)&VLCB::config, 0, sizeof VLCB::config); cfg = new (&VLCB::config) Configuration(st); }
    else cfg = mc::make<Configuration>(st);
    cfg->EE_NVS_START = c.nvStart; cfg->EE_NUM_NVS = c.numNvs; cfg->EE_EVENTS_START = c.evStart;
    cfg->EE_MAX_EVENTS = c.maxEvents; cfg->EE_NUM_EVS = c.numEvs; cfg->EE_PRODUCED_EVENTS = c.produced;
    Service *sv[12]; int n = 0;
    mns = nullptr; cans = nullptr; nvs = nullptr; ets = nullptr; ecs = nullptr; eps = nullptr; coe = nullptr;
    if (c.mns) sv[n++] = mns = c.diag ? mc::make<MinimumNodeServiceWithDiagnostics>() : mc::make<MinimumNodeService>();
    ui = nullptr; if (c.ui) sv[n++] = ui = mc::make<LEDUserInterface>(4, 5, 6); // green, yellow, button
    sui = nullptr; if (c.sui) sv[n++] = sui = mc::make<SerialUserInterface>(can);
    if (c.can) sv[n++] = cans = c.diag ? mc::make<CanServiceWithDiagnostics>(can) : mc::make<CanService>(can);
    if (c.nv) sv[n++] = nvs = mc::make<NodeVariableService>();
    if (c.cons) sv[n++] = ecs = c.diag ? mc::make<EventConsumerServiceWithDiagnostics>() : mc::make<EventConsumerService>();
    if (c.teach) sv[n++] = ets = c.diag ? mc::make<EventTeachingServiceWithDiagnostics>() : mc::make<EventTeachingService>();
    if (c.prod) sv[n++] = eps = c.diag ? mc::make<EventProducerServiceWithDiagnostics>() : mc::make<EventProducerService>();
    if (c.coe) sv[n++] = coe = mc::make<ConsumeOwnEventsService>();
    lms = nullptr; lmx = nullptr;
    if (c.longm == 1) sv[n++] = lms = mc::make<LongMessageService>();
    if (c.longm == 2) sv[n++] = lmx = mc::make<LongMessageServiceEx>();
    for (int i = 0; i < 3; ++i) spies[i] = nullptr;
    for (int i = 0; i < c.hidden; ++i) sv[n++] = spies[i] = mc::make<Spy>();
    spy = spies[0];
    permute(sv, n, c.perm);
    ctl = makeController(sv, n);
    if (ecs && c.eventHandler) ecs->setEventHandler(cbEvent);
    if (eps && c.requestHandler) eps->setRequestEventHandler(cbRequest);
    begin();
  }
  VLCB::Controller *mk(std::initializer_list<VLCB::Service *> l) { return globalCfg ? mc::make<VLCB::Controller>(l) : mc::make<VLCB::Controller>(cfg, l); }
  VLCB::Controller *makeController(VLCB::Service **sv, int n)
  {
    switch (n)
    {
#define S(i) sv[i]
    case 1: return mk({S(0)});
    case 2: return mk({S(0), S(1)});
    case 3: return mk({S(0), S(1), S(2)});
    case 4: return mk({S(0), S(1), S(2), S(3)});
    case 5: return mk({S(0), S(1), S(2), S(3), S(4)});
    case 6: return mk({S(0), S(1), S(2), S(3), S(4), S(5)});
    case 7: return mk({S(0), S(1), S(2), S(3), S(4), S(5), S(6)});
    case 8: return mk({S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7)});
    case 9: return mk({S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8)});
    case 10: return mk({S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9)});
    default: return mk({S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(10)});
#undef S
    }
  }
  // the order used by the example sketches: configuration, parameters, then controller
  void begin()
  {
    cfg->begin();
    params = (unsigned char *)mc::arenaAlloc(21, true);
    VLCB::Parameters p(*cfg);
    p.setVersion(2, 'b', 7);
    p.setModuleId(0x63);
    memcpy(params, p.getParams(), 21);
    ctl->setParams(params);
    name = (char *)mc::arenaAlloc(8, true);
    memcpy(name, "MCNoDe7", 8);
    ctl->setName((const unsigned char *)name);
    ctl->begin();
  }
  void create(const NodeCfg &cc)
  {
    c = cc; globalCfg = mc::profile() & c.vary & 8;
    unsigned need = c.need();
    st = mc::make<FakeStorage>(need < 24 ? 24 : need);
    can = mc::make<FakeCan>(c.maxEvents > 20 || c.numNvs > 20 || c.numEvs > 20 ? 300 : 48);
    boot();
  }
  // cut the power and start again from what is in storage
  void powerOff()
  {
    VLCB::Service *sv[] = {mns, cans, nvs, ets, ecs, eps, coe, lms, lmx, spies[0], spies[1], spies[2], ui, sui};
    ctl->~Controller();
    for (auto p : sv) if (p) mc::arenaFree((void *)p);
    mc::arenaFree(ctl); if (!globalCfg) mc::arenaFree(cfg); mc::arenaFree(params); mc::arenaFree(name);
    can->n = can->head = 0;
  }
  unsigned cycles = 0; // restarts so far
  void powerCycle() { ++cycles; powerOff(); st->dead = false; st->cutAfter = -1; boot(); }
  void process(int n = 1) { for (int i = 0; i < n; ++i) ctl->process(); }
  // run until nothing is pending
  void settle(int limit = 400)
  {
    for (int i = 0; i < limit; ++i)
    {
      ctl->process();
      if (!ctl->pendingAction() && can->n == 0) { ctl->process(); if (!ctl->pendingAction()) return; }
    }
    mc::fail("node does not become idle within %d processing rounds", limit);
  }
};

// ---- comparison helpers
std::string frameStr(const VLCB::CANFrame &f);
void compareOut(NodeWorld &w, RefNode &r, const char *what, bool ordered = false);
void compareCallbacks(RefNode &r, const char *what);
void compareTable(NodeWorld &w, RefNode &r, const char *what);
void compareIdentity(NodeWorld &w, RefNode &r, const char *what);
void syncRef(NodeWorld &w, RefNode &r); // fill static parts (params, name, services)
void clearStep(NodeWorld &w, RefNode &r);
// deliver a message to both, settle, compare everything
void stepMsg(NodeWorld &w, RefNode &r, const Msg &m, int flags = 0);
enum { CMP_TABLE = 1, CMP_ID = 2, ORDERED = 4, NO_OUT = 8, NO_CB = 16, CMP_FLAGS = 32 }; // by default messages sent and callbacks are compared
// initialise both: node in normal mode with number nn, canid
void bootNormal(NodeWorld &w, RefNode &r, const NodeCfg &c, int nn, int canid = 5);
void bootFactory(NodeWorld &w, RefNode &r, const NodeCfg &c);
// further lock-step operations
void stepFrame(NodeWorld &w, RefNode &r, uint32_t id, bool ext, bool rtr, const Msg &m, int flags = 0);
void stepAction(NodeWorld &w, RefNode &r, int which, int flags = 0); // 0 change mode, 1 renegotiate, 2 enumerate
void stepTime(NodeWorld &w, RefNode &r, unsigned long ms, int flags = 0);
void stepRestart(NodeWorld &w, RefNode &r, int flags = 0);
void stepCheck(NodeWorld &w, RefNode &r, const char *what, int flags);

void stepProduce(NodeWorld &w, RefNode &r, bool on, uint8_t evv, int nd, const uint8_t *data, int flags = 0);
void stepRespond(NodeWorld &w, RefNode &r, bool on, int index, int nd, const uint8_t *data, int flags = 0);
// abstraction of a node's state used for pruning in deep scenarios: all persistent data plus mode, flags, enumeration and model state
uint64_t nodeKey(NodeWorld &w, RefNode &r);
