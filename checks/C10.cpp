// C10: power loss during any write leaves only the item being written in doubt.
#include "world.h"
#include "alpha.h"
static NodeWorld *w;
const int NN = 0x0104;
enum { ME = 4, MV = 3, MN = 3 };
struct Items
{
  uint8_t mode, canid, hb, ack, reset; uint16_t nn;
  uint8_t nv[MN]; struct { uint8_t used, id[4], ev[MV]; } e[ME];
};
static NodeCfg g_cfg;
static Items snap()
{
  Items s; memset(&s, 0, sizeof s);
  VLCB::Configuration *c = w->cfg;
  s.mode = (uint8_t)c->currentMode; s.canid = c->CANID; s.hb = c->heartbeat; s.ack = c->eventAck; s.reset = c->isResetFlagSet(); s.nn = c->nodeNum;
  for (int i = 0; i < g_cfg.numNvs; ++i) s.nv[i] = c->readNV(i + 1);
  for (int i = 0; i < g_cfg.maxEvents; ++i)
  {
    s.e[i].used = c->getEvTableEntry(i) != 0;
    if (!s.e[i].used) continue; // the rest of a free entry is not data
    c->readEvent(i, s.e[i].id);
    for (int k = 0; k < g_cfg.numEvs; ++k) s.e[i].ev[k] = c->getEventEVval(i, k + 1);
  }
  return s;
}
// one interruptible operation: preparation without storage effects is included
struct Oper { std::string name; std::function<void()> run; int nn = -1; bool reset = false; };
static std::vector<Oper> *opers;
static void bus(const Msg &m) { w->can->pushMsg(m); w->settle(); }
static void own(int opc, std::initializer_list<int> l = {}) { Msg m = M({opc, w->cfg->nodeNum >> 8, (int)(w->cfg->nodeNum & 255)}); for (int v : l) m.d[m.len++] = v; bus(m); }
static void learn() { own(P::NNLRN); }
static void act(int k) { static const VLCB::ACTION a[] = {VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_START_CAN_ENUMERATION}; w->ctl->putAction(a[k]); w->settle(); }
static void wait() { hw::now += 100; w->settle(); }
static uint8_t M0[128], Mk[128];
static void load(const uint8_t *m) { memcpy(w->st->mem, m, w->st->size); }
enum { MAXCUT = 64 };

static void crash(uint64_t op)
{
  const Oper &o = (*opers)[op / MAXCUT]; int k = op % MAXCUT;
  // state before, as a restart sees it
  memcpy(M0, w->st->mem, w->st->size);
  Items s0 = snap();
  // the operation run to completion
  w->st->writes = 0;
  o.run();
  int total = w->st->writes;
  w->powerCycle(); w->settle();
  Items s1 = snap();
  if (k == MAXCUT - 1) { if (total >= MAXCUT) mc::fail("harness: %d writes", total); return; } // completed: continue from here
  if (k >= total) { return; }
  // the same, with the power failing after k byte writes
  w->powerOff(); load(M0); w->st->dead = false; w->boot(); w->settle();
  w->st->writes = 0; w->st->cutAfter = k;
  o.run();
  w->powerOff(); w->st->dead = false; w->st->cutAfter = -1; w->boot(); w->settle();
  Items s = snap();
  mc::countCheck();
  char wh[160]; snprintf(wh, sizeof wh, "power lost after %d of %d writes of %s", k, total, o.name.c_str());
  if (w->st->oob) mc::fail("%s: access outside the medium", wh);
  if (s.mode != P::M_UNINIT && s.mode != P::M_NORMAL) mc::fail("%s: comes up in mode %d", wh, s.mode);
  if (w->spy->nMode && (uint8_t)w->spy->lastMode != s.mode) mc::fail("%s: indicated mode %d, stored %d", wh, w->spy->lastMode, s.mode);
#define SAME(f) if (s0.f == s1.f && s.f != s0.f) mc::fail("%s: " #f " is %d, was %d", wh, s.f, s0.f);
  if (!o.reset) { // a factory reset is changing everything
  SAME(mode) SAME(canid) SAME(hb) SAME(ack) SAME(nn)
  for (int i = 0; i < MN; ++i) if (s0.nv[i] == s1.nv[i] && s.nv[i] != s0.nv[i]) mc::fail("%s: node variable %d is %d, was %d", wh, i + 1, s.nv[i], s0.nv[i]);
  for (int i = 0; i < ME; ++i) if (!memcmp(&s0.e[i], &s1.e[i], sizeof s.e[i]) && memcmp(&s.e[i], &s0.e[i], sizeof s.e[i])) mc::fail("%s: event entry %d has changed", wh, i);
  }
  // a variable or setting of one byte is either old or new
#define EITHER(f) if (s.f != s0.f && s.f != s1.f) mc::fail("%s: " #f " is %d, neither the old value %d nor the new value %d", wh, s.f, s0.f, s1.f);
  if (!o.reset) { EITHER(mode) EITHER(canid) EITHER(hb) EITHER(ack) for (int i = 0; i < MN; ++i) EITHER(nv[i]) }
  if (o.nn >= 0 && s0.mode == P::M_UNINIT && s.mode == P::M_NORMAL && s.nn != o.nn) mc::fail("%s: comes up in normal mode with number %d, the assigned number is %d", wh, s.nn, o.nn);
  if (s1.mode == P::M_UNINIT && s.mode == P::M_NORMAL && s.nn != s0.nn) mc::fail("%s: comes up in normal mode with number %d, was %d", wh, s.nn, s0.nn);
}
// factory initialisation: cut the first start after k writes, optionally the second after k2
static void firstStart(uint64_t op)
{
  int k = op % 64, k2 = op / 64;
  w->powerOff(); memset(w->st->mem, 0xFF, w->st->size); w->st->dead = false;
  for (int c : {k, k2})
  {
    if (c == 63) continue;
    w->st->writes = 0; w->st->cutAfter = c; w->boot(); w->settle(); w->powerOff(); w->st->dead = false; w->st->cutAfter = -1;
  }
  w->boot(); w->settle();
  Items s = snap(); mc::countCheck();
  char wh[100]; snprintf(wh, sizeof wh, "first start interrupted after %d and %d writes", k, k2);
  if (s.mode != P::M_UNINIT) mc::fail("%s: comes up in mode %d", wh, s.mode);
  if (k != 63 || k2 != 63) { if (s.nn != 0 && s.nn != 0x00FF && s.nn != 0xFF00) mc::fail("%s: number %d", wh, s.nn); }
  else if (s.nn) mc::fail("%s: number %d", wh, s.nn);
  if (s.canid) mc::fail("%s: CAN id %d", wh, s.canid);
  if (s.hb || s.ack) mc::fail("%s: heartbeat %d event acknowledge %d", wh, s.hb, s.ack);
  for (int i = 0; i < g_cfg.numNvs; ++i) if (s.nv[i]) mc::fail("%s: node variable %d is %d", wh, i + 1, s.nv[i]);
  for (int i = 0; i < ME; ++i) if (s.e[i].used) mc::fail("%s: event entry %d in use", wh, i);
  // and it can be commissioned
  act(0); wait(); bus(M({P::SNN, 1, 4}));
  w->powerCycle(); w->settle(); s = snap();
  if (s.mode != P::M_NORMAL || s.nn != NN) mc::fail("%s: cannot be commissioned afterwards (mode %d number %d)", wh, s.mode, s.nn);
}
static std::vector<NodeCfg> cfgs;
static void boot(int k, int state)
{
  w = mc::make<NodeWorld>(); RefNode *r = new RefNode; g_cfg = cfgs[k];
  if (state == 0) { bootFactory(*w, *r, g_cfg); return; }
  bootNormal(*w, *r, g_cfg, NN);
  if (state == 1) return;
  learn(); bus(M({P::EVLRN, 1, 1, 0, 1, 1, 5})); if (g_cfg.maxEvents > 1) bus(M({P::EVLRN, 0, 0, 0, 2, 1, 6}));
  own(P::NVSET, {1, 0x55}); if (g_cfg.numNvs > 1) own(P::NVSET, {2, 0xAA});
  own(P::MODE, {P::M_HB_ON}); w->cfg->setEventAck(true); own(P::CANID, {9});
  if (state == 3) { own(P::MODE, {P::M_UNINIT}); }
  w->powerCycle(); w->settle();
}
int main(int argc, char **argv)
{
  auto cfg = [](int ev, int evs, int nvs, int prod, int gap) { NodeCfg c; c.maxEvents = ev; c.numEvs = evs; c.numNvs = nvs; c.produced = prod; c.diag = false; c.evStart = gap ? 10 + nvs + gap : 0; c.eventHandler = c.requestHandler = false; return c; };
  cfgs = {cfg(2, 1, 1, 1, 0), cfg(3, 2, 2, 0, 5), cfg(4, 3, 3, 2, 0), cfg(1, 1, 0, 0, 0)};
  opers = new std::vector<Oper>;
  auto add = [](std::string n, std::function<void()> f, int nn = -1, bool reset = false) { opers->push_back(Oper{n, f, nn, reset}); };
  for (int nn : {0x0104, 0x0001, 0x0203, 0xFE00, 0x01FF})
    add("assigning number " + std::to_string(nn), [nn] { if (w->cfg->currentMode == MODE_UNINITIALISED) { act(0); wait(); } else act(1); bus(M({P::SNN, nn >> 8, nn & 255})); }, nn);
  add("release by mode request", [] { own(P::MODE, {P::M_UNINIT}); });
  add("release by button", [] { if (w->cfg->currentMode == MODE_NORMAL) act(0); });
  add("leaving setup by button", [] { act(1); act(0); });
  add("heartbeat on", [] { own(P::MODE, {P::M_HB_ON}); }); add("heartbeat off", [] { own(P::MODE, {P::M_HB_OFF}); });
  add("event acknowledge on", [] { w->cfg->setEventAck(true); }); add("event acknowledge off", [] { w->cfg->setEventAck(false); });
  add("variable 1", [] { own(P::NVSET, {1, 0x77}); }); add("variable 2", [] { own(P::NVSETRD, {2, 0x78}); });
  add("CAN id command", [] { own(P::CANID, {42}); }); add("enumeration", [] { act(2); wait(); });
  add("teach new", [] { learn(); bus(M({P::EVLRN, 1, 2, 3, 4, 1, 7})); });
  add("teach same", [] { learn(); bus(M({P::EVLRN, 1, 1, 0, 1, 1, 9})); });
  add("teach over produced", [] { learn(); bus(M({P::EVLRN, 2, 2, 0, 3, 1, 5})); });
  add("teach second variable", [] { learn(); bus(M({P::EVLRN, 1, 1, 0, 1, 2, 9})); });
  add("teach by index 0", [] { learn(); bus(M({P::EVLRNI, 3, 3, 0, 1, 0, 1, 9})); });
  add("teach by index 1", [] { learn(); bus(M({P::EVLRNI, 3, 3, 0, 2, 1, 1, 8})); });
  add("unlearn", [] { learn(); bus(M({P::EVULN, 1, 1, 0, 1})); });
  add("clear", [] { learn(); own(P::NNCLR); });
  add("produce 5", [] { w->eps->sendEvent(true, 5); w->settle(); }); add("produce 9", [] { w->eps->sendEvent(true, 9); w->settle(); });
  add("factory reset", [] { own(P::NNRSM); }, -1, true);
  add("software reset", [] { own(P::NNRST); });
  add("clear reset indication", [] { w->cfg->clearResetFlag(); });
  auto cname = [](int k) { const NodeCfg &c = cfgs[k / 4]; static const char *st[] = {"factory", "normal", "normal with data", "released with data"}; char b[100]; snprintf(b, sizeof b, "%d events x %d variables, %d node variables, %d produced: %s", c.maxEvents, c.numEvs, c.numNvs, c.produced, st[k % 4]); return std::string(b); };
  std::vector<mc::Scenario> sc;
  {
    mc::Scenario s; s.name = "interrupted operations"; s.nconfigs = 16; s.depth = 1; s.setup = [](int k) { boot(k / 4, k % 4); };
    s.nops = opers->size() * MAXCUT; s.apply = crash; s.opname = [](uint64_t op) { return (*opers)[op / MAXCUT].name + (op % MAXCUT == MAXCUT - 1 ? " completed" : " cut after " + std::to_string(op % MAXCUT)); };
    s.cfgname = cname; s.depth = mc::pick(2, 4);
    s.key = [] { return mc::hash(w->st->mem, w->st->size); };
    sc.push_back(s);
    // longer sequences of interrupted operations on the smaller nodes
    s.name = "interrupted sequences"; s.nconfigs = mc::pick(4, 8); s.depth = mc::pick(3, 8); s.setup = [](int k) { boot(k / 4, k % 4); }; sc.push_back(s);
  }
  {
    mc::Scenario s; s.name = "first start"; s.nconfigs = 4; s.setup = [](int k) { boot(k, 0); }; s.nops = 64 * 64; s.apply = firstStart; s.depth = 1; s.dedup = false;
    s.opname = [](uint64_t op) { return "first start cut after " + std::to_string(op % 64) + " writes, second after " + std::to_string(op / 64); };
    s.cfgname = [=](int k) { return cname(k * 4); };
    sc.push_back(s);
  }
  const char *as[] = {"one byte is the unit that is written completely or not at all"};
  return mc::run(argc, argv, "C10", sc.data(), sc.size(), "fault enumeration on the real code: every operation cut after every number of storage byte writes, in sequences, restarted and compared item by item", as, 1);
}
