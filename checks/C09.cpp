// C09: configuration survives a restart exactly.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static int FL = NO_OUT | NO_CB;
static uint8_t before[2200];
static void cmpAck(const char *what) { mc::countCheck(); if (w->cfg->eventAck != r->eventAck) mc::fail("%s: event acknowledge setting %d, expected %d", what, w->cfg->eventAck, r->eventAck); }
static void send(const Msg &m) { stepMsg(*w, *r, m, FL); }
// restart and compare everything, and that storage is not touched
static void restart()
{
  bool reset = r->resetDone;
  memcpy(before, w->st->mem, w->st->size);
  stepRestart(*w, *r, CMP_ID | CMP_TABLE | NO_OUT | NO_CB); cmpAck("after restart");
  for (unsigned a = 0; a < w->st->size; ++a) if (!reset && before[a] != w->st->mem[a]) mc::fail("restart: storage byte %u changed from %d to %d", a, before[a], w->st->mem[a]);
  if (w->spy->nMode == 0 || (uint8_t)w->spy->lastMode != r->mode) mc::fail("restart: indicated mode %d, expected %d", w->spy->nMode ? w->spy->lastMode : -1, r->mode);
}
static void twice()
{
  restart(); restart();
  // the settings are effective, not just stored: the bus sees them
  clearStep(*w, *r); Msg q = M({P::QNN}); w->can->pushMsg(q); w->settle(); r->receive(q); compareOut(*w, *r, "query after restart");
  if (w->can->n) mc::fail("frames left");
}
static std::vector<NodeCfg> cfgs;
static void boot(int k, bool normal)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  if (normal) bootNormal(*w, *r, cfgs[k], NN); else bootFactory(*w, *r, cfgs[k]);
}
int main(int argc, char **argv)
{
  auto cfg = [](int ev, int evs, int nvs, int prod, int gap) { NodeCfg c; c.maxEvents = ev; c.numEvs = evs; c.numNvs = nvs; c.produced = prod; c.diag = false; c.evStart = gap ? 10 + nvs + gap : 0; return c; };
  cfgs = {cfg(2, 1, 1, 1, 0), cfg(3, 2, 2, 0, 7), cfg(1, 3, 0, 2, 0), cfg(2, 2, 3, 0, 0), cfg(200, 2, 100, 0, 0), cfg(4, 200, 200, 0, 0), cfg(254, 1, 255, 0, 0)};
  { NodeCfg c = cfg(2, 2, 3, 1, 0); c.evStart = 10; c.nvStart = 10 + 2 * 6; cfgs.push_back(c); }
  auto cname = [](int k) { const NodeCfg &c = cfgs[k]; char b[100]; snprintf(b, sizeof b, "%d events x %d variables, %d node variables, %d produced", c.maxEvents, c.numEvs, c.numNvs, c.produced); return std::string(b); };
  std::vector<mc::Scenario> sc;
  {
    static OpList *l = new OpList; std::vector<Msg> v;
    for (int t = 0; t < 2; ++t)
    {
      int a = t ? 0 : A, b = t ? 0 : B;
      for (Msg m : {M({P::MODE, a, b, 0}), M({P::MODE, a, b, 255}), M({P::MODE, a, b, 12}), M({P::MODE, a, b, 13}), M({P::NNLRN, a, b}), M({P::NNCLR, a, b}), M({P::NVSET, a, b, 1, 77}), M({P::NVSETRD, a, b, 2, 255}), M({P::CANID, a, b, 9}), M({P::CANID, a, b, 99}), M({P::NNRSM, a, b})}) v.push_back(m);
    }
    for (Msg m : {M({P::SNN, A, B}), M({P::SNN, 0xFE, 0xFF}), M({P::SNN, 0, 0}), M({P::RQNN, 0, 0}), M({P::EVLRN, 1, 1, 0, 1, 1, 4}), M({P::EVLRN, 1, 1, 0, 0x81, 1, 0}), M({P::EVLRN, 0, 0, 0, 1, 1, 255}), M({P::EVULN, 1, 1, 0, 1}), M({P::EVLRNI, 1, 1, 0, 2, 1, 1, 3}), M({P::EVLRNI, 1, 1, 0, 1, 0, 1, 3})}) v.push_back(m);
    l->msgs(v, send);
    l->add(3, [](uint64_t k) { stepAction(*w, *r, k, FL); }, [](uint64_t k) { return std::string(k == 0 ? "change mode" : k == 1 ? "renegotiate" : "enumerate"); });
    l->add(1, [](uint64_t) { stepTime(*w, *r, 100, FL); }, [](uint64_t) { return std::string("100 ms"); });
    l->add(1, [](uint64_t) { restart(); }, [](uint64_t) { return std::string("restart"); });
    l->add(2, [](uint64_t k) { w->cfg->setEventAck(k); r->eventAck = k; }, [](uint64_t k) { return std::string(k ? "event acknowledge on" : "event acknowledge off"); });
    l->add(1, [](uint64_t k) { w->cfg->clearResetFlag(); r->resetFlag = false; }, [](uint64_t k) { return std::string("clear reset indication"); });
    l->add(2, [](uint64_t k) { uint8_t d[3] = {1, 2, 3}; stepProduce(*w, *r, k, k + 1, 0, d, FL); }, [](uint64_t k) { return "produce " + std::to_string(k + 1); });
    auto s = scen("histories", mc::pick(3, 5), l, 8, [](int k) { boot(k >= 6 ? 7 : k >> 1, k & 1); }, [=](int k) { return cname(k >= 6 ? 7 : k >> 1) + (k >= 6 ? ", variables behind the events" : "") + (k & 1 ? " normal" : " factory"); });
    s.finish = twice; sc.push_back(s);
    s.name = "histories (deep)"; s.depth = mc::pick(8, 12); s.nconfigs = 2; s.key = [] { uint8_t c = w->cfg->isResetFlagSet(); return mc::hash(&c, 1, nodeKey(*w, *r)) + r->resetDone; }; s.finish = nullptr;
    s.apply = [](uint64_t op) { static OpList *L = l; L->run(op); };
    sc.push_back(s);
    sc.back().finish = twice;
  }
  {
    // blank storage, whatever the bytes that do not mark it as blank
    static OpList *l = new OpList;
    l->add(96 * 256, [](uint64_t k) {
      w->powerOff();
      unsigned a = k >> 8, v = k & 255;
      memset(w->st->mem, 0xFF, w->st->size);
      if (a < w->st->size && a != 0 && a != 2 && a != 3) w->st->mem[a] = v;
      w->boot(); RefNode n; n.init(r->c); syncRef(*w, n); n.provision = r->c.prod; n.resetFlag = false; *r = n;
      w->settle(); clearStep(*w, *r); stepCheck(*w, *r, "first start on blank storage", CMP_ID | CMP_TABLE | NO_OUT | NO_CB); cmpAck("first start");
      restart();
    }, [](uint64_t k) { return "blank storage with byte " + std::to_string(k >> 8) + " = " + std::to_string(k & 255); });
    sc.push_back(scen("blank storage", 1, l, 5, [](int k) { boot(k == 4 ? 7 : k, false); }, [=](int k) { return cname(k == 4 ? 7 : k); }));
  }
  {
    // every value of every setting
    static OpList *l = new OpList;
    l->add(65536, [](uint64_t n) { stepAction(*w, *r, 1, FL); send(M({P::SNN, (int)(n >> 8), (int)(n & 255)})); restart(); }, [](uint64_t n) { return "node number " + std::to_string(n); });
    l->add(2 * 65536, [](uint64_t k) {
      int n = k & 65535; stepAction(*w, *r, 1, FL); send(M({P::SNN, n >> 8, n & 255}));
      if (k >> 16) { stepAction(*w, *r, 0, FL); restart(); stepAction(*w, *r, 0, FL); stepTime(*w, *r, 100, FL); restart(); }
      else { send(M({P::MODE, n >> 8, n & 255, P::M_HB_ON})); send(M({P::CANID, n >> 8, n & 255, n % 99 + 1})); send(M({P::MODE, n >> 8, n & 255, 255})); restart(); }
    }, [](uint64_t n) { return "released from number " + std::to_string(n & 65535) + (n >> 16 ? " by button" : " by request"); });
    l->add(256, [](uint64_t n) { send(M({P::CANID, A, B, (int)n})); restart(); }, [](uint64_t n) { return "CAN id " + std::to_string(n); });
    // an enumeration finds each id from each present id
    l->add(127 * 127, [](uint64_t k) {
      int was = k % 127 + 1, get = k / 127 + 1; w->cfg->setCANID(was); r->canid = was;
      stepAction(*w, *r, 2, FL);
      for (int i = 1; i < get; ++i) stepFrame(*w, *r, 0x580 | i, false, false, M({}), FL);
      stepTime(*w, *r, 100, FL); restart();
    }, [](uint64_t k) { return "enumeration from id " + std::to_string(k % 127 + 1) + " to " + std::to_string(k / 127 + 1); });
    // the settings do not depend on each other
    l->add(65536 + 256, [](uint64_t k) {
      int n = k < 65536 ? k : NN, id = k < 65536 ? 1 + k % 127 : k & 127;
      if (n == 0) return;
      stepAction(*w, *r, 1, FL); send(M({P::SNN, n >> 8, n & 255})); w->cfg->setCANID(id); r->canid = id;
      for (int f = 1; f < 4; ++f) { send(M({P::MODE, n >> 8, n & 255, f & 1 ? P::M_HB_ON : P::M_HB_OFF})); w->cfg->setEventAck(f >> 1); r->eventAck = f >> 1; if (k & 1) { w->cfg->setResetFlag(); r->resetFlag = true; } restart(); }
    }, [](uint64_t k) { return k < 65536 ? "settings with node number " + std::to_string(k) : "settings with CAN id " + std::to_string(k & 127); });
    l->add(3 * 256, [](uint64_t n) { send(M({P::NVSET, A, B, (int)(n >> 8) + 1, (int)(n & 255)})); restart(); }, [](uint64_t n) { return "variable " + std::to_string((n >> 8) + 1) + " = " + std::to_string(n & 255); });
    l->add(2 * 65536, [](uint64_t n) { send(M({P::NNLRN, A, B})); int h = n >> 8 & 255, o = n & 255; if (n >> 16) send(M({P::EVLRN, h, o, 0, 1, 2, 9})); else send(M({P::EVLRN, 1, 1, h, o, 1, 9})); restart(); send(M({P::EVULN, 1, 1, 1, 1})); }, [](uint64_t n) { return "event family " + std::to_string(n >> 16) + " value " + std::to_string(n & 65535); });
    l->add(2 * 256, [](uint64_t n) { send(M({P::NNLRN, A, B})); send(M({P::EVLRN, 1, 1, 0, 1, (int)(n >> 8) + 1, (int)(n & 255)})); restart(); }, [](uint64_t n) { return "event variable " + std::to_string((n >> 8) + 1) + " = " + std::to_string(n & 255); });
    sc.push_back(scen("every value", 1, l, 3, [](int k) { boot(k == 2 ? 7 : k ? 3 : 1, true); }, [=](int k) { return cname(k == 2 ? 7 : k ? 3 : 1); }));
  }
  {
    // big configurations filled completely
    static OpList *l = new OpList;
    l->add(16, [](uint64_t k) {
      send(M({P::NNLRN, A, B}));
      for (int i = 1; i <= r->c.numNvs; ++i) send(M({P::NVSET, A, B, i, (int)(i * 7 + k) & 255}));
      for (int i = 0; i < r->c.maxEvents; ++i) if ((i + k) % 4) for (int e = 1; e <= r->c.numEvs; e += 1 + k) send(M({P::EVLRNI, 1 + (i & 3), i, (int)k, 2, i, e, (int)(i + e + k) & 255}));
      restart();
      for (int i = k; i < r->c.maxEvents; i += 3) send(M({P::EVULN, 1 + (i & 3), i, (int)k, 2}));
      send(M({P::NNLRN, A, B}));
      for (int i = k; i < r->c.maxEvents; i += 3) send(M({P::EVULN, 1 + (i & 3), i, (int)k, 2}));
      restart();
    }, [](uint64_t k) { return "fill pattern " + std::to_string(k); });
    sc.push_back(scen("large configurations", 1, l, 4, [](int k) { boot(4 + k, true); }, [=](int k) { return cname(4 + k); }));
  }
  longer(sc, "histories", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C09", sc.data(), sc.size(), "explicit-state exploration: after every explored history the node is restarted from its storage (twice) and compared with the reference; storage must be byte-identical across the restart");
}
