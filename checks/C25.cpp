// C25: factory reset returns a node to the factory state, and only on request.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
enum { FL = CMP_ID | CMP_TABLE | NO_OUT | NO_CB };
static uint8_t before[8192];
static int count(const Msg &m)
{
  int k = 0;
  for (int i = 0; i < w->can->nout && i < w->can->capOut; ++i) { const VLCB::CANFrame &f = w->can->out[i]; k += !f.rtr && !f.ext && f.len == m.len && !memcmp(f.data, m.d, m.len); }
  return k;
}
// from the state as a user can see it after the restart
static void factoryState(const char *what)
{
  mc::countCheck();
  if (w->cfg->nodeNum || w->cfg->CANID || (uint8_t)w->cfg->currentMode != P::M_UNINIT) mc::fail("%s: number %u CAN id %d mode %d", what, w->cfg->nodeNum, w->cfg->CANID, w->cfg->currentMode);
  if (w->cfg->heartbeat || w->cfg->eventAck) mc::fail("%s: heartbeat %d event acknowledge %d", what, w->cfg->heartbeat, w->cfg->eventAck);
  if (!w->cfg->isResetFlagSet()) mc::fail("%s: reset indication not set", what);
  if (w->cfg->numEvents()) mc::fail("%s: %d events left", what, w->cfg->numEvents());
  for (int i = 0; i < r->c.maxEvents; ++i) if (w->cfg->getEvTableEntry(i)) mc::fail("%s: event entry %d left", what, i);
  for (int i = 1; i <= r->c.numNvs; ++i) if (w->cfg->readNV(i)) mc::fail("%s: node variable %d is %d", what, i, w->cfg->readNV(i));
}
// messages delivered to the node, which really restarts when asked to
static void deliver(const std::vector<Msg> &v)
{
  clearStep(*w, *r);
  memcpy(before, w->st->mem, w->st->size);
  uint32_t writes = w->st->writes;
  uint16_t nn = r->nn; bool other = false;
  for (auto &m : v) { w->can->pushMsg(m); if (!r->restartAsked) r->receive(m); other |= m.d[0] != P::NNRSM && m.d[0] != P::NNRST; }
  bool restarted = false;
  hw::throwOnRestart = true;
  try { w->settle(); } catch (hw::Restart &) { restarted = true; }
  hw::throwOnRestart = false;
  mc::countCheck();
  std::string what = "after " + str(v[0]);
  if (restarted != r->restartAsked) mc::fail("%s: the module %s", what.c_str(), restarted ? "restarts" : "does not restart");
  if (!restarted)
  {
    if (!other && (w->st->writes != writes || memcmp(before, w->st->mem, w->st->size))) mc::fail("%s: storage changed", what.c_str());
    stepCheck(*w, *r, what.c_str(), FL); return;
  }
  bool reset = r->resetDone;
  Msg rel = M({P::NNREL, nn >> 8, nn & 255});
  if (!other && (v.size() == 1 ? count(rel) != reset : !count(rel) == reset)) mc::fail("%s: number released %d times before the restart", what.c_str(), count(rel));
  if (other && reset && !count(rel) && r->nn == nn) mc::fail("%s: number not released before the restart", what.c_str());
  if (!other && !reset && memcmp(before, w->st->mem, w->st->size)) mc::fail("%s: storage changed by a restart", what.c_str());
  stepRestart(*w, *r, FL);
  if (reset) { factoryState(what.c_str()); stepRestart(*w, *r, FL); factoryState("after a further restart"); }
}
static void send(const Msg &m) { deliver({m}); }
static void frame(const Msg &m, uint32_t id) { stepFrame(*w, *r, id, false, false, m, FL); }
static const char *stName[] = {"used node", "used node, number 0", "used node, number 65535", "factory fresh", "in setup", "learning", "storage full of zeros in reserved bytes, wide layout", "no events and no variables", "diagnostic services", "reversed service order", "uninitialised after release", "number 0x0401", "reset indication set", "reset indication set, number 65535", "reset indication set, number 0", "variables stored behind the events"};
enum { NST = 16 };
static void use()
{
  send(M({P::NVSET, r->nn >> 8, r->nn & 255, 1, 77})); send(M({P::NVSET, r->nn >> 8, r->nn & 255, r->c.numNvs, 255}));
  send(M({P::NNLRN, r->nn >> 8, r->nn & 255}));
  for (int i = 0; i < r->c.maxEvents; ++i) send(M({P::EVLRN, i & 1, 9, 0, i, 1, i + 1}));
  send(M({P::NNULN, r->nn >> 8, r->nn & 255}));
  send(M({P::MODE, r->nn >> 8, r->nn & 255, P::M_HB_ON}));
}
static void base(int k)
{
  hw::now = 100; hw::restarts = 0;
  w = mc::make<NodeWorld>(); r = new RefNode;
  NodeCfg c; c.maxEvents = 3; c.numEvs = 2; c.numNvs = 2; c.produced = 1; c.diag = k == 8;
  if (k == 6) { c.nvStart = 20; c.evStart = 40; c.maxEvents = 4; c.numEvs = 1; }
  if (k == 15) { c.evStart = 12; c.nvStart = 12 + 3 * 6 + 5; c.numNvs = 4; }
  if (k == 7) { c.maxEvents = 0; c.numNvs = 0; c.numEvs = 0; c.produced = 0; }
  if (k == 9) c.perm = 1;
  if (k == 3) { bootFactory(*w, *r, c); return; }
  bootNormal(*w, *r, c, k == 1 || k == 14 ? 0 : k == 2 || k == 13 ? 65535 : k == 11 ? 0x0401 : NN, 33);
  w->cfg->setEventAck(true); r->eventAck = true;
  if (k >= 12 && k <= 14) { w->cfg->setResetFlag(); r->resetFlag = true; }
  if (k != 7) use();
  if (k == 6) for (unsigned a = 0; a < w->st->size; ++a) if (a >= 6 && a < 20) w->st->mem[a] = 0;
  if (k == 4) stepAction(*w, *r, 1, FL);
  if (k == 5) send(M({P::NNLRN, A, B}));
  if (k == 10) stepAction(*w, *r, 0, FL);
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(stName[k]); };
  {
    static OpList *l = new OpList;
    l->msgs({M({P::NNRSM, A, B}), M({P::NNRSM, 0, 0}), M({P::NNRSM, 0, 9}), M({P::NNRST, A, B}), M({P::NNRST, 0, 9}), M({P::NVSET, A, B, 2, 5}), M({P::NNLRN, A, B}), M({P::EVLRN, 0, 9, 0, 7, 1, 2}), M({P::NNCLR, A, B}), M({P::MODE, A, B, P::M_HB_ON}), M({P::MODE, A, B, 255}), M({P::MODE, A, B, 0}), M({P::SNN, 0, 9}), M({P::SNN, A, B}), M({P::CANID, A, B, 44}), M({P::RQNN, 0, 0})}, send);
    l->add(2, [](uint64_t k) { stepAction(*w, *r, k, FL); }, [](uint64_t k) { return std::string(k ? "renegotiate" : "change mode"); });
    l->add(1, [](uint64_t) { stepTime(*w, *r, 100, FL); }, [](uint64_t) { return std::string("100 ms"); });
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL); }, [](uint64_t) { return std::string("power cycle"); });
    l->add(1, [](uint64_t) { stepProduce(*w, *r, true, 5, 0, nullptr, FL); }, [](uint64_t) { return std::string("produce"); });
    auto s = scen("histories", mc::pick(4, 5), l, 4, [](int k) { base((int[]){0, 3, 1, 8}[k]); }, [](int k) { return std::string(stName[(int[]){0, 3, 1, 8}[k]]); }); sc.push_back(s);
    s.name = "histories (deep)"; s.depth = mc::pick(9, 16); s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    static OpList *l = new OpList;
    l->add(65536 * 2, [](uint64_t k) { send(M({k & 1 ? P::NNRSM : P::NNRST, (int)(k >> 9), (int)(k >> 1 & 255)})); }, [](uint64_t k) { return std::string(k & 1 ? "factory reset" : "restart") + " of node " + std::to_string(k >> 1); });
    sc.push_back(scen("every node number", 1, l, NST, base, bn));
    static OpList *l2 = new OpList;
    for (int nn : {NN, 0, 9, 0x0401}) addSpace(*l2, {{range(0, 255), {nn >> 8}, {nn & 255}, {0, 1, 255}, {0, 1, 255}, {1, 255}, {1}, {1}}, {3, 4, 5, 6, 7, 8}}, send);
    sc.push_back(scen("every message", 1, l2, NST, base, bn));
  }
  {
    // the request among other waiting frames
    static OpList *l = new OpList;
    static const Msg O[] = {M({P::NNRSM, A, B}), M({P::QNN}), M({P::NVSET, A, B, 1, 9}), M({P::ACON, 0, 9, 0, 1}), M({P::NNRST, 0, 9}), M({P::RQNPN, A, B, 1})};
    l->add(6 * 6 * 6, [](uint64_t k) { deliver({O[k % 6], O[k / 6 % 6], O[k / 36]}); }, [](uint64_t k) { return "three waiting frames " + str(O[k % 6]) + str(O[k / 6 % 6]) + str(O[k / 36]); });
    sc.push_back(scen("waiting frames", 1, l, NST, base, bn));
  }
  {
    // a direct call, as sketches make when the button is held at start, from every filling of the storage
    static OpList *l = new OpList;
    l->add(256 * 2, [](uint64_t k) {
      for (unsigned a = 0; a < w->st->size; ++a) w->st->mem[a] = k & 1 ? (uint8_t)(k / 2 + a * 7) : (uint8_t)(k / 2);
      w->powerCycle(); hw::throwOnRestart = true; bool x = false;
      try { w->cfg->resetModule(); } catch (hw::Restart &) { x = true; }
      hw::throwOnRestart = false;
      if (!x) mc::fail("no restart");
      w->powerCycle(); factoryState("after a reset from arbitrary storage");
    }, [](uint64_t k) { return "storage filled with pattern " + std::to_string(k); });
    sc.push_back(scen("arbitrary storage", 1, l, 3, [](int k) { base((int[]){0, 6, 15}[k]); }, [](int k) { return std::string(stName[(int[]){0, 6, 15}[k]]); }));
    // every table shape
    static OpList *l3 = new OpList;
    l3->add(1, [](uint64_t) { use(); send(M({P::NNRSM, A, B})); }, [](uint64_t) { return std::string("use and reset"); });
    auto shape = [](int k) { hw::now = 100; w = mc::make<NodeWorld>(); r = new RefNode; static const int ne[] = {1, 2, 7, 30, 254}, nv[] = {1, 2, 9, 254, 255}, ev[] = {1, 2, 10, 20}; NodeCfg c; c.maxEvents = ne[k % 5]; c.numNvs = nv[k / 5 % 5]; c.numEvs = ev[k / 25 % 4]; if (k >= 100) { c.evStart = 10; c.nvStart = 10 + c.maxEvents * (4 + c.numEvs); } bootNormal(*w, *r, c, NN); };
    sc.push_back(scen("table shapes", 1, l3, 200, shape, [](int k) { return "shape " + std::to_string(k % 100) + (k < 100 ? "" : ", variables behind the events"); }));
  }
  longer(sc, "histories", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C25", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference model, restarts taking effect at once");
}
