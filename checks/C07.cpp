// C07: a message addressed to another node has no effect and gets no answer.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static const int FL = NO_OUT | NO_CB;
static void send(const Msg &m) { stepMsg(*w, *r, m, FL); }
static NodeCfg cfg(bool diag, bool coe = false) { NodeCfg c; c.maxEvents = 3; c.numEvs = 2; c.numNvs = 2; c.diag = diag; c.coe = coe; c.produced = 1; return c; }

struct Shot { uint8_t mem[128]; unsigned nn; int canid, mode, hb, ack, flags, ind; uint8_t hash[8]; int restarts; };
static Shot before, after;
static void shoot(Shot &s)
{
  memset(&s, 0, sizeof s);
  memcpy(s.mem, w->st->mem, w->st->size);
  s.nn = w->cfg->nodeNum; s.canid = w->cfg->CANID; s.mode = (uint8_t)w->cfg->currentMode; s.hb = w->cfg->heartbeat; s.ack = w->cfg->eventAck;
  s.flags = w->ctl->getParam(8); s.ind = w->spy->lastMode; s.restarts = hw::restarts;
  for (int i = 0; i < r->c.maxEvents; ++i) s.hash[i] = w->cfg->getEvTableEntry(i);
}
// is the message one that carries a target node number and is not one of the protocol's exceptions in this state?
static bool addressed(const Msg &m)
{
  if (m.len < 3) return false;
  int o = m.d[0];
  if (o == P::QNN || o == P::RQNP || o == P::RQMN || o == P::DTXC) return false; // these carry no node number
  if (r->mode == P::M_SETUP && (o == P::SNN || o == P::RQNN)) return false;
  if (r->learn && (o == P::EVLRN || o == P::EVLRNI || o == P::EVULN || o == P::REQEV)) return false;
  return (m.d[1] << 8 | m.d[2]) != r->nn;
}
static void foreign(const Msg &m, bool later = false)
{
  if (!addressed(m)) return;
  mc::countCheck();
  shoot(before);
  bool hb = r->heartbeat && r->pmode == P::M_NORMAL && r->mode != P::M_SETUP;
  if (later && r->mode != P::M_UNINIT) { hw::now += 5001; w->settle(); } // start of a heartbeat period
  clearStep(*w, *r);
  w->spy->nMode = 0;
  w->can->pushMsg(m); w->settle();
  std::string s = str(m);
  auto quiet = [&](const char *when, int nout) {
    if (w->can->nout != nout) mc::fail("%s for another node: %d frames sent%s, the first %s", s.c_str(), w->can->nout, when, w->can->nout ? frameStr(w->can->out[0]).c_str() : "");
    shoot(after); after.ind = before.ind;
    if (m.d[0] == P::NNLRN) { before.flags &= ~P::F_LRN; after.flags &= ~P::F_LRN; }
    if (memcmp(before.mem, after.mem, sizeof before.mem)) { unsigned a = 0; while (before.mem[a] == after.mem[a]) ++a; mc::fail("%s for another node: storage byte %u changed from %d to %d%s", s.c_str(), a, before.mem[a], after.mem[a], when); }
    if (memcmp(&before, &after, sizeof before))
      mc::fail("%s for another node%s: number %u->%u CAN id %d->%d mode %d->%d heartbeat %d->%d ack %d->%d flags %02X->%02X restarts %d->%d", s.c_str(), when, before.nn, after.nn, before.canid, after.canid, before.mode, after.mode, before.hb, after.hb, before.ack, after.ack, before.flags, after.flags, before.restarts, after.restarts);
    if (w->spy->nMode && (uint8_t)w->spy->lastMode != r->mode) mc::fail("%s for another node: mode %d indicated", s.c_str(), w->spy->lastMode);
  };
  quiet("", 0);
  r->receive(m); r->cb.clear(); r->out.clear();
  // nothing may follow later either (enumeration end, heartbeat only if it is on)
  if (later)
  {
    hw::now += 150; w->settle(); quiet(" 150 ms later", 0);
    hw::now += 5000; w->settle(); quiet(" 5 s later", hb);
    // the mode the node is really in, seen from the bus
    w->can->nout = 0; w->can->pushMsg(M({P::RQNP})); w->settle();
    if (w->can->nout != (r->mode == P::M_SETUP)) mc::fail("%s for another node: afterwards %d answers to a setup query in mode %d", s.c_str(), w->can->nout, r->mode);
    w->can->nout = 0; w->can->pushMsg(M({P::RQMN})); w->settle();
    if (w->can->nout != (r->mode == P::M_SETUP || r->learn)) mc::fail("%s for another node: afterwards %d answers to a name query in mode %d learn %d", s.c_str(), w->can->nout, r->mode, r->learn);
  }
}
static const char *stName[] = {"normal", "normal, learning", "setup", "setup, learning", "uninitialised", "normal with heartbeat", "normal, diagnostic services and own events", "high node number", "setup from uninitialised", "normal without CAN id", "full table, number 0100", "heartbeat on, learning", "number 0004, reset indication set", "event acknowledge set, CAN id 127", "released"};
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  NodeCfg c = cfg(k == 6, k == 6);
  if (k == 4 || k == 8) { bootFactory(*w, *r, c); send(M({P::NNLRN, 0, 0})); send(M({P::EVLRN, 1, 1, 0, 1, 1, 7})); send(M({P::NNULN, 0, 0})); if (k == 8) { stepAction(*w, *r, 0, FL); stepTime(*w, *r, 200, FL); } return; }
  if (k == 10) c.maxEvents = 2;
  bootNormal(*w, *r, c, k == 7 ? 0xFFFE : k == 10 ? 0x0100 : k == 12 ? 0x0004 : NN, k == 9 ? 0 : k == 13 ? 127 : 10);
  if (k == 12) { w->st->mem[5] = 99; r->resetFlag = true; }
  if (k == 13) { w->cfg->setEventAck(true); r->eventAck = true; stepRestart(*w, *r, FL); }
  int a = r->nn >> 8, b = r->nn & 255;
  send(M({P::NNLRN, a, b})); send(M({P::EVLRN, 1, 1, 0, 1, 1, 7})); send(M({P::EVLRN, 0, 0, 0, 2, 1, 0}));
  send(M({P::NVSET, a, b, 1, 42}));
  if (k != 1 && k != 3 && k != 11) send(M({P::NNULN, a, b}));
  if (k == 5 || k == 11) send(M({P::MODE, a, b, P::M_HB_ON}));
  if (k == 2 || k == 3) stepAction(*w, *r, 1, FL);
  if (k == 14) { stepAction(*w, *r, 0, FL); stepTime(*w, *r, 200, FL); }
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(stName[k]); };
  {
    // every opcode and length for several other node numbers, with consequences in time
    static OpList *l = new OpList;
    addSpace(*l, {{range(0, 255), {0, 1, 0xFF}, {0, 1, 3, 5, 0xFF}, {0, 1, 2, 8, 9, 12, 13, 99, 255}, mc::tier() == mc::QUICK ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2, 255}, {1, 255}, {1}, {3}}, mc::tier() == mc::QUICK ? std::vector<int>{3, 4, 5, 7, 8} : range(3, 8)}, [](const Msg &m) { foreign(m, m.len != 6); });
    sc.push_back(scen("all opcodes and lengths", 1, l, 15, base, bn));
  }
  {
    // every fourth byte for the opcodes that act on it
    static OpList *l = new OpList;
    addSpace(*l, {{{P::MODE, P::CANID, P::NVSET, P::NVRD, P::NVSETRD, P::RQNPN, P::RQSD, P::RDGN, P::NENRD, P::REVAL, P::NNRSM, P::NNCLR}, {0, 1}, {4, 5}, range(0, 255), {0, 1}}, {4, 5}}, [](const Msg &m) { foreign(m, true); });
    sc.push_back(scen("every fourth byte", 1, l, 15, base, bn));
  }
  {
    static OpList *l = new OpList;
    static const int ops[] = {P::SNN, P::NNRSM, P::RQNN, P::NNREL, P::NNACK, P::NNLRN, P::NNULN, P::NNCLR, P::NNEVN, P::NERD, P::RQEVN, P::WRACK, P::ENUM, P::NNRST, P::CMDERR, P::EVNLF, P::NVRD, P::NENRD, P::RQNPN, P::NUMEV, P::CANID, P::MODE, P::RQSD, P::RDGN, P::NVSETRD, P::EVULN, P::NVSET, P::NVANS, P::REVAL, P::HEARTB, P::SD, P::GRSP, P::REQEV, P::PNN, P::EVLRN, P::EVLRNI, P::ASRQ, P::AREQ, P::ENRSP, P::ESD, P::DGN, 0x5C /*BOOT*/, 0x44 /*SSTAT*/};
    for (int o : ops) l->add(65536, [o](uint64_t n) { foreign(M({o, (int)(n >> 8), (int)(n & 255), o == P::MODE ? 255 : 1, 1, 1, 1, 1})); }, [o](uint64_t n) { char b[50]; snprintf(b, sizeof b, "opcode %02X for node %d", o, (int)n); return std::string(b); });
    auto s = scen("every target number", 1, l, mc::pick(2, 15), base, bn); sc.push_back(s);
  }
  {
    // own-addressed histories interleaved with foreign messages
    static OpList *l = new OpList; std::vector<Msg> v;
    for (Msg m : {M({P::MODE, A, B, 0}), M({P::MODE, A, B, 255}), M({P::MODE, A, B, 8}), M({P::MODE, A, B, 9}), M({P::MODE, A, B, 12}), M({P::MODE, A, B, 13}), M({P::SNN, A, B}), M({P::SNN, 0, 9}), M({P::NNLRN, A, B}), M({P::NNULN, A, B}), M({P::NNCLR, A, B}), M({P::EVLRN, 1, 1, 0, 3, 1, 4}), M({P::CANID, A, B, 9}), M({P::RQNN, 0, 0})}) v.push_back(m);
    l->msgs(v, send);
    l->add(2, [](uint64_t k) { stepAction(*w, *r, k, FL); stepTime(*w, *r, 200, FL); }, [](uint64_t k) { return std::string(k ? "renegotiate" : "change mode"); });
    l->add(1, [](uint64_t k) { stepRestart(*w, *r, FL); }, [](uint64_t k) { return std::string("power cycle"); });
    static const int T[][2] = {{0, 0}, {A, B}, {0, 9}, {A, B ^ 1}};
    std::vector<Msg> f;
    for (auto &t : T) for (Msg m : {M({P::MODE, 0, 0, 0}), M({P::MODE, 0, 0, 255}), M({P::MODE, 0, 0, 8}), M({P::MODE, 0, 0, 9}), M({P::MODE, 0, 0, 12}), M({P::MODE, 0, 0, 13}), M({P::NNRSM, 0, 0}), M({P::NNRST, 0, 0}), M({P::NNCLR, 0, 0}), M({P::NNULN, 0, 0}), M({P::NVSET, 0, 0, 1, 5}), M({P::NVSETRD, 0, 0, 1, 6}), M({P::CANID, 0, 0, 7}), M({P::ENUM, 0, 0}), M({P::EVLRN, 0, 0, 0, 1, 2, 3}), M({P::EVULN, 0, 0, 0, 1}), M({P::NERD, 0, 0}), M({P::SNN, 0, 0})})
      { m.d[1] = t[0]; m.d[2] = t[1]; f.push_back(m); }
    l->msgs(f, [](const Msg &m) { foreign(m); });
    auto s = scen("histories", mc::pick(3, 4), l, 2, [](int k) { base(k ? 4 : 0); }, [](int k) { return std::string(k ? "uninitialised" : "normal"); }); sc.push_back(s);
    s.name = "histories (deep)"; s.depth = mc::pick(6, 10); s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  longer(sc, "histories", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C07", sc.data(), sc.size(), "exhaustive exploration of the real node: every message carrying another node's number, in every explored state, must leave storage, identity, mode, flags and the bus unchanged");
}
