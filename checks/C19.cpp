// C19: no message can corrupt memory or storage or stop the node.  Runs on a
// build with address and bounds instrumentation; the heap arena is poisoned
// outside live allocations.
#include "world.h"
#include "alpha.h"
static NodeWorld *w;
static unsigned g_sum;
static void lmGot(void *p, unsigned int len, uint8_t stream, uint8_t status) { for (unsigned i = 0; i < len; ++i) g_sum += ((uint8_t *)p)[i]; }
static void lmGotB(void *p, const unsigned int len, const byte stream, const byte status) { lmGot(p, len, stream, status); }
static void subscribe();
static void restartIfAsked()
{
  if (hw::restarts) { hw::restarts = 0; w->powerCycle(); subscribe(); }
}
static uint8_t *g_streams, *g_buf;
static void subscribe()
{
  g_streams = (uint8_t *)mc::arenaAlloc(3, true); g_streams[0] = 1; g_streams[1] = 2; g_streams[2] = 200;
  g_buf = (uint8_t *)mc::arenaAlloc(12, true);
  if (w->lms) w->lms->subscribe(g_streams, 3, g_buf, 12, lmGotB);
  if (w->lmx) { w->lmx->allocateContexts(2, 12, 2); w->lmx->use_crc(w->c.perm & 1); w->lmx->subscribe(g_streams, 3, lmGotB); }
}
static int count(int opc) { int k = 0; for (int i = 0; i < w->can->nout && i < w->can->capOut; ++i) k += w->can->out[i].len && w->can->out[i].data[0] == opc; return k; }
// storage windows and liveness
static void judge(bool probe = true)
{
  mc::countCheck();
  if (w->st->oob) mc::fail("%u storage accesses outside the medium", w->st->oob);
  if (w->st->outside) mc::fail("storage write at address %u, outside the identity, variable and event areas", w->st->outsideAddr);
  if (!probe) return;
  // still answers a query
  w->can->nout = 0;
  w->can->pushMsg(M({P::QNN}));
  w->settle();
  if (count(P::PNN) != (w->cfg->nodeNum != 0)) mc::fail("node no longer answers a query");
  int nn = w->cfg->nodeNum;
  w->can->nout = 0;
  w->can->pushMsg(M({P::RQNPN, nn >> 8, nn & 255, 5}));
  w->settle();
  if (count(P::PARAN) != 1 || w->can->out[0].data[4] != w->c.numEvs) mc::fail("node no longer reports its parameters");
  // still handles an event
  for (int i = 0; i < w->c.maxEvents; ++i)
    if (w->cfg->getEvTableEntry(i))
    {
      byte id[4]; w->cfg->readEvent(i, id);
      if (w->ecs)
      {
        g_ncb = 0; w->can->nout = 0;
        w->can->pushMsg(M({id[0] || id[1] ? P::ACON : P::ASON, id[0], id[1], id[2], id[3]}));
        w->settle();
        if (g_ncb != 1) mc::fail("event %d:%d in the table no longer reaches the application", id[0] << 8 | id[1], id[2] << 8 | id[3]);
      }
      break;
    }
  g_ncb = 0; w->can->nout = 0;
}
static bool g_probe = true;
static void run(const Msg &m)
{
  w->can->nout = 0; g_ncb = 0;
  w->can->pushMsg(m);
  w->settle();
  if (w->lms) w->lms->process(); if (w->lmx) w->lmx->process();
  restartIfAsked();
  judge(g_probe);
}
static void frame(unsigned id, bool ext, bool rtr, const Msg &m)
{
  VLCB::CANFrame f; memset(&f, 0xEE, sizeof f); f.id = id; f.ext = ext; f.rtr = rtr; f.len = m.len; memcpy(f.data, m.d, m.len);
  w->can->nout = 0; g_ncb = 0; w->can->push(f); w->settle(); restartIfAsked(); judge(g_probe);
}
// layouts: gaps between the areas, so that a stray write lands where it is noticed
static NodeCfg layout(int k)
{
  NodeCfg c; c.maxEvents = 3; c.numEvs = 2; c.numNvs = 3; c.nvStart = 13; c.evStart = 22; c.coe = true; c.longm = 1;
  switch (k)
  {
  case 1: c.evStart = 13; c.nvStart = 40; c.longm = 2; c.perm = 1; break;       // events before variables
  case 2: c.maxEvents = 0; c.numEvs = 0; c.numNvs = 0; c.longm = 0; break;      // nothing at all
  case 3: c.numEvs = 0; c.numNvs = 1; c.longm = 2; break;
  case 4: c.maxEvents = 1; c.numEvs = 4; c.diag = false; break;
  case 5: c.maxEvents = 255; c.numEvs = 2; c.numNvs = 255; c.nvStart = 13; c.evStart = 280; break;
  case 6: c.maxEvents = 20; c.numEvs = 20; c.numNvs = 10; c.evStart = 30; c.produced = 4; break;
  }
  return c;
}
enum { NLAY = 7, NST = 8 };
static const char *stName[] = {"normal, learning, table empty", "normal, learning, table full", "normal, table half full", "factory fresh", "setup", "enumerating", "released", "restarted with the table full"};
static void base(int cfg)
{
  int lay = cfg / NST, st = cfg % NST;
  w = mc::make<NodeWorld>(); hw::now = 1000; g_ncb = 0; hw::restarts = 0;
  NodeCfg c = layout(lay);
  RefNode r;
  if (st == 3) bootFactory(*w, r, c); else bootNormal(*w, r, c, 0x0104);
  FakeStorage &s = *w->st;
  s.mask = (uint8_t *)mc::arenaAlloc(s.size, true);
  for (int i = 0; i < 6; ++i) s.mask[i] = 1;
  for (int i = 0; i < c.numNvs; ++i) s.mask[c.nvStart + i] = 1;
  for (int i = 0; i < c.maxEvents * (4 + c.numEvs); ++i) s.mask[c.effEvStart() + i] = 1;
  for (unsigned i = 6; i < s.size; ++i) if (!s.mask[i]) s.mem[i] = 0x5A;
  subscribe();
  auto q = [](const Msg &m) { w->can->pushMsg(m); w->settle(); w->can->nout = 0; g_ncb = 0; };
  int fill = st == 1 || st == 7 ? c.maxEvents : st == 2 ? c.maxEvents / 2 : 0;
  if (fill)
  {
    q(M({P::NNLRN, 1, 4}));
    for (int i = 0; i < fill; ++i) q(M({P::EVLRN, i & 1, 4 + (i & 1), 0, i, 1, i + 1}));
    if (st != 1) q(M({P::NNULN, 1, 4}));
  }
  if (st == 0) q(M({P::NNLRN, 1, 4}));
  if (st == 4) q(M({P::MODE, 1, 4, 0}));
  if (st == 5) { w->ctl->putAction(VLCB::ACT_START_CAN_ENUMERATION); w->settle(); w->can->nout = 0; }
  if (st == 6) q(M({P::MODE, 1, 4, 0xFF}));
  if (st == 7) { w->powerCycle(); subscribe(); }
  w->st->oob = w->st->outside = 0;
}
static std::string baseName(int cfg) { char b[100]; snprintf(b, sizeof b, "layout %d, %s", cfg / NST, stName[cfg % NST]); return b; }
static const std::vector<int> OPS = {0x0D, 0x10, 0x11, 0x42, 0x4F, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5D, 0x5E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x78, 0x87, 0x8E,
  0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0xAB, 0xAC, 0xAF, 0xB0, 0xB2, 0xB5, 0xB8, 0xD0, 0xD2, 0xD3, 0xD8, 0xE9, 0xF0, 0xF2, 0xF5, 0xF8};
int main(int argc, char **argv)
{
  mc::checkArena = true;
  std::vector<mc::Scenario> sc;
  const bool thorough = mc::tier() == mc::THOROUGH;
  {
    // all opcodes, all lengths, boundary bytes
    static OpList *l = new OpList;
    auto p = [](const Msg &m) { run(m); };
    addSpace(*l, {{range(0, 255)}, {1}}, p);
    addSpace(*l, {{range(0, 255), {0, 1, 255}}, {2}}, p);
    addSpace(*l, {{range(0, 255), {0, 1, 255}, {0, 4, 255}}, {3}}, p);
    addSpace(*l, {{range(0, 255), {0, 1}, {0, 4}, range(0, 255)}, {4}}, p);
    addSpace(*l, {{range(0, 255), {1}, {4}, {0, 1, 2, 3, 4, 255}, {0, 1, 2, 3, 4, 255}}, {5}}, p);
    addSpace(*l, {{range(0, 255), {1}, {4}, {0, 3, 255}, {0, 3, 255}, {0, 1, 255}, {0, 2, 255}, {255}}, {6, 7, 8}}, p);
    addSpace(*l, {{OPS, {0, 1}, {0, 4}, {0, 1, 2, 3, 4, 255}, {0, 1, 2, 3, 4, 127, 128, 255}}, {5}}, p);
    addSpace(*l, {{OPS, {0, 1}, {0, 4}, {0, 2, 3, 255}, {0, 2, 3, 4, 255}, {0, 1, 2, 3, 4, 255}}, {6}}, p);
    addSpace(*l, {{OPS, {0, 1}, {4}, {0, 255}, {0, 2, 3, 255}, {0, 1, 2, 3, 255}, {0, 1, 255}}, {7}}, p);
    addSpace(*l, {{OPS, {0, 1}, {4}, {0, 255}, {0, 3, 255}, {0, 1, 2, 3, 255}, {0, 1, 3, 255}, {0, 1, 255}}, {8}}, p);
    l->add(1, [](uint64_t) { run(M({})); }, [](uint64_t) { return std::string("empty frame"); });
    sc.push_back(scen("every opcode and length", 1, l, thorough ? NLAY * NST : 3, [=](int k) { static const int q[] = {0, 1, NST + 3}; base(thorough ? k : q[k]); }, [=](int k) { static const int q[] = {0, 1, NST + 3}; return baseName(thorough ? k : q[k]); }));
    // the same with fewer bytes on the other layouts
    if (!thorough)
    {
      static OpList *l2 = new OpList;
      for (int len = 1; len <= 8; ++len)
        addSpace(*l2, {{OPS, {1}, {4}, {0, 3, 255}, {0, 2, 3, 255}, {0, 3, 254, 255}, {1, 2, 21}, {255}}, {len}}, p);
      sc.push_back(scen("other layouts", 1, l2, (NLAY - 2) * NST, [](int k) { base(k + 2 * NST); }, [](int k) { return baseName(k + 2 * NST); }));
    }
  }
  {
    // every byte value in every position of the messages that carry an index
    static OpList *l = new OpList;
    auto p = [](const Msg &m) { run(m); };
    for (int o : {P::NENRD, P::REVAL, P::NVRD, P::NVSET, P::NVSETRD, P::RQNPN, P::RQSD, P::RDGN, P::CANID, P::MODE}) addSpace(*l, {{{o}, {1}, {4}, range(0, 255), {0, 1, 2, 3, 4, 20, 21, 254, 255}}, {4, 5}}, p);
    for (int o : {P::EVLRN, P::EVLRNI, P::REQEV})
    {
      addSpace(*l, {{{o}, {0, 1}, {0, 4, 5}, {0}, {0, 1, 2, 200}, range(0, 255), {0, 1, 2, 3, 4, 255}, {0, 1}}, {6, 7, 8}}, p);
      addSpace(*l, {{{o}, {0, 1}, {0, 4}, {0}, {0, 1}, {0, 1, 2, 3, 254, 255}, range(0, 255), {0, 1}}, {7, 8}}, p);
    }
    sc.push_back(scen("every index", 1, l, thorough ? NLAY * NST : 3, [=](int k) { static const int q[] = {0, 1, 5 * NST + 1}; base(thorough ? k : q[k]); }, [=](int k) { static const int q[] = {0, 1, 5 * NST + 1}; return baseName(thorough ? k : q[k]); }));
  }
  {
    // pairs: every opcode after every opcode
    static OpList *l = new OpList;
    auto p = [](const Msg &m) { run(m); };
    addSpace(*l, {{range(0, 255), {1}, {4}, {0}, {0}, {1}, {1}, {1}}, {8}}, p);
    addSpace(*l, {{OPS, {1}, {4}, {255}, {255}, {255}, {255}, {255}}, {8, 5}}, p);
    addSpace(*l, {{OPS, {0}, {0}, {0}, {0}, {0}, {0}, {0}}, {8, 3, 1}}, p);
    sc.push_back(scen("pairs", 2, l, thorough ? NLAY * NST : 4, [=](int k) { static const int q[] = {0, 1, NST + 3, 6 * NST + 5}; base(thorough ? k : q[k]); }, [=](int k) { static const int q[] = {0, 1, NST + 3, 6 * NST + 5}; return baseName(thorough ? k : q[k]); }));
  }
  {
    // longer sequences over the operations that change state, with the application producing events
    static OpList *l = new OpList;
    auto p = [](const Msg &m) { run(m); };
    l->msgs({M({P::NNLRN, 1, 4}), M({P::NNULN, 1, 4}), M({P::NNCLR, 1, 4}), M({P::EVLRN, 1, 4, 0, 1, 1, 1}), M({P::EVLRN, 0, 0, 0, 2, 2, 0}), M({P::EVLRN, 255, 255, 255, 255, 1, 3}), M({P::EVLRN, 1, 4, 0, 7, 1, 1}), M({P::EVLRN, 7, 7, 0, 9, 0, 1}), M({P::EVLRN, 7, 7, 0, 9, 255, 1}),
             M({P::EVLRNI, 1, 4, 0, 1, 0, 1, 9}), M({P::EVLRNI, 0, 0, 0, 0, 2, 2, 9}), M({P::EVLRNI, 255, 255, 255, 255, 1, 1, 1}), M({P::EVLRNI, 1, 4, 0, 5, 3, 1, 9}), M({P::EVLRNI, 1, 4, 0, 5, 255, 1, 9}), M({P::EVULN, 1, 4, 0, 1}), M({P::EVULN, 0, 0, 0, 2}), M({P::EVULN, 255, 255, 255, 255}), M({P::NERD, 1, 4}),
             M({P::SNN, 0, 9}), M({P::SNN, 0, 0}), M({P::MODE, 1, 4, 0}), M({P::MODE, 1, 4, 255}), M({P::NNRSM, 1, 4}), M({P::NNRST, 1, 4}), M({P::ENUM, 1, 4}), M({P::CANID, 1, 4, 99}), M({P::NVSET, 1, 4, 3, 7}), M({P::AREQ, 255, 255, 255, 255}), M({P::ACON, 255, 255, 255, 255}), M({P::ASRQ, 1, 4, 0, 2}),
             M({P::DTXC, 1, 0, 0, 13, 0, 0, 0}), M({P::DTXC, 1, 1, 1, 2, 3, 4, 5}), M({P::DTXC, 1, 2, 1, 2, 3, 4, 5}), M({P::DTXC, 1, 3, 1, 2, 3, 4, 5}), M({P::DTXC, 200, 0, 255, 255, 1, 1, 1}), M({P::DTXC, 200, 1}), M({P::DTXC}), M({P::DTXC, 9, 0, 0, 1, 0, 0, 0})}, p);
    l->add(4, [](uint64_t k) { static const int v[] = {1, 2, 0, 255}; if (w->eps) { w->can->nout = 0; w->eps->sendEvent(true, v[k], 1, 2, 3); w->settle(); judge(); } }, [](uint64_t k) { return "produce #" + std::to_string(k); });
    l->add(2, [](uint64_t k) { w->ctl->putAction(k ? VLCB::ACT_RENEGOTIATE : VLCB::ACT_CHANGE_MODE); w->settle(); judge(); }, [](uint64_t k) { return std::string(k ? "renegotiate" : "change mode"); });
    l->add(1, [](uint64_t) { hw::now += 100; w->settle(); judge(); }, [](uint64_t) { return std::string("100 ms"); });
    l->add(5, [](uint64_t k) { static const unsigned id[] = {0, 127, 5, 0x7FF, 0x5FF}; frame(id[k], k == 4, false, M({})); }, [](uint64_t k) { return "empty frame #" + std::to_string(k); });
    sc.push_back(scen("sequences", thorough ? 4 : 3, l, thorough ? NLAY * 3 : 6, [=](int k) { static const int s[] = {0, 1, 3}; base(k / 3 * NST + s[k % 3]); }, [=](int k) { static const int s[] = {0, 1, 3}; return baseName(k / 3 * NST + s[k % 3]); }));
  }
  {
    // long message fragments of every stream, sequence number and length against the subscriptions
    static OpList *l = new OpList;
    auto go = [](uint64_t k) {
      int declared = k % 40; k /= 40; int stream = (k % 4 == 3) ? 200 : (int)(k % 4); k /= 4; int nfr = k % 9; k /= 9; int shrt = k % 4;
      g_probe = false;
      run(M({P::DTXC, stream, 0, declared > 37 ? 255 : 0, declared == 39 ? 255 : declared, 1, 2, 0}));
      for (int i = 1; i <= nfr; ++i) { Msg m = M({P::DTXC, stream, i, i, 2, 3, 4, 5}); if (shrt && i % shrt == 0) m.len = 8 - shrt * 2; run(m); }
      g_probe = true; run(M({P::DTXC, stream, 0, 0, 1, 0, 0, 0}));
    };
    l->add(40 * 4 * 9 * 4, go, [](uint64_t k) { return "long message " + std::to_string(k); });
    static OpList *l2 = new OpList;
    l2->add(256 * 256, [](uint64_t k) { g_probe = false; run(M({P::DTXC, 1, 0, 0, 13, 0, 0, 0})); g_probe = true; run(M({P::DTXC, (int)(k >> 8), (int)(k & 255), 0, 200, 3, 4, 5})); }, [](uint64_t k) { return "stream " + std::to_string(k >> 8) + " sequence " + std::to_string(k & 255); });
    auto cfg = [](int k) { static const int q[] = {0, NST, 3 * NST, 1 * NST + 2}; return q[k]; };
    sc.push_back(scen("long message fragments", 1, l, 4, [=](int k) { base(cfg(k)); }, [=](int k) { return baseName(cfg(k)); }));
    sc.push_back(scen("every stream and sequence", 1, l2, 4, [=](int k) { base(cfg(k)); }, [=](int k) { return baseName(cfg(k)); }));
  }
  {
    // no message uses up memory: repeated, it allocates no more than it releases
    static OpList *l = new OpList;
    auto p = [](const Msg &m) {
      g_probe = false;
      size_t a = 0; unsigned c = w->cycles;
      for (int i = 0; i < 12; ++i) { if (i == 4) a = mc::arenaInUse(); run(m); hw::now += 60; }
      g_probe = true; mc::countCheck();
      if (w->cycles == c && mc::arenaInUse() != a) mc::fail("memory in use grows by %ld bytes with 8 messages %s", (long)(mc::arenaInUse() - a), str(m).c_str());
    };
    addSpace(*l, {{range(0, 255), {0, 1}, {0, 4}, {0, 1, 255}, {1, 9}, {1}, {1}, {1}}, {1, 3, 4, 5, 8}}, p);
    addSpace(*l, {{{P::DTXC}, {1, 2, 200}, {0, 1, 2}, {0}, {0, 1, 9}, {0}, {0}, {0, 1}}, {8}}, p);
    l->add(4, [](uint64_t k) { if (!w->eps) return; size_t a = 0; for (int i = 0; i < 12; ++i) { if (i == 4) a = mc::arenaInUse(); w->eps->sendEvent(i & 1, k * 85); w->settle(); w->can->nout = 0; } if (mc::arenaInUse() != a) mc::fail("memory in use grows with produced events"); }, [](uint64_t k) { return "produce " + std::to_string(k * 85); });
    l->add(3, [](uint64_t k) { size_t a = 0; for (int i = 0; i < 12; ++i) { if (i == 4) a = mc::arenaInUse(); w->ctl->putAction(k == 0 ? VLCB::ACT_RENEGOTIATE : k == 1 ? VLCB::ACT_START_CAN_ENUMERATION : VLCB::ACT_CHANGE_MODE); for (int j = 0; j < 5; ++j) { hw::now += 50; w->settle(); } w->can->nout = 0; } if (mc::arenaInUse() != a) mc::fail("memory in use grows with user actions"); }, [](uint64_t k) { return "user action " + std::to_string(k); });
    sc.push_back(scen("memory use", 1, l, thorough ? NLAY * NST : 6, [=](int k) { static const int q[] = {0, 1, NST, NST + 3, NST + 4, 6 * NST + 2}; base(thorough ? k : q[k]); }, [=](int k) { static const int q[] = {0, 1, NST, NST + 3, NST + 4, 6 * NST + 2}; return baseName(thorough ? k : q[k]); }));
  }
  {
    // every frame header
    static OpList *l = new OpList;
    l->add(2048 * 4 * 4, [](uint64_t k) {
      int id = k % 2048, len = k / 2048 % 4, kind = k / 8192;
      frame(id | (kind & 1 ? 0x1FFFF800 : 0), kind & 1, kind & 2, len == 0 ? M({}) : len == 1 ? M({0x58}) : len == 2 ? M({P::DTXC, 1, 0, 0, 9, 0, 0, 0}) : M({P::EVLRN, 1, 4, 0, 1, 1, 2, 3}));
      for (int i = 0; i < 3; ++i) { hw::now += 60; w->settle(); }
      judge();
    }, [](uint64_t k) { return "frame header " + std::to_string(k); });
    // a burst of more messages than the transport, queue or reply list can hold
    static OpList *l2 = new OpList;
    l2->add(256 * 3, [](uint64_t k) {
      for (int i = 0; i < 16; ++i) w->can->pushMsg(M({(int)(k % 256), 1, 4, 0, (int)(k / 256), (int)(k / 256), 1, 1}));
      w->settle(4000); restartIfAsked(); judge();
    }, [](uint64_t k) { return "16 at once of opcode " + std::to_string(k % 256); });
    sc.push_back(scen("every frame header", 1, l, thorough ? NST : 2, [=](int k) { base(thorough ? k : k * 5); }, [=](int k) { return baseName(thorough ? k : k * 5); }));
    sc.push_back(scen("bursts", 1, l2, NLAY * NST, [](int k) { base(k); }, [](int k) { return baseName(k); }));
  }
  return mc::run(argc, argv, "C19", sc.data(), sc.size(), "exhaustive execution of all bounded inputs and sequences on the instrumented real node");
}
