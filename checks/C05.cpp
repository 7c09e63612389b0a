// C05: event status requests reach the application exactly for produced events.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static int FL = NO_OUT;
static void send(const Msg &m) { stepMsg(*w, *r, m, FL); }
static NodeCfg cfg(bool diag, bool handler = true, int max = 3) { NodeCfg c; c.maxEvents = max; c.numEvs = 2; c.numNvs = 1; c.diag = diag; c.requestHandler = handler; return c; }
static const char *baseName[] = {"produced and consumed events", "short produced events", "duplicates", "uninitialised", "no handler", "diagnostic services", "setup", "after unlearning", "own and foreign numbers"};
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  if (k == 3) { bootFactory(*w, *r, cfg(false)); send(M({P::NNLRN, 0, 0})); send(M({P::EVLRN, 1, 1, 0, 1, 1, 3})); send(M({P::EVLRN, 0, 0, 0, 2, 1, 4})); return; }
  bootNormal(*w, *r, cfg(k == 5, k != 4), NN);
  send(M({P::NNLRN, A, B}));
  switch (k)
  {
  default: send(M({P::EVLRN, 1, 1, 0, 1, 1, 7})); send(M({P::EVLRN, 0, 0, 0, 2, 1, 3})); break;
  case 0: send(M({P::EVLRN, 1, 1, 0, 1, 1, 0})); send(M({P::EVLRN, A, B, 0, 2, 1, 3})); break;
  case 1: send(M({P::EVLRN, 0, 0, 0, 1, 1, 1})); send(M({P::EVLRN, 1, 1, 0, 0x81, 1, 0})); send(M({P::EVLRN, 1, 1, 0, 1, 1, 2})); break;
  case 2: send(M({P::EVLRNI, 1, 1, 0, 1, 2, 1, 1})); send(M({P::EVLRNI, 1, 1, 0, 1, 1, 1, 0})); send(M({P::EVLRNI, 0, 0, 0, 1, 0, 1, 2})); break;
  case 7: send(M({P::EVLRN, 1, 1, 0, 1, 1, 4})); send(M({P::EVLRN, 0, 0, 0, 1, 1, 3})); send(M({P::EVULN, 1, 1, 0, 1})); break;
  case 8: send(M({P::EVLRN, A, B, 0, 1, 1, 6})); send(M({P::EVLRN, 2, 2, 0, 1, 1, 5})); send(M({P::EVLRN, 0, 0, 0, 1, 1, 4})); break;
  }
  if (k != 1) send(M({P::NNULN, A, B}));
  if (k == 6) stepAction(*w, *r, 1, FL);
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(baseName[k]); };
  {
    static OpList *l = new OpList; std::vector<Msg> v;
    int ids[4][2] = {{0x101, 1}, {0x101, 0x81}, {0, 1}, {NN, 1}};
    for (auto &i : ids)
    {
      int a = i[0] >> 8, b = i[0] & 255, e = i[1];
      v.push_back(M({P::EVLRN, a, b, 0, e, 1, 0})); v.push_back(M({P::EVLRN, a, b, 0, e, 1, 4})); v.push_back(M({P::EVLRN, a, b, 0, e, 2, 4}));
      v.push_back(M({P::EVULN, a, b, 0, e})); v.push_back(M({P::EVLRNI, a, b, 0, e, 1, 1, 5})); v.push_back(M({P::EVLRNI, a, b, 0, e, 1, 2, 5}));
      for (int o : {P::AREQ, P::ASRQ, P::ACON}) v.push_back(M({o, a, b, 0, e}));
    }
    v.push_back(M({P::NNCLR, A, B})); v.push_back(M({P::NNULN, A, B})); v.push_back(M({P::NNLRN, A, B}));
    l->msgs(v, send);
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL); }, [](uint64_t) { return std::string("power cycle"); });
    l->add(2, [](uint64_t k) { stepProduce(*w, *r, true, k ? 4 : 9, 0, nullptr, NO_OUT); }, [](uint64_t k) { return std::string(k ? "produce input 4" : "produce input 9"); });
    // respond for any entry that exists
    l->add(6, [](uint64_t k) { int i = k >> 1; if (i >= r->c.maxEvents || !r->slots[i].used) return; uint8_t d[3] = {7, 8, 9}; stepRespond(*w, *r, k & 1, i, (i + k) & 3, d, NO_CB); }, [](uint64_t k) { return "respond for entry " + std::to_string(k >> 1) + (k & 1 ? " on" : " off"); });
    auto setup = [](int k) { w = mc::make<NodeWorld>(); r = new RefNode; bootNormal(*w, *r, cfg(k == 1), NN); send(M({P::NNLRN, A, B})); };
    auto s = scen("teach and request", mc::pick(3, 4), l, 2, setup); sc.push_back(s);
    s.name = "teach and request (deep)"; s.depth = mc::pick(6, 10); s.nconfigs = 1; s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    static OpList *l = new OpList;
    auto sd = [](const Msg &m) { if (m.len && m.d[0] == P::DTXC) return; send(m); };
    addSpace(*l, {{range(0, 255), {A, 1, 0}, {B, 1, 0}, {0, 1}, {1, 2, 0x81}, {0, 255}, {8}, {9}}, range(0, 8)}, sd);
    sc.push_back(scen("all opcodes and lengths", 1, l, 9, base, bn));
  }
  {
    // sparse tables: one or two entries anywhere, every value of the first variable, other variables written too
    static OpList *l = new OpList;
    l->add(256 * 5, [](uint64_t k) {
      int max = r->c.maxEvents, e1 = k & 255, v = k >> 8, i = e1 * 5 % max, j = (i * 7 + 3) % max;
      send(M({P::EVLRNI, 3, 4, 0, 5, j, 1, e1 ^ 0x80}));
      if (v == 1) send(M({P::EVLRNI, 0, 0, 0, 9, i, 1, 1}));
      send(M({P::EVLRNI, v == 2 ? 0 : 1, v == 2 ? 0 : 1, 0, 7, i, 2, e1 ^ 0xFF}));
      send(M({P::EVLRNI, v == 2 ? 0 : 1, v == 2 ? 0 : 1, 0, 7, i, 1, e1}));
      if (v == 3) send(M({P::EVULN, 3, 4, 0, 5}));
      if (v == 4) stepProduce(*w, *r, true, e1 ^ 0x55, 0, nullptr, NO_OUT);
      for (int o : {P::AREQ, P::ASRQ}) for (int q = 0; q < 5; ++q) { int n = q == 0 ? 0x101 : q == 1 ? 0x304 : q == 2 ? 0 : NN; send(M({o, n >> 8, n & 255, 0, q == 0 ? 7 : q == 1 ? 5 : q == 2 ? 7 : q - 2})); }
      if (r->slots[i].used) { uint8_t d[3] = {7, 8, 9}; stepRespond(*w, *r, k & 1, i, e1 & 3, d, NO_CB); }
    }, [](uint64_t k) { return "sparse table, EV1 " + std::to_string(k & 255) + " variant " + std::to_string(k >> 8); });
    sc.push_back(scen("sparse tables", 1, l, 4, [](int c) {
      w = mc::make<NodeWorld>(); r = new RefNode; static const int mx[] = {8, 254, 128, 31}; bootNormal(*w, *r, cfg(c & 1, true, mx[c]), NN); send(M({P::NNLRN, A, B})); FL = NO_OUT;
    }));
  }
  {
    // every place of a full table, with several sizes of entries
    static OpList *l = new OpList; static const int SZ[][2] = {{255, 1}, {255, 2}, {254, 3}, {200, 20}, {128, 5}, {127, 10}, {64, 64}};
    l->add(255 * 4, [](uint64_t k) {
      int i = k / 4, f = k % 4; if (i >= r->c.maxEvents) return;
      send(M({P::EVLRNI, f == 3 ? 0 : 2, f == 3 ? 0 : i, 1, i, i, 1, f == 0 ? 0 : f == 1 ? i : 255 - i}));
      for (int o : {P::AREQ, P::ASRQ}) { send(M({o, 2, i, 1, i})); send(M({o, 0, 0, 1, i})); send(M({o, A, B, 1, i})); send(M({o, 2, i + 1, 1, i + 1})); }
      for (int b = 0; b < 32; ++b) { uint32_t id = ((f == 3 ? 0 : 2u << 24 | i << 16) | 0x100 | i) ^ (1u << b); send(M({P::AREQ, id >> 24, id >> 16 & 255, id >> 8 & 255, id & 255})); } // near misses
      uint8_t d[3] = {7, 8, 9}; for (int n = 0; n < 4; ++n) stepRespond(*w, *r, n & 1, i, n, d, NO_CB);
    }, [](uint64_t k) { return "entry " + std::to_string(k / 4) + " variant " + std::to_string(k % 4); });
    sc.push_back(scen("every place", 1, l, 7, [](int c) {
      w = mc::make<NodeWorld>(); r = new RefNode; NodeCfg g = cfg(c & 1, true, SZ[c][0]); g.numEvs = SZ[c][1]; bootNormal(*w, *r, g, NN); send(M({P::NNLRN, A, B})); FL = NO_OUT;
      for (int i = 0; i < g.maxEvents; ++i) send(M({P::EVLRNI, 2, i, 1, i, i, 1, i * 5 & 255}));
      FL = NO_OUT;
    }, [](int c) { return std::to_string(SZ[c][0]) + " entries of " + std::to_string(SZ[c][1]) + " variables"; }));
  }
  {
    static OpList *l = new OpList;
    for (int o : {P::AREQ, P::ASRQ}) for (int f = 0; f < 4; ++f)
      l->add(65536, [o, f](uint64_t v) {
        int n = f == 0 ? v : f == 1 ? 0x0101 : f == 2 ? 0 : NN, e = f == 0 ? 1 : v;
        send(M({o, n >> 8, n & 255, e >> 8, e & 255}));
      }, [o, f](uint64_t v) { char b[60]; snprintf(b, sizeof b, "opcode %02X family %d value %04X", o, f, (int)v); return std::string(b); });
    sc.push_back(scen("all identities", 1, l, 9, base, bn));
  }
  {
    // own node number varies over its whole range
    static OpList *l = new OpList;
    l->add(65535, [](uint64_t n) {
      send(M({P::SNN, (int)(n >> 8), (int)(n & 255)}));
      for (int t : {(int)n, (int)(n ^ 1), 0, (int)(n ^ 0x100)}) send(M({P::ASRQ, t >> 8 & 255, t & 255, 0, 2}));
      send(M({P::AREQ, (int)(n >> 8), (int)(n & 255), 0, 2}));
    }, [](uint64_t n) { return "own number " + std::to_string(n); });
    sc.push_back(scen("all own numbers", 1, l, 1, [](int) { base(8); send(M({P::NNLRN, A, B})); send(M({P::EVLRN, 0, 0, 0, 2, 1, 9})); stepAction(*w, *r, 1, FL); }));
  }
  {
    // responses: every form, every data value, for every entry
    static OpList *l = new OpList;
    l->add(3 * 8, [](uint64_t k) { uint8_t d[3] = {7, 8, 9}; stepRespond(*w, *r, k & 1, k >> 3, k >> 1 & 3, d, NO_CB); }, [](uint64_t k) { return "respond for entry " + std::to_string(k >> 3) + " form " + std::to_string(k & 7); });
    l->add(256 * 12, [](uint64_t k) { uint8_t d[3] = {1, 2, 3}; int nd = (k >> 8) % 6 / 2 + 1, p = (k >> 8) % 3; if (p >= nd) return; d[p] = k; stepRespond(*w, *r, k >> 8 & 1, (k >> 8) / 6 * 2, nd, d, NO_CB); },
           [](uint64_t k) { return "data value " + std::to_string(k & 255) + " variant " + std::to_string(k >> 8); });
    l->add(512 * 12, [](uint64_t k) {
      static const uint8_t bv[] = {0, 1, 2, 0x7F, 0x80, 0xAA, 0xFE, 0xFF}; uint8_t d[3] = {bv[k & 7], bv[k >> 3 & 7], bv[k >> 6 & 7]}; int v = k >> 9;
      stepRespond(*w, *r, v & 1, v / 6 * 2, v / 2 % 3 + 1, d, NO_CB);
    }, [](uint64_t k) { return "data combination " + std::to_string(k); });
    sc.push_back(scen("responses", 1, l, 2, [](int k) { base(k ? 8 : 1); }));
  }
  {
    // responses of every form for every identity an entry can have
    static OpList *l = new OpList;
    for (int f = 0; f < 5; ++f)
      l->add(65536, [f](uint64_t v) {
        static const int other[5] = {1, 0x0101, 0, NN, 0x00FF};
        int n = f == 0 ? v : other[f], e = f == 0 ? 0x0201 : v;
        if (n == 0xFFFF && e == 0xFFFF) return;
        send(M({P::EVLRNI, n >> 8, n & 255, e >> 8, e & 255, 1, 1, 4}));
        uint8_t d[3] = {7, 8, 9};
        for (int k = 0; k < 8; ++k) stepRespond(*w, *r, k & 1, 1, k >> 1, d, NO_CB);
        for (int o : {P::AREQ, P::ASRQ}) { send(M({o, n >> 8, n & 255, e >> 8, e & 255})); send(M({o, A, B, e >> 8, e & 255})); }
      }, [f](uint64_t v) { char b[60]; snprintf(b, sizeof b, "responses, family %d identity part %04X", f, (int)v); return std::string(b); });
    sc.push_back(scen("responses for all identities", 1, l, 1, [](int) { base(1); }));
  }
  {
    // the callback answers at once, as applications do
    static OpList *l = new OpList;
    addSpace(*l, {{{P::AREQ, P::ASRQ}, {0, 1, A, 2}, {0, 1, B, 2}, {0}, {1, 2, 0x81}}, {5}}, [](const Msg &m) {
      clearStep(*w, *r); w->can->pushMsg(m); w->settle(); r->receive(m);
      for (auto &c : r->cb) { uint8_t d[3] = {c.index, 1, 2}; r->respond(c.index & 1, c.index, 1, d); }
      compareOut(*w, *r, ("after " + str(m)).c_str()); compareCallbacks(*r, ("after " + str(m)).c_str());
    });
    sc.push_back(scen("answering callback", 1, l, 9, [](int k) { base(k); g_onEvent = [](uint8_t kind, uint8_t index, const VLCB::VlcbMessage *) { if (kind == 2) w->eps->sendEventResponse(index & 1, index, index); }; }, bn));
  }
  longer(sc, "teach and request", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C05", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference table and callback log");
}
