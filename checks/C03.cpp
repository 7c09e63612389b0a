// C03: an incoming event reaches the application exactly when it is taught.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static int FL = NO_OUT;
static void send(const Msg &m) { stepMsg(*w, *r, m, FL); }
static NodeCfg cfg(bool diag, bool handler = true, int max = 3) { NodeCfg c; c.maxEvents = max; c.numEvs = 2; c.numNvs = 1; c.diag = diag; c.eventHandler = handler; return c; }
static const char *baseName[] = {"two long events", "short and hash-colliding events", "duplicates", "uninitialised, taught while unnumbered", "no handler", "diagnostic services", "setup", "after unlearning", "own and foreign numbers"};
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  if (k == 3) { bootFactory(*w, *r, cfg(false)); send(M({P::NNLRN, 0, 0})); send(M({P::EVLRN, 1, 1, 0, 1, 1, 3})); send(M({P::EVLRN, 0, 0, 0, 2, 1, 0})); return; }
  bootNormal(*w, *r, cfg(k == 5, k != 4), NN);
  send(M({P::NNLRN, A, B}));
  switch (k)
  {
  default: send(M({P::EVLRN, 1, 1, 0, 1, 1, 0})); send(M({P::EVLRN, 0, 0, 0, 2, 1, 3})); break;
  case 0: send(M({P::EVLRN, 1, 1, 0, 1, 1, 0})); send(M({P::EVLRN, A, B, 0, 2, 1, 3})); break;
  case 1: send(M({P::EVLRN, 0, 0, 0, 1, 1, 0})); send(M({P::EVLRN, 1, 1, 0, 0x81, 1, 0})); send(M({P::EVLRN, 1, 1, 0, 1, 2, 3})); break;
  case 2: send(M({P::EVLRNI, 1, 1, 0, 1, 2, 1, 1})); send(M({P::EVLRNI, 1, 1, 0, 1, 1, 1, 2})); send(M({P::EVLRNI, 0, 0, 0, 1, 0, 1, 2})); break;
  case 7: send(M({P::EVLRN, 1, 1, 0, 1, 1, 0})); send(M({P::EVLRN, 0, 0, 0, 1, 1, 3})); send(M({P::EVULN, 1, 1, 0, 1})); break;
  case 8: send(M({P::EVLRN, A, B, 0, 1, 1, 0})); send(M({P::EVLRN, 2, 2, 0, 1, 1, 0})); send(M({P::EVLRN, 0, 0, 0, 1, 1, 0})); break;
  }
  if (k != 1) send(M({P::NNULN, A, B}));
  if (k == 6) stepAction(*w, *r, 1, FL);
}
static const std::vector<int> EVT = {P::ACON, P::ACOF, P::ASON, P::ASOF, P::ACON1, P::ACOF1, P::ASON1, P::ASOF1, P::ACON2, P::ACOF2, P::ASON2, P::ASOF2, P::ACON3, P::ACOF3, P::ASON3, P::ASOF3, P::ARON, P::AROF,
  P::ARSON, P::ARSOF, P::ARON1, P::AROF1, P::ARSON1, P::ARSOF1, P::ARON2, P::AROF2, P::ARSON2, P::ARSOF2, P::ARON3, P::AROF3, P::ARSON3, P::ARSOF3, P::AREQ, P::ASRQ};
static int lenOf(int opc) { return opc < 0xB0 ? 5 : opc < 0xD0 ? 6 : opc < 0xF0 ? 7 : 8; }
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(baseName[k]); };
  {
    // teach/unlearn histories interleaved with events
    static OpList *l = new OpList; std::vector<Msg> v;
    int ids[4][2] = {{0x101, 1}, {0x101, 0x81}, {0, 1}, {NN, 1}};
    for (auto &i : ids)
    {
      int a = i[0] >> 8, b = i[0] & 255, e = i[1];
      v.push_back(M({P::EVLRN, a, b, 0, e, 1, 0})); v.push_back(M({P::EVLRN, a, b, 0, e, 1, 4})); v.push_back(M({P::EVLRN, a, b, 0, e, 2, 4}));
      v.push_back(M({P::EVULN, a, b, 0, e})); v.push_back(M({P::EVLRNI, a, b, 0, e, 1, 1, 4})); v.push_back(M({P::EVLRNI, a, b, 0, e, 1, 2, 4}));
      for (int o : {P::ACON, P::ASOF, P::ACOF3, P::AROF}) { Msg m = M({o, a, b, 0, e, 7, 8, 9}); m.len = lenOf(o); v.push_back(m); }
    }
    v.push_back(M({P::NNCLR, A, B})); v.push_back(M({P::NNULN, A, B})); v.push_back(M({P::NNLRN, A, B}));
    l->msgs(v, send);
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL); }, [](uint64_t) { return std::string("power cycle"); });
    l->add(2, [](uint64_t k) { stepProduce(*w, *r, true, k ? 4 : 9, 0, nullptr, NO_OUT); }, [](uint64_t k) { return std::string(k ? "produce input 4" : "produce input 9"); });
    auto setup = [](int k) { w = mc::make<NodeWorld>(); r = new RefNode; bootNormal(*w, *r, cfg(k == 1), NN); send(M({P::NNLRN, A, B})); };
    auto s = scen("teach and consume", mc::pick(3, 4), l, 2, setup); sc.push_back(s);
    s.name = "teach and consume (deep)"; s.depth = mc::pick(6, 10); s.nconfigs = 1; s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    static OpList *l = new OpList;
    auto sd = [](const Msg &m) { if (m.len && m.d[0] == P::DTXC) return; send(m); };
    addSpace(*l, {{range(0, 255), {A, 1, 0}, {B, 1, 0}, {0, 1}, {1, 2, 0x81}, {0, 255}, {8}, {9}}, range(0, 8)}, sd);
    sc.push_back(scen("all opcodes and lengths", 1, l, 9, base, bn));
  }
  {
    // sparse tables: one or two entries anywhere, written by index or left over by unlearning, with any first variable written
    static OpList *l = new OpList;
    l->add(254 * 6, [](uint64_t k) {
      int max = r->c.maxEvents, i = k / 6 % max, v = k % 6, j = (i * 7 + 3) % max;
      send(M({P::EVLRNI, 3, 4, 0, 5, j, 1, 0}));
      if (v == 1) send(M({P::EVLRNI, 0, 0, 0, 9, i, 1, 1}));
      send(M({P::EVLRNI, v == 2 ? 0 : 1, v == 2 ? 0 : 1, 0, 7, i, v & 1 ? 2 : 1, v})); // may overwrite the other entry
      if (v == 4) send(M({P::EVULN, 3, 4, 0, 5}));
      if (v == 5) send(M({P::EVLRN, 6, 6, 0, 6, 1, 0}));
      for (int o : {P::ACON, P::AROF, P::ASON}) for (int q = 0; q < 4; ++q) { int n = q == 0 ? 0x101 : q == 1 ? 0x304 : q == 2 ? 0x606 : 0; send(M({o, n >> 8, n & 255, 0, q == 0 ? 7 : q == 1 ? 5 : q == 2 ? 6 : 9})); }
      for (int b = 0; b < 32; ++b) { uint32_t id = (v == 2 ? 0x00010007u : 0x01010007u) ^ (1u << b); send(M({b & 1 ? P::ACOF : P::ACON, id >> 24, id >> 16 & 255, id >> 8 & 255, id & 255})); } // near misses
    }, [](uint64_t k) { return "sparse table, entry " + std::to_string(k / 6) + " variant " + std::to_string(k % 6); });
    sc.push_back(scen("sparse tables", 1, l, 4, [](int c) {
      w = mc::make<NodeWorld>(); r = new RefNode; static const int mx[] = {8, 254, 128, 31}; bootNormal(*w, *r, cfg(c & 1, true, mx[c]), NN); send(M({P::NNLRN, A, B})); FL = NO_OUT;
    }));
  }
  {
    // tables full of identities that the hash cannot tell apart
    static OpList *l = new OpList; static const int C[] = {0, 1, 0xFF}, D[] = {0, 0x55};
    l->add(256 * 6, [](uint64_t k) {
      int x = k & 255, c = C[k / 256 % 3], d = D[k / 768]; auto nh = [x](int j) { return (x + j) & 255; };
      for (int j = 0; j < 8; ++j) { int e = j * 3; send(M({P::EVLRNI, nh(j), nh(j) ^ c, e, e ^ d, k & 1 ? 7 - j : j, 1, j & 1 ? 0 : 4})); }
      for (int j = 0; j < 9; ++j) { int e = j * 3; send(M({j & 1 ? P::AROF : P::ACON, nh(j), nh(j) ^ c, e, e ^ d})); send(M({P::ASON, nh(j), nh(j) ^ c, e, e ^ d})); send(M({P::ACOF, nh(j), nh(j) ^ c, e + 1, (e + 1) ^ d})); }
    }, [](uint64_t k) { return "colliding entries " + std::to_string(k); });
    sc.push_back(scen("colliding entries", 1, l, 2, [](int c) { w = mc::make<NodeWorld>(); r = new RefNode; bootNormal(*w, *r, cfg(c & 1, true, 8), NN); send(M({P::NNLRN, A, B})); FL = NO_OUT; }));
  }
  {
    // every node number and every event number for every event form
    static OpList *l = new OpList;
    for (int o : EVT)
    {
      l->add(3 * 65536, [o](uint64_t k) {
        int v = k & 0xFFFF, f = k >> 16; int n = f == 0 ? v : f == 1 ? 0x0101 : 0, e = f == 0 ? 1 : v;
        Msg m = M({o, n >> 8, n & 255, e >> 8, e & 255, v & 255, 0x55, 0xAA}); m.len = lenOf(o); send(m);
      }, [o](uint64_t k) { char b[60]; snprintf(b, sizeof b, "opcode %02X family %d value %04X", o, (int)(k >> 16), (int)(k & 0xFFFF)); return std::string(b); });
    }
    auto s = scen("all identities", 1, l, mc::pick(1, 4), [](int k) { base(k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 8 : 5); FL = NO_OUT; });
    sc.push_back(s);
  }
  {
    // every data byte is passed on unmodified
    static OpList *l = new OpList;
    for (int o : {P::ACON1, P::ASOF1, P::ACOF2, P::ASON2, P::ACON3, P::ASOF3}) for (int p = 5; p < lenOf(o); ++p)
      l->add(256, [o, p](uint64_t k) { Msg m = M({o, 1, 1, 0, 1, 1, 2, 3}); m.len = lenOf(o); m.d[p] = k; send(m); }, [o, p](uint64_t k) { char b[60]; snprintf(b, sizeof b, "opcode %02X byte %d = %02X", o, p, (int)k); return std::string(b); });
    l->add(512 * 6, [](uint64_t k) {
      static const uint8_t bv[] = {0, 1, 2, 0x7F, 0x80, 0xAA, 0xFE, 0xFF}; static const int o[] = {P::ACON1, P::ASOF1, P::ACOF2, P::ASON2, P::ACON3, P::ASOF3};
      int f = k >> 9; Msg m = M({o[f], 1, 1, 0, 1, bv[k & 7], bv[k >> 3 & 7], bv[k >> 6 & 7]}); m.len = lenOf(o[f]); send(m);
    }, [](uint64_t k) { return "data combination " + std::to_string(k); });
    sc.push_back(scen("data bytes", 1, l, 3, base, bn));
  }
  {
    // a large table: each of 254 entries is found at its index, duplicates at the lowest
    static OpList *l = new OpList;
    l->add(254 * 3, [](uint64_t k) {
      int i = k / 3, f = k % 3; int n = f == 2 ? 0 : 0x200 | (i & 3), e = i >> 2;
      Msg m = M({f == 2 ? P::ASON : f ? P::AROF : P::ACON, n >> 8, n & 255, 0, e}); send(m);
    }, [](uint64_t k) { return "event of entry " + std::to_string(k / 3) + " form " + std::to_string(k % 3); });
    sc.push_back(scen("large table", 1, l, 4, [](int c) {
      w = mc::make<NodeWorld>(); r = new RefNode; bootNormal(*w, *r, cfg(false, true, c == 3 ? 127 : c == 2 ? 128 : 254), NN); FL = NO_OUT;
      send(M({P::NNLRN, A, B}));
      for (int i = 0; i < r->c.maxEvents; ++i) { int j = c == 1 ? i / 2 : i; int n = 0x200 | (j & 3); send(M({P::EVLRNI, n >> 8, n & 255, 0, j >> 2, i, 1, 0})); }
      FL = NO_OUT;
    }));
  }
  longer(sc, "teach and consume", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  const char *as[] = {"events are matched in every operating mode (the library does not restrict consumption to normal mode)"};
  return mc::run(argc, argv, "C03", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference table and callback log", as, 1);
}
