// C04: a produced event goes out exactly once with the identity taught for its input.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static int FL = CMP_TABLE | NO_CB;
static void send(const Msg &m) { stepMsg(*w, *r, m, FL | NO_OUT); }
static NodeCfg cfg(int max, int evs, int produced, bool diag) { NodeCfg c; c.maxEvents = max; c.numEvs = evs; c.numNvs = 1; c.produced = produced; c.diag = diag; c.eventHandler = c.requestHandler = false; return c; }
static const uint8_t DATA[3] = {0x31, 0x32, 0x33};
static void produceOps(OpList *l, std::vector<int> inputs, std::vector<int> nds)
{
  auto *in = new std::vector<int>(inputs); auto *nd = new std::vector<int>(nds);
  l->add(inputs.size() * nds.size() * 2, [in, nd](uint64_t k) { bool on = k & 1; k >>= 1; stepProduce(*w, *r, on, (*in)[k % in->size()], (*nd)[k / in->size()], DATA, FL); },
         [in, nd](uint64_t k) { bool on = k & 1; k >>= 1; char b[60]; snprintf(b, sizeof b, "produce %s input %d with %d data", on ? "on" : "off", (*in)[k % in->size()], (*nd)[k / in->size()]); return std::string(b); });
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto normal = [](int max, int evs, bool diag) { w = mc::make<NodeWorld>(); r = new RefNode; bootNormal(*w, *r, cfg(max, evs, 0, diag), NN); send(M({P::NNLRN, A, B})); };
  {
    static OpList *l = new OpList; std::vector<Msg> v;
    int ids[4][2] = {{0x101, 1}, {NN, 1}, {0, 1}, {NN, 2}};
    for (auto &i : ids)
    {
      int a = i[0] >> 8, b = i[0] & 255, e = i[1];
      for (int val : {0, 1, 2}) v.push_back(M({P::EVLRN, a, b, 0, e, 1, val}));
      v.push_back(M({P::EVULN, a, b, 0, e}));
    }
    v.push_back(M({P::EVLRNI, 0x01, 0x01, 0, 1, 1, 2, 5})); v.push_back(M({P::EVLRNI, A, B, 0, 3, 0, 1, 2}));
    v.push_back(M({P::NNCLR, A, B}));
    l->msgs(v, send);
    produceOps(l, {1, 2, 3}, {0, 3});
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL | NO_OUT); send(M({P::NNLRN, A, B})); }, [](uint64_t) { return std::string("power cycle"); });
    auto s = scen("teach and produce", mc::pick(4, 5), l, 3, [normal](int k) { normal(k == 2 ? 1 : 3, k == 1 ? 1 : 2, k == 1); }); sc.push_back(s);
    s.name = "teach and produce (deep)"; s.depth = mc::pick(8, 12); s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    // all inputs, all opcode forms, all data values
    static OpList *l = new OpList;
    l->add(256 * 8, [](uint64_t k) { stepProduce(*w, *r, k & 1, k >> 3, k >> 1 & 3, DATA, FL); }, [](uint64_t k) { return "produce input " + std::to_string(k >> 3) + " form " + std::to_string(k & 7); });
    l->add(256 * 12, [](uint64_t k) { uint8_t d[3] = {1, 2, 3}; int nd = (k >> 8) % 6 / 2 + 1, p = (k >> 8) % 3; if (p >= nd) return; d[p] = k; stepProduce(*w, *r, k >> 8 & 1, 4 + (k >> 8) / 6, nd, d, FL); },
           [](uint64_t k) { return "data value " + std::to_string(k & 255) + " variant " + std::to_string(k >> 8); });
    l->add(512 * 12, [](uint64_t k) {
      static const uint8_t bv[] = {0, 1, 2, 0x7F, 0x80, 0xAA, 0xFE, 0xFF}; uint8_t d[3] = {bv[k & 7], bv[k >> 3 & 7], bv[k >> 6 & 7]}; int v = k >> 9;
      stepProduce(*w, *r, v & 1, 4 + v / 6, v / 2 % 3 + 1, d, FL);
    }, [](uint64_t k) { return "data combination " + std::to_string(k); });
    auto s = scen("all inputs and data", 1, l, 4, [normal](int k) {
      normal(k == 3 ? 2 : 5, 3, k == 2);
      send(M({P::EVLRN, 1, 1, 0, 9, 1, 4})); send(M({P::EVLRN, 0, 0, 0, 9, 1, 5}));
      if (k == 1) { send(M({P::EVLRN, 7, 7, 0, 1, 2, 4})); send(M({P::EVULN, 1, 1, 0, 9})); } // left-over variable 4 in a free slot
      if (k == 2) { send(M({P::EVLRN, A, B, 0, 1, 1, 200})); send(M({P::EVLRN, A, B, 0, 2, 2, 200})); }
    }); s.dedup = false; sc.push_back(s);
  }
  {
    // every form for every identity an entry can have
    static OpList *l = new OpList;
    for (int f = 0; f < 5; ++f)
      l->add(65536, [f](uint64_t v) {
        static const int other[5] = {1, 0x0101, 0, NN, 0x00FF};
        int n = f == 0 ? v : other[f], e = f == 0 ? 0x0201 : v;
        if (n == 0xFFFF) return; // assumption below
        send(M({P::EVLRNI, n >> 8, n & 255, e >> 8, e & 255, 1, 1, 4}));
        for (int k = 0; k < 8; ++k) stepProduce(*w, *r, k & 1, 4, k >> 1, DATA, k == 7 ? FL : NO_CB);
      }, [f](uint64_t v) { char b[60]; snprintf(b, sizeof b, "produce, family %d identity part %04X", f, (int)v); return std::string(b); });
    sc.push_back(scen("all identities", 1, l, 1, [normal](int) { normal(3, 2, false); }));
  }
  {
    // the new event number is the lowest free one, whatever is already taken; every subset of 1..6
    static OpList *l = new OpList;
    l->add(64 * 3, [](uint64_t k) {
      int sub = k & 63, v = k >> 6;
      for (int i = 5; i >= 0; --i) if (sub >> i & 1) send(M({P::EVLRN, A, B, 0, i + 1, v == 0 ? 1 : 2, v == 0 ? 100 + i : 1}));
      if (v == 2) send(M({P::EVLRN, 2, 2, 0, 1, 1, 90}));
      for (int i = 0; i < 4; ++i) stepProduce(*w, *r, true, 50 + i, 0, DATA, FL);
      for (int i = 0; i < 4; ++i) stepProduce(*w, *r, false, 50 + i, 1, DATA, FL);
    }, [](uint64_t k) { return "event numbers taken " + std::to_string(k & 63) + " variant " + std::to_string(k >> 6); });
    sc.push_back(scen("lowest free event number", 1, l, 2, [normal](int k) { normal(k ? 8 : 12, 2, false); }));
  }
  {
    // tables of any filling, in any place of the storage: full, sparse, with variables stored behind the events
    static OpList *l = new OpList;
    l->add(256 * 3, [](uint64_t k) {
      int sub = k & 255, v = k >> 8, max = r->c.maxEvents;
      for (int i = 1; i <= r->c.numNvs; ++i) send(M({P::NVSET, A, B, i, v == 0 ? 10 * i : v == 1 ? 1 : 255 - i}));
      for (int i = 0; i < max && i < 8; ++i) if (sub >> i & 1) { send(M({P::EVLRNI, v == 1 ? 0 : 2, v == 1 ? 0 : 2, 0, i + 1, max < 9 ? i : i * max / 8, 1, 100 + i})); if (v == 2) send(M({P::EVLRNI, A, B, 0, i + 1, max < 9 ? i : i * max / 8, 2, 50})); }
      for (int i : {50, 1, 255, 100, 51, 107, 10}) stepProduce(*w, *r, true, i, i & 3, DATA, FL);
      for (int i : {50, 1, 255, 100, 51, 107, 10}) stepProduce(*w, *r, false, i, 0, DATA, NO_CB);
    }, [](uint64_t k) { return "filling " + std::to_string(k & 255) + " variant " + std::to_string(k >> 8); });
    sc.push_back(scen("any filling", 1, l, 6, [](int k) {
      w = mc::make<NodeWorld>(); r = new RefNode; NodeCfg c = cfg(k < 2 ? 8 : k < 4 ? 5 : k == 4 ? 40 : 200, 2, 0, k & 1); c.numNvs = 8;
      if (k != 2) { c.evStart = 10; c.nvStart = 10 + c.maxEvents * 6; }
      bootNormal(*w, *r, c, NN); send(M({P::NNLRN, A, B}));
    }));
  }
  {
    // provisioning on leaving the uninitialised state
    static OpList *l = new OpList;
    l->msgs({M({P::SNN, A, B}), M({P::SNN, 2, 2}), M({P::SNN, A}), M({P::MODE, A, B, 0}), M({P::MODE, A, B, 0xFF}), M({P::RQNN, 9, 9}), M({P::NNLRN, A, B}), M({P::EVULN, A, B, 0, 1}), M({P::EVLRN, A, B, 0, 3, 1, 2}), M({P::NNCLR, A, B})}, send);
    l->add(3, [](uint64_t k) { if (k == 2) stepRestart(*w, *r, FL | NO_OUT); else stepAction(*w, *r, k, FL | NO_OUT); }, [](uint64_t k) { static const char *n[] = {"change mode", "renegotiate", "power cycle"}; return std::string(n[k]); });
    produceOps(l, {1, 2, 3}, {0});
    auto s = scen("provisioning", mc::pick(8, 14), l, 4, [](int k) {
      w = mc::make<NodeWorld>(); r = new RefNode;
      bootFactory(*w, *r, cfg(k == 2 ? 1 : 6, 2, k == 3 ? 0 : 2, k == 1)); stepAction(*w, *r, 0, FL | NO_OUT);
    }, [](int k) { return std::string(k == 2 ? "table smaller than the number of produced events" : k == 3 ? "no declared events" : "two declared events"); });
    s.key = [] { return nodeKey(*w, *r); };
    sc.push_back(s);
  }
  {
    // any number of declared events, tables of the same size, smaller and larger
    static OpList *l = new OpList; static const int PR[] = {0, 1, 2, 3, 16, 100, 127, 128, 200, 254, 255};
    l->add(1, [](uint64_t) {
      send(M({P::SNN, A, B})); compareTable(*w, *r, "after set-up");
      for (int i : {1, 2, 15, 16, 17, 99, 127, 128, 129, 199, 200, 201, 253, 254, 255, 0}) stepProduce(*w, *r, i & 1, i, i & 3, DATA, FL);
    }, [](uint64_t) { return std::string("set up and produce"); });
    l->add(1, [](uint64_t) {
      send(M({P::NNLRN, A, B})); for (int v = 1; v <= r->c.numEvs; ++v) send(M({P::EVLRN, 5, 5, 0, 1, v, 200 + v % 50})); send(M({P::EVULN, 5, 5, 0, 1})); send(M({P::NNULN, A, B}));
      stepProduce(*w, *r, true, 77, 0, DATA, FL);
    }, [](uint64_t) { return std::string("teach, forget and produce"); });
    sc.push_back(scen("declared events", 2, l, 44, [](int k) {
      int p = PR[k / 4], m = k % 4 == 0 ? 255 : k % 4 == 1 ? (p ? p : 1) : k % 4 == 2 ? (p > 1 ? p - 1 : 1) : (p < 254 ? p + 1 : 254);
      w = mc::make<NodeWorld>(); r = new RefNode; static const int EV[] = {2, 1, 5, 12, 100, 4, 20, 251, 65}; bootFactory(*w, *r, cfg(m, EV[k % 9], p, k / 4 % 2)); stepAction(*w, *r, 0, FL | NO_OUT);
    }, [](int k) { return std::to_string(PR[k / 4]) + " declared events, table variant " + std::to_string(k % 4); }));
  }
  {
    // all node numbers: identity of default events
    static OpList *l = new OpList;
    l->add(65535, [](uint64_t n) { send(M({P::SNN, (int)(n >> 8), (int)(n & 255)})); stepProduce(*w, *r, true, 1, 0, DATA, FL); stepProduce(*w, *r, true, 9, 2, DATA, FL); }, [](uint64_t n) { return "node number " + std::to_string(n); });
    sc.push_back(scen("all node numbers", 1, l, 1, [](int) { w = mc::make<NodeWorld>(); r = new RefNode; bootFactory(*w, *r, cfg(4, 1, 1, false)); stepAction(*w, *r, 0, FL | NO_OUT); }));
  }
  {
    // filling a large table by producing
    static OpList *l = new OpList;
    l->add(4, [](uint64_t k) { int n = k == 0 ? 255 : 100; for (int i = 1; i <= n; ++i) stepProduce(*w, *r, i & 1, i, i % 4, DATA, i % 16 == 0 || i > 250 ? FL : NO_CB); for (int i = n; i > 0; i -= 3) stepProduce(*w, *r, i & 1, i, i % 4, DATA, NO_CB); compareTable(*w, *r, "at the end"); }, [](uint64_t k) { return "fill " + std::to_string(k); });
    sc.push_back(scen("large table", 1, l, 2, [normal](int k) { normal(k ? 254 : 90, 2, false); }));
  }
  longer(sc, "teach and produce", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  const char *as[] = {"with a full table and no entry for the input nothing is sent and nothing stored (there is no identity to send)", "node number FFFF is not used for produced events"};
  return mc::run(argc, argv, "C04", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference table", as, 2);
}
