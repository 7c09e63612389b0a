// C06: node variables are an exact, bounds-checked array.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static uint8_t before[512];
static bool isNV(const Msg &m) { return m.d[0] == P::NVRD || m.d[0] == P::NVSET || m.d[0] == P::NVSETRD; }
// send and compare: replies, every variable, and every storage byte
static void send(const Msg &m)
{
  memcpy(before, w->st->mem, w->st->size);
  std::vector<uint8_t> old = r->nv;
  stepMsg(*w, *r, m, NO_CB | (isNV(m) ? 0 : NO_OUT));
  for (int i = 1; i <= r->c.numNvs; ++i)
  {
    mc::countCheck();
    if (w->cfg->readNV(i) != r->nv[i - 1]) mc::fail("after %s: variable %d is %d, expected %d", str(m).c_str(), i, w->cfg->readNV(i), r->nv[i - 1]);
  }
  if (!isNV(m)) return;
  // exactly the written variable's byte differs
  int diff = 0, changed = 0;
  for (unsigned a = 0; a < w->st->size; ++a) if (before[a] != w->st->mem[a]) { ++diff; if (a < r->c.nvStart || a >= r->c.nvStart + r->c.numNvs) mc::fail("after %s: storage byte %u outside the variables changed from %d to %d", str(m).c_str(), a, before[a], w->st->mem[a]); }
  for (size_t i = 0; i < old.size(); ++i) changed += old[i] != r->nv[i];
  if (diff != changed) mc::fail("after %s: %d storage bytes changed, expected %d", str(m).c_str(), diff, changed);
  if (w->st->oob) mc::fail("after %s: access outside the storage medium", str(m).c_str());
}
static void readAll()
{
  for (int i = 0; i <= r->c.numNvs + 1; ++i) send(M({P::NVRD, A, B, i & 255}));
}
static NodeCfg cfg(int nvs, bool diag = false, int gap = 0, int nvStart = 10)
{ NodeCfg c; c.maxEvents = 2; c.numEvs = 2; c.numNvs = nvs; c.diag = diag; c.nvStart = nvStart; c.evStart = gap ? nvStart + nvs + gap : 0; return c; }
static std::vector<NodeCfg> cfgs = {cfg(0), cfg(1), cfg(2), cfg(3, true), cfg(2, false, 9), cfg(20, false, 0, 12), cfg(254), cfg(255, false, 5)};
// and one with the variables stored behind the events
static int addRev = [] { NodeCfg c = cfg(3); c.evStart = 10; c.nvStart = 10 + 2 * 6; cfgs.insert(cfgs.begin() + 5, c); return 0; }();
static std::string cname(int k) { const NodeCfg &c = cfgs[k]; return std::to_string(c.numNvs) + " variables at " + std::to_string(c.nvStart) + (c.evStart ? " with a gap before the events" : ""); }
static void boot(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  bootNormal(*w, *r, cfgs[k], NN);
  for (int i = 1; i <= r->c.numNvs; ++i) { uint8_t v = i * 37 + 5; w->cfg->writeNV(i, v); r->nv[i - 1] = v; }
  send(M({P::NNLRN, A, B}));
  send(M({P::EVLRN, 1, 1, 0, 1, 1, 7}));
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  {
    // sequences, including event teaching, resets and power cycles next to the variables
    auto list = [](int k) {
      OpList *l = new OpList; std::vector<Msg> v; int n = cfgs[k].numNvs;
      std::vector<int> ix = {0, 1, n, n + 1};
      if (n > 1) ix.push_back(2);
      for (int i : ix) { v.push_back(M({P::NVRD, A, B, i & 255})); for (int x : {0, 1, 255}) { v.push_back(M({P::NVSET, A, B, i & 255, x})); } v.push_back(M({P::NVSETRD, A, B, i & 255, 9})); }
      v.push_back(M({P::NVSET, A, B, 1})); v.push_back(M({P::NVSET, A, B + 1, 1, 77})); v.push_back(M({P::NVSET, 0, 0, 1, 78}));
      v.push_back(M({P::EVLRN, 1, 1, 0, 1, 2, 9})); v.push_back(M({P::EVLRN, 1, 1, 0, 2, 1, 0})); v.push_back(M({P::EVULN, 1, 1, 0, 1})); v.push_back(M({P::NNCLR, A, B}));
      v.push_back(M({P::SNN, A, B})); v.push_back(M({P::NNRSM, A, B})); v.push_back(M({P::CANID, A, B, 9})); v.push_back(M({P::MODE, A, B, P::M_HB_ON}));
      l->msgs(v, send);
      l->add(1, [](uint64_t) { stepRestart(*w, *r, NO_OUT | NO_CB); for (int i = 1; i <= r->c.numNvs; ++i) if (w->cfg->readNV(i) != r->nv[i - 1]) mc::fail("after restart: variable %d is %d, expected %d", i, w->cfg->readNV(i), r->nv[i - 1]); }, [](uint64_t) { return std::string("power cycle"); });
      l->add(1, [](uint64_t) { stepAction(*w, *r, 1, NO_OUT | NO_CB); }, [](uint64_t) { return std::string("renegotiate"); });
      return l;
    };
    static std::vector<OpList *> ls; for (int k = 0; k < 6; ++k) ls.push_back(list(k));
    static OpList *cur;
    mc::Scenario s; s.name = "sequences"; s.nconfigs = 6; s.depth = mc::pick(3, 4);
    s.setup = [](int k) { cur = ls[k]; boot(k); }; s.nopsOf = [](int k) { cur = ls[k]; return cur->total(); };
    s.apply = [](uint64_t o) { cur->run(o); }; s.opname = [](uint64_t o) { return cur->name(o); }; s.cfgname = cname; s.finish = readAll;
    sc.push_back(s);
    s.name = "deep sequences"; s.nconfigs = 6; s.depth = mc::pick(8, 12); s.finish = nullptr; s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    static OpList *l = new OpList;
    addSpace(*l, {{{P::NVRD, P::NVSETRD, P::NVSET}, {A}, {B}, range(0, 255), range(0, 255)}, {4, 5}}, send);
    auto s = scen("every index and value", 1, l, cfgs.size(), boot, cname); s.nconfigs = 7; sc.push_back(s);
    static OpList *l2 = new OpList;
    addSpace(*l2, {{{P::NVRD, P::NVSETRD, P::NVSET}, {A}, {B}, range(0, 255), mc::tier() == mc::QUICK ? std::vector<int>{0, 1, 127, 128, 255} : range(0, 255), {3}}, {3, 4, 5, 6, 7, 8}}, send);
    sc.push_back(scen("every index and length", 1, l2, cfgs.size(), boot, cname));
  }
  {
    // any other message leaves the variables alone (except the factory reset)
    static OpList *l = new OpList;
    addSpace(*l, {{range(0, 255), {A, 0, 1}, {B, 0, 1}, {0, 1, 2, 255}, {0, 1, 255}, {0, 1, 2, 255}, {1, 255}, {5}}, range(0, 8)}, [](const Msg &m) { if (m.len && m.d[0] == P::DTXC) return; send(m); });
    sc.push_back(scen("all opcodes", 1, l, 3, [](int k) { boot(k == 2 ? 5 : k ? 4 : 2); }, [](int k) { return cname(k == 2 ? 5 : k ? 4 : 2); }));
  }
  {
    // target node numbers
    static OpList *l = new OpList;
    for (int o : {P::NVRD, P::NVSET, P::NVSETRD}) l->add(65536, [o](uint64_t n) { send(M({o, (int)(n >> 8), (int)(n & 255), 1, 99})); }, [o](uint64_t n) { return "opcode " + std::to_string(o) + " for node " + std::to_string(n); });
    sc.push_back(scen("every target", 1, l, 2, [](int k) { boot(k ? 4 : 2); }, [](int k) { return cname(k ? 4 : 2); }));
  }
  {
    // fill all, read all, in every rotation
    static OpList *l = new OpList;
    l->add(256, [](uint64_t k) {
      int n = r->c.numNvs;
      for (int i = 0; i < n; ++i) { int ix = (i + k) % n + 1; send(M({P::NVSET, A, B, ix, (int)(ix * 3 + k) & 255})); }
      readAll();
      stepRestart(*w, *r, NO_OUT | NO_CB); readAll();
    }, [](uint64_t k) { return "fill rotation " + std::to_string(k); });
    auto s = scen("fill all variables", 1, l, cfgs.size(), boot, cname);
    s.nconfigs = 8; s.enabled = [](uint64_t k) { return r->c.numNvs > 0 && (k % mc::pick(64, 1) == 0); }; sc.push_back(s);
  }
  {
    // a reset and a first start clear every variable, however many there are
    static OpList *l = new OpList;
    l->add(256 * 3, [](uint64_t k) {
      int n = k & 255, how = k >> 8; NodeCfg c = cfg(n, false, 0, 10 + (n % 3));
      w = mc::make<NodeWorld>(); r = new RefNode;
      if (how == 2) bootFactory(*w, *r, c); else bootNormal(*w, *r, c, NN);
      auto all = [&](const char *what) { mc::countCheck(); for (int i = 1; i <= n; ++i) if (w->cfg->readNV(i) != r->nv[i - 1]) mc::fail("%s: variable %d is %d, expected %d", what, i, w->cfg->readNV(i), r->nv[i - 1]); };
      all("after the first start");
      for (int i = 1; i <= n; ++i) { w->cfg->writeNV(i, 0x80 | i); r->nv[i - 1] = 0x80 | i; }
      all("after writing");
      if (how == 0) { send(M({P::NNRSM, A, B})); all("after NNRSM"); }
      if (how == 1) { w->cfg->resetModule(); r->factoryReset(); }
      stepRestart(*w, *r, NO_OUT | NO_CB); all("after a restart");
    }, [](uint64_t k) { return std::to_string(k & 255) + " variables, reset by " + std::string(k >> 8 == 0 ? "message" : k >> 8 == 1 ? "resetModule()" : "the first start"); });
    sc.push_back(scen("every number of variables reset", 1, l, 1, [](int) { boot(0); }, nullptr));
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C06", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference array, with a byte-exact comparison of storage before and after every request");
}
