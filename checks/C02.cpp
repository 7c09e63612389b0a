// C02: the event table changes only in learn mode; learn mode is precisely controlled.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static const int FL = CMP_TABLE | CMP_FLAGS | NO_CB | NO_OUT;
static void send(const Msg &m)
{
  static const uint8_t own[] = {P::NNLRN, P::NNULN, P::NNCLR, P::EVLRN, P::EVLRNI, P::EVULN, P::REQEV, P::QNN};
  bool o = m.len && memchr(own, m.d[0], sizeof own);
  stepMsg(*w, *r, m, o ? FL & ~NO_OUT : FL);
}
static NodeCfg cfg() { NodeCfg c; c.maxEvents = 3; c.numEvs = 2; c.numNvs = 2; c.diag = false; return c; }
// base states: 0 normal, 1 normal+learn, 2 uninitialised, 3 setup from blank, 4 setup from normal, 5 normal+learn with a full table
static const char *baseName[] = {"normal", "normal, learning", "uninitialised", "setup from blank", "setup from normal", "learning, full table", "normal, two events", "uninitialised, learning", "number 0, learning", "learning, reversed service order", "learning in setup"};
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  if (k == 2 || k == 3 || k == 7) { bootFactory(*w, *r, cfg()); if (k == 7) send(M({P::NNLRN, 0, 0})); if (k == 3) stepAction(*w, *r, 0, FL); return; }
  NodeCfg c = cfg(); if (k == 9) c.perm = 1;
  bootNormal(*w, *r, c, k == 8 ? 0 : NN);
  send(M({P::NNLRN, r->nn >> 8, r->nn & 255}));
  send(M({P::EVLRN, 1, 1, 0, 1, 1, 0}));
  send(M({P::EVLRN, A, B, 0, 2, 1, 3}));
  if (k == 5) send(M({P::EVLRN, 0, 0, 0, 9, 2, 3}));
  if (k != 1 && k != 5 && k < 8) send(M({P::NNULN, A, B}));
  if (k == 4 || k == 10) stepAction(*w, *r, 1, FL);
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  {
    mc::Scenario s; s.name = "sequences"; s.depth = mc::pick(8, 20);
    static OpList *l = new OpList;
    l->msgs({M({P::NNLRN, A, B}), M({P::NNLRN, 2, 2}), M({P::NNLRN, 0, 0}), M({P::NNULN, A, B}), M({P::NNULN, 2, 2}),
             M({P::MODE, A, B, 8}), M({P::MODE, 2, 2, 8}), M({P::MODE, 0, 0, 8}), M({P::MODE, A, B, 9}), M({P::MODE, 2, 2, 9}), M({P::MODE, A, B}),
             M({P::MODE, A, B, 0}), M({P::MODE, A, B, 0xFF}), M({P::MODE, 0, 0, 0xFF}), M({P::MODE, 0, 0, 9}),
             M({P::EVLRN, 1, 1, 0, 5, 1, 7}), M({P::EVLRNI, 1, 1, 0, 6, 2, 2, 7}), M({P::EVULN, 1, 1, 0, 1}), M({P::NNCLR, A, B}), M({P::NNCLR, 2, 2}), M({P::NNCLR, 0, 0}),
             M({P::REQEV, 1, 1, 0, 1, 1}), M({P::SNN, A, B}), M({P::SNN, 2, 2}), M({P::RQNN, 2, 2}), M({P::QNN})}, send);
    l->add(3, [](uint64_t k) { if (k == 2) stepRestart(*w, *r, FL); else stepAction(*w, *r, k, FL); }, [](uint64_t k) { static const char *n[] = {"change mode", "renegotiate", "power cycle"}; return std::string(n[k]); });
    s.nconfigs = 5; s.setup = [](int c) { base(c < 3 ? c : c + 5); }; s.cfgname = [](int c) { return std::string(baseName[c < 3 ? c : c + 5]); };
    s.nops = l->total(); s.apply = [](uint64_t op) { l->run(op); }; s.opname = [](uint64_t op) { return l->name(op); };
    s.key = [] {
      uint64_t h = mc::hash(w->st->mem, w->st->size);
      uint8_t x[6] = {w->ctl->getParam(8), (uint8_t)w->spy->lastMode, r->mode, r->learn, r->enumActive, r->provision};
      return mc::hash(x, sizeof x, h);
    };
    sc.push_back(s);
  }
  {
    // every node number for every request that controls learning or clears the table
    mc::Scenario s; s.name = "all node numbers"; s.depth = 1; s.dedup = false;
    static OpList *l = new OpList;
    std::vector<int> all = range(0, 255);
    addSpace(*l, {{{P::NNLRN, P::NNULN, P::NNCLR}, all, all}, {3}}, send);
    addSpace(*l, {{{P::MODE}, all, all, {8, 9}}, {4}}, send);
    addSpace(*l, {{{P::MODE}, {A, 0}, {B, 0}, all}, {3, 4, 5}}, send);
    s.nconfigs = 11; s.setup = [](int c) { base(c); }; s.cfgname = [](int c) { return std::string(baseName[c]); };
    s.nops = l->total(); s.apply = [](uint64_t op) { l->run(op); }; s.opname = [](uint64_t op) { return l->name(op); };
    sc.push_back(s);
  }
  {
    // every opcode and length with colliding contents, from every base state
    mc::Scenario s; s.name = "all opcodes"; s.depth = 1; s.dedup = false;
    static OpList *l = new OpList;
    auto sd = [](const Msg &m) { if (m.len && (m.d[0] == P::DTXC)) return; send(m); };
    addSpace(*l, {{range(0, 255), {A, 1, 0, 2}, {B, 1, 0}, {0, 1, 2}, {1, 2, 9}, {0, 1, 2}, {1, 2, 3}, {7}}, range(0, 8)}, sd);
    s.nconfigs = 11; s.setup = [](int c) { base(c); }; s.cfgname = [](int c) { return std::string(baseName[c]); };
    s.nops = l->total(); s.apply = [](uint64_t op) { l->run(op); }; s.opname = [](uint64_t op) { return l->name(op); };
    sc.push_back(s);
  }
  {
    // outside learn mode: pairs of arbitrary teaching requests leave the table alone
    mc::Scenario s; s.name = "teaching outside learn mode"; s.depth = 1; s.dedup = false;
    static OpList *l = new OpList;
    std::vector<int> all = range(0, 255);
    addSpace(*l, {{{P::EVLRN}, {1, A}, {1, B}, {0}, all, {0, 1, 2}, {0, 3, 7}}, {5, 7}}, send);
    addSpace(*l, {{{P::EVLRNI}, {1}, {1}, {0}, {1, 5}, all, {0, 1, 2}, {0, 3, 7}}, {7, 8}}, send);
    addSpace(*l, {{{P::EVULN}, {0, 1, A}, {0, 1, B}, {0}, all}, {4, 5}}, send);
    addSpace(*l, {{{P::REQEV}, {0, 1, A}, {0, 1, B}, {0}, {1, 2, 3}, all}, {6}}, send);
    s.nconfigs = 3; s.setup = [](int c) { base(c == 0 ? 6 : c == 1 ? 4 : 3); };
    s.nops = l->total(); s.apply = [](uint64_t op) { l->run(op); }; s.opname = [](uint64_t op) { return l->name(op); };
    sc.push_back(s);
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  const char *as[] = {"learn mode requests addressed to an unnumbered node (number 0) count as carrying its number", "the plain (non-diagnostic) services are used; the diagnostic variants share the teaching code and are explored in C01 and C18"};
  return mc::run(argc, argv, "C02", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference state machine", as, 2);
}
