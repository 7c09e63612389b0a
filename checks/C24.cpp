// C24: several nodes on one bus settle into distinct ids and deliver events and long messages end to end.
// The bus is a broadcast medium on which one node at a time gets its oldest frame through (any node may win).
// Every interleaving of processing rounds, frame transmissions and stimuli is explored until nothing is left to do.
#include "world.h"
#include "alpha.h"
#include "lm.h"
EvLog *g_log;
enum { MAXN = 4, MAXS = 14 };
enum Kind { ACTION, TOOL, ON, OFF, LONG };
struct Stim { int group; Kind kind; int node, arg; Msg m; };
struct Sent { int node; Msg m; };
struct Net
{
  int n; bool fine; NodeWorld *w[MAXN]; bool due[MAXN]; int ticks, ticksMax, dt, lm;
  Stim s[MAXS]; int ns; uint32_t done;
  Callback cb[MAXN][12]; int ncb[MAXN];
  EvLog log[MAXN]; uint8_t sub[MAXN][3]; uint8_t buf[MAXN][40];
  Sent sent[40]; int nsent;       // event frames in bus order
  bool idle(int i) const { return !w[i]->ctl->pendingAction() && !w[i]->can->n && !due[i]; }
  bool quiet() const { for (int i = 0; i < n; ++i) if (!idle(i) || w[i]->can->nout) return false; return true; }
  bool settled() const { return quiet() && ticks == 0; }
};
static Net *net; static int cur;
static void onEvent(uint8_t kind, uint8_t index, const VLCB::VlcbMessage *m)
{
  int &k = net->ncb[cur];
  if (k < 12) { Callback c; memset(&c, 0, sizeof c); c.kind = kind; c.index = index; c.m.len = m->len; memcpy(c.m.d, m->data, m->len > 8 ? 8 : m->len); net->cb[cur][k] = c; }
  ++k; g_ncb = 0; memset(g_cb, 0, sizeof g_cb);
}
static void exHandler(void *p, unsigned int len, uint8_t stream, uint8_t status) { lmHandler(p, len, stream, status); }
static void round(int i)
{
  cur = i; g_log = &net->log[i]; net->due[i] = false;
  int k = 0;
  do
  {
    if (++k > 300) mc::fail("node %d does not become idle", i);
    net->w[i]->ctl->process();
    if (net->w[i]->lms) net->w[i]->lms->process();
    if (net->w[i]->lmx) net->w[i]->lmx->process();
  }
  while (!net->fine && !net->idle(i));
  // nothing here is judged from the record of the hidden service; forget it so that equal states are recognised
  Spy *p = net->w[i]->spy; p->nin = p->nActivity = 0; memset(p->in, 0, sizeof p->in);
  if (net->w[i]->can->nout >= net->w[i]->can->capOut) mc::fail("harness: output full");
  mc::countCheck();
}
static void broadcast(int from, const VLCB::CANFrame &f)
{
  for (int j = 0; j < net->n; ++j) if (j != from) { if (net->w[j]->can->n >= net->w[j]->can->capIn) mc::fail("harness: input queue full"); net->w[j]->can->push(f); }
  net->ticks = net->ticksMax;
}
static void transmit(int i)
{
  FakeCan *c = net->w[i]->can;
  VLCB::CANFrame f = c->out[0];
  for (int k = 1; k < c->nout; ++k) c->out[k - 1] = c->out[k];
  --c->nout; memset((void *)&c->out[c->nout], 0, sizeof f);
  if (!f.rtr && f.len && RefNode::eventForm(f.data[0]) && net->nsent < 40) { Sent s; memset(&s, 0, sizeof s); s.node = i; s.m.len = f.len; memcpy(s.m.d, f.data, f.len); net->sent[net->nsent++] = s; }
  broadcast(i, f);
}
static void stimulate(int k)
{
  Stim &s = net->s[k]; net->done |= 1u << k; net->ticks = net->ticksMax;
  cur = s.node; 
  switch (s.kind)
  {
  case ACTION: net->w[s.node]->ctl->putAction(s.arg == 0 ? VLCB::ACT_CHANGE_MODE : s.arg == 1 ? VLCB::ACT_RENEGOTIATE : VLCB::ACT_START_CAN_ENUMERATION); break;
  case TOOL: { VLCB::CANFrame f; memset((void *)&f, 0, sizeof f); f.id = 0xB << 7 | 0x7E; f.len = s.m.len; memcpy(f.data, s.m.d, s.m.len); broadcast(-1, f); break; }
  case ON: case OFF: net->w[s.node]->eps->sendEvent(s.kind == ON, (byte)s.arg); break;
  case LONG:
  {
    static uint8_t msg[64]; for (int i = 0; i < 64; ++i) msg[i] = lmByte(s.m.d[0], i);
    uint8_t *p = (uint8_t *)mc::arenaAlloc(64, false); memcpy(p, msg, 64);
    bool ok = net->w[s.node]->lmx ? net->w[s.node]->lmx->sendLongMessage(p, s.arg, s.m.d[0]) : net->w[s.node]->lms->sendLongMessage(p, s.arg, s.m.d[0]);
    if (!ok) mc::fail("long message refused");
    break;
  }
  }
}
static bool stimEnabled(int k)
{
  if (k >= net->ns || net->done >> k & 1) return false;
  bool started = false;
  for (int i = 0; i < net->ns; ++i)
  {
    if (net->s[i].group < net->s[k].group && !(net->done >> i & 1)) return false;
    if (net->s[i].group == net->s[k].group && (net->done >> i & 1)) started = true;
    if (net->s[i].group == net->s[k].group && i < k && !(net->done >> i & 1) && net->s[i].node == net->s[k].node && net->s[i].kind >= ON) return false; // one application calls in order
  }
  return started || net->s[k].group == 0 || net->settled();
}
// A node whose input holds a frame and to which no outstanding stimulus applies: its next round takes that frame
// and touches only its own state, the tail of its own output and of its own action queue, so it commutes with
// whatever the others, the bus and the tool can do (they only append to its input or take the head of its output).
// Exploring that round alone keeps every outcome (a persistent set of one).
static int alone()
{
  for (int i = 0; i < net->n; ++i)
  {
    if (!net->w[i]->can->n) continue;
    bool touched = false;
    for (int k = 0; k < net->ns; ++k) touched |= !(net->done >> k & 1) && net->s[k].kind != TOOL && net->s[k].node == i && stimEnabled(k);
    for (int k = 0; k < net->ns; ++k) // a later call of the same application in this group
      for (int q = 0; q < net->ns; ++q) touched |= !(net->done >> k & 1) && net->s[k].kind != TOOL && net->s[k].node == i && net->s[q].group == net->s[k].group && (net->s[k].group == 0 || (net->done >> q & 1));
    if (!touched) return i;
  }
  return -1;
}
// operations: 0..3 round, 4..7 transmit, 8 time, 9.. stimuli
static bool enabled(uint64_t op)
{
  int a = alone();
  if (a >= 0) return (int)op == a;
  if (op < 4) return (int)op < net->n && !net->idle(op);
  if (op < 8) return (int)op - 4 < net->n && net->w[op - 4]->can->nout > 0;
  if (op == 8) return net->quiet() && net->ticks > 0;
  return stimEnabled(op - 9);
}
static void (*g_invariant)();
static void apply(uint64_t op)
{
  if (op < 4) round(op);
  else if (op < 8) transmit(op - 4);
  else if (op == 8) { hw::now += net->dt; --net->ticks; for (int i = 0; i < net->n; ++i) net->due[i] = true; }
  else stimulate(op - 9);
  if (g_invariant) g_invariant();
}
static std::string opname(uint64_t op)
{
  if (op < 4) return "node " + std::to_string(op) + " processes";
  if (op < 8) return "node " + std::to_string(op - 4) + " gets a frame onto the bus";
  if (op == 8) return "time passes";
  return "stimulus " + std::to_string(op - 9);
}
static bool g_fine; // single processing rounds, two nodes
static void init(int n, const NodeCfg *c, const int *nns, const int *ids, int dt, int ticks)
{
  hw::now = 1000; g_onEvent = onEvent; g_log = nullptr;
  if (g_fine) n = 2;
  net = mc::make<Net>(); net->n = n; net->fine = g_fine; net->dt = dt; net->ticksMax = ticks;
  for (int i = 0; i < n; ++i)
  {
    cur = i; NodeWorld *w = net->w[i] = mc::make<NodeWorld>();
    static RefNode *r; r = new RefNode;
    NodeCfg q = c[i]; if (i) q.vary &= 7; // only one can use the global configuration
    if (nns[i] < 0) bootFactory(*w, *r, q); else bootNormal(*w, *r, q, nns[i], ids[i]);
    w->can->capOut = 24; delete r;
  }
}
// teach a node directly
static void teach(int i, int nn, int en, int ev1)
{
  VLCB::Configuration *g = net->w[i]->cfg; int k = g->findEventSpace(); byte d[4] = {(byte)(nn >> 8), (byte)nn, (byte)(en >> 8), (byte)en};
  g->writeEvent(k, d); g->writeEventEV(k, 1, ev1); g->updateEvHashEntry(k);
}
static Stim st(int g, Kind k, int node, int arg = 0, Msg m = Msg()) { Stim s; memset(&s, 0, sizeof s); s.group = g; s.kind = k; s.node = node; s.arg = arg; s.m = m; return s; }
static void add(const Stim &s) { net->s[net->ns++] = s; }
static bool g_all; // set in finish: everything has been done
static bool over()
{
  mc::countCheck();
  bool e = false; for (uint64_t op = 0; op < 9 + MAXS && !e; ++op) e = enabled(op);
  return !e;
}
static int idOf(int i) { return net->w[i]->cfg->CANID; }
static int nnOf(int i) { return net->w[i]->cfg->nodeNum; }
static int modeOf(int i) { return (uint8_t)net->w[i]->spy->lastMode; }
static void distinct(const char *what)
{
  for (int i = 0; i < net->n; ++i)
  {
    if (idOf(i) < 1 || idOf(i) > 127) mc::fail("%s: node %d has CAN id %d", what, i, idOf(i));
    if (net->w[i]->st->mem[1] != idOf(i)) mc::fail("%s: node %d stored CAN id %d, uses %d", what, i, net->w[i]->st->mem[1], idOf(i));
    for (int j = 0; j < i; ++j) if (idOf(i) == idOf(j)) mc::fail("%s: nodes %d and %d both have CAN id %d", what, j, i, idOf(i));
  }
}
static NodeCfg cfgs[MAXN];
static NodeCfg small(bool diag = false) { NodeCfg c; c.maxEvents = 3; c.numEvs = 1; c.numNvs = 1; c.diag = diag; return c; }
static const int NNS[4] = {0x0101, 0x0102, 0x0103, 0x0104};
// ---- expectations about events: every event sent reaches, once and in order, the callbacks of the nodes taught
static void judgeEvents()
{
  for (int j = 0; j < net->n; ++j)
  {
    Callback want[40]; int nw = 0;
    for (int k = 0; k < net->nsent; ++k)
    {
      const Sent &s = net->sent[k];
      if (s.node == j && !net->w[j]->c.coe) continue;
      bool sh = RefNode::eventForm(s.m.d[0]) == 2;
      int nn = sh ? 0 : s.m.d[1] << 8 | s.m.d[2], en = s.m.d[3] << 8 | s.m.d[4];
      for (int i = 0; i < net->w[j]->c.maxEvents; ++i)
      {
        if (!net->w[j]->cfg->getEvTableEntry(i)) continue;
        byte d[4]; net->w[j]->cfg->readEvent(i, d);
        if ((d[0] << 8 | d[1]) == nn && (d[2] << 8 | d[3]) == en) { Callback c; memset(&c, 0, sizeof c); c.kind = 1; c.index = i; c.m = s.m; want[nw++] = c; break; }
      }
    }
    int n = net->ncb[j];
    auto name = [](Callback *c, int n) { std::string s; for (int i = 0; i < n && i < 12; ++i) s += " " + str(c[i]); return s; };
    if (n != nw) mc::fail("node %d: callbacks:%s ; expected:%s", j, name(net->cb[j], n).c_str(), name(want, nw).c_str());
    // own events are consumed in another order relative to those from the bus, otherwise the bus order holds
    bool used[40] = {false};
    int last = -1;
    for (int i = 0; i < n; ++i)
    {
      int f = -1;
      for (int k = 0; k < nw && f < 0; ++k) if (!used[k] && net->cb[j][i] == want[k]) f = k;
      if (f < 0) mc::fail("node %d: callbacks:%s ; expected:%s", j, name(net->cb[j], n).c_str(), name(want, nw).c_str());
      used[f] = true;
      if (!net->w[j]->c.coe) { if (f < last) mc::fail("node %d: callbacks out of order:%s ; expected:%s", j, name(net->cb[j], n).c_str(), name(want, nw).c_str()); last = f; }
    }
  }
}
static int need; // events that must have been sent
static uint8_t expectId[MAXN]; static int expectNn[MAXN];
static int winner; static const int OFFER = 0x0207;
static int takers() { int k = 0; for (int i = 0; i < net->n; ++i) k += nnOf(i) == OFFER; return k; }

int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  // configs k and, if given, k + nc: the same with two nodes and every single processing round interleaved
  auto scenario = [&](const char *name, int nc, std::function<void(int)> setup0, std::function<void()> finish, std::function<std::string(int)> cn0, bool quick0(int), bool quick1(int)) {
    auto setup = [setup0, nc](int k) { g_fine = k >= nc; g_invariant = nullptr; setup0(k % nc); };
    auto cn = [cn0, nc](int k) { return cn0(k % nc) + (k >= nc ? ", two nodes, single rounds" : ""); };
    mc::Scenario s; s.name = name; s.nconfigs = quick1 ? 2 * nc : nc;
    s.use = [quick0, quick1, nc](int k) { return k < nc ? mc::tier() == mc::THOROUGH || quick0(k) : quick1(k - nc); }; s.nops = 9 + MAXS; s.depth = 450; s.deepen = false; s.reach = true; s.enabled = enabled; s.apply = apply; s.opname = opname; s.cfgname = cn;
    s.setup = setup;
    s.finish = [finish] { if (!over()) { if (mc::pathLen() >= 450) mc::fail("the nodes do not come to rest"); return; } finish(); };
    sc.push_back(s);
  };
  // 1. sequential enumeration from every combination of ids
  scenario("enumeration", 4 * 4 * 4 * 3, [](int k) {
    int ids[3] = {k % 4, k / 4 % 4, k / 16 % 4}, how = k / 64;
    for (int i = 0; i < 3; ++i) { cfgs[i] = small(i == 1); cfgs[i].perm = how == 2 ? i : 0; }
    init(3, cfgs, NNS, ids, 100, 1);
    for (int i = 0; i < net->n; ++i)
    {
      add(how == 1 || (how == 2 && i == 1) ? st(i, TOOL, 0, 0, M({P::ENUM, NNS[i] >> 8, NNS[i] & 255})) : st(i, ACTION, i, 2));
      int id = 1; for (bool again = true; again;) { again = false; for (int j = 0; j < net->n; ++j) if (j != i && ids[j] == id) { ++id; again = true; } }
      expectId[i] = ids[i] = id;
    }
  }, [] {
    distinct("after every node has enumerated");
    for (int i = 0; i < net->n; ++i) if (idOf(i) != expectId[i]) mc::fail("node %d has CAN id %d, the lowest free one was %d", i, idOf(i), expectId[i]);
  }, [](int k) { return "ids " + std::to_string(k % 4) + "," + std::to_string(k / 4 % 4) + "," + std::to_string(k / 16 % 4) + (k / 64 == 0 ? " by button" : k / 64 == 1 ? " by request" : " mixed"); },
    [](int) { return true; }, [](int k) { return k / 16 % 4 == 0; });
  // 1b. four nodes, all with the same id or in pairs
  scenario("enumeration of four", 4 * 2, [](int k) {
    static const int ID[4][4] = {{1, 1, 1, 1}, {0, 0, 2, 2}, {1, 2, 3, 4}, {4, 3, 1, 1}};
    int ids[4]; for (int i = 0; i < 4; ++i) { ids[i] = ID[k >> 1][i]; cfgs[i] = small(i == 1); }
    init(4, cfgs, NNS, ids, 100, 1);
    for (int i = 0; i < 4; ++i)
    {
      add(k & 1 ? st(i, TOOL, 0, 0, M({P::ENUM, NNS[i] >> 8, NNS[i] & 255})) : st(i, ACTION, i, 2));
      int id = 1; for (bool again = true; again;) { again = false; for (int j = 0; j < 4; ++j) if (j != i && ids[j] == id) { ++id; again = true; } }
      expectId[i] = ids[i] = id;
    }
  }, [] {
    distinct("after every node has enumerated");
    for (int i = 0; i < net->n; ++i) if (idOf(i) != expectId[i]) mc::fail("node %d has CAN id %d, the lowest free one was %d", i, idOf(i), expectId[i]);
  }, [](int k) { static const char *m[] = {"all the same", "two pairs", "all different", "one pair"}; return std::string(m[k >> 1]) + (k & 1 ? " by request" : " by button"); },
    [](int k) { return (k & 1) == 0; }, nullptr);
  // 1c. two nodes have the same id; the first event either of them sends makes the other one move
  scenario("id clash", 3 * 3 * 2, [](int k) {
    static const int ID[3][3] = {{1, 1, 2}, {1, 2, 1}, {3, 1, 1}};
    int ids[3]; for (int i = 0; i < 3; ++i) { ids[i] = expectId[i] = ID[k / 3 % 3][i]; cfgs[i] = small(i == 1); cfgs[i].perm = i; }
    init(3, cfgs, NNS, ids, 100, 1);
    int s = k % 3; if (s >= net->n) s = 0;
    for (int i = 0; i < net->n; ++i) { teach(i, NNS[i], 1, 1); if (i != s) teach(i, NNS[s], 1, 0); }
    add(st(0, ON, s, 1));
    if (k >= 9) add(st(0, OFF, s, 1));
    for (int i = 0; i < net->n; ++i) if (i != s && ids[i] == ids[s]) { expectId[i] = 1; for (bool again = true; again;) { again = false; for (int j = 0; j < net->n; ++j) if (j != i && ids[j] == expectId[i]) { ++expectId[i]; again = true; } } }
    need = k >= 9 ? 2 : 1;
  }, [] {
    for (int i = 0; i < net->n; ++i) if (idOf(i) != expectId[i]) mc::fail("node %d has CAN id %d, expected %d", i, idOf(i), expectId[i]);
    for (int i = 0; i < net->n; ++i) if (net->w[i]->st->mem[1] != idOf(i)) mc::fail("node %d stored CAN id %d, uses %d", i, net->w[i]->st->mem[1], idOf(i));
    if (net->nsent != need) mc::fail("%d events on the bus, %d produced", net->nsent, need);
    judgeEvents();
  }, [](int k) { return "pattern " + std::to_string(k / 3 % 3) + ", node " + std::to_string(k % 3) + " sends" + (k >= 9 ? " twice" : ""); },
    [](int) { return true; }, [](int k) { return k % 3 < 2 && k / 3 % 3 == 0; });
  // 2. two nodes compete for setup; a third is in normal use
  scenario("competition for setup", 2 * 2 * 2 * 2, [](int k) {
    int ids[3] = {1, 2, 3}; int nns[3] = {k & 1 ? -1 : NNS[0], k & 2 ? -1 : NNS[1], NNS[2]};
    for (int i = 0; i < 3; ++i) { cfgs[i] = small(); cfgs[i].can = true; }
    init(3, cfgs, nns, ids, 100, 1);
    int second = k & 4 ? 1 : 0; // group of the second press: apart in time or at any moment
    add(st(0, ACTION, 0, k & 1 ? 0 : 1)); add(st(second, ACTION, 1, k & 2 ? 0 : 1));
    if (k & 8) add(st(0, ON, g_fine ? 1 : 2, 5));
    add(st(second + 1, TOOL, 0, 0, M({P::SNN, OFFER >> 8, OFFER & 255})));
    winner = second ? 1 : -1;
    g_invariant = [] { if (takers() > 1) mc::fail("%d nodes have taken the offered number", takers()); for (int i = 0; i < net->n; ++i) for (int j = 0; j < i; ++j) if (nnOf(i) && nnOf(i) == nnOf(j)) mc::fail("nodes %d and %d both have number %d", j, i, nnOf(i)); };
  }, [] {
    if (winner >= 0 && nnOf(winner) != OFFER) mc::fail("the node that entered setup last has number %d", nnOf(winner));
    if (winner >= 0 && nnOf(0) == OFFER) mc::fail("the node that lost the competition took the number");
    if (net->n > 2 && nnOf(2) != NNS[2]) mc::fail("the node in normal use changed its number to %d", nnOf(2));
    for (int i = 0; i < net->n; ++i) if (modeOf(i) == P::M_SETUP) mc::fail("node %d is still in setup", i);
    for (int i = 0; i < 2; ++i)
    {
      bool took = nnOf(i) == OFFER;
      if (took && (modeOf(i) != P::M_NORMAL || (uint8_t)net->w[i]->cfg->currentMode != P::M_NORMAL)) mc::fail("node %d took the number but is in mode %d", i, modeOf(i));
      if (!took && nnOf(i) != 0 && nnOf(i) != NNS[i]) mc::fail("node %d has number %d", i, nnOf(i));
    }
  }, [](int k) { return std::string(k & 1 ? "fresh" : "used") + " and " + (k & 2 ? "fresh" : "used") + " node" + (k & 4 ? ", one after the other" : ", at any moment") + (k & 8 ? ", with an event" : ""); },
    [](int k) { return k < 9 || k > 11; }, [](int k) { return mc::tier() == mc::THOROUGH ? k != 11 : k < 3 || (k > 3 && k < 8); });
  // 3. commissioning fresh nodes one after the other
  scenario("commissioning", 2, [](int k) {
    int nns[3] = {-1, -1, k ? -1 : NNS[2]}, ids[3] = {0, 0, 1};
    for (int i = 0; i < 3; ++i) { cfgs[i] = small(); cfgs[i].produced = 1; }
    init(3, cfgs, nns, ids, 100, 2);
    int g = 0;
    for (int i = 0; i < (k ? 3 : 2); ++i) { add(st(g++, ACTION, i, 0)); add(st(g++, TOOL, 0, 0, M({P::SNN, NNS[i] >> 8, NNS[i] & 255}))); }
    for (int i = 0; i < 3; ++i) add(st(g++, TOOL, 0, 0, M({P::ENUM, NNS[i] >> 8, NNS[i] & 255})));
  }, [] {
    for (int i = 0; i < 3; ++i) if (nnOf(i) != NNS[i] || modeOf(i) != P::M_NORMAL) mc::fail("node %d has number %d and mode %d", i, nnOf(i), modeOf(i));
    distinct("after commissioning and enumeration");
  }, [](int k) { return std::string(k ? "three fresh nodes" : "two fresh nodes and a used one"); },
    [](int) { return true; }, nullptr);
  // 3b. a number is taken once, by the node in setup, whatever number it is
  scenario("offers", 4 * 2 * 3, [](int k) {
    static const int FIRST[4] = {0, OFFER, 0xFFFF, 0x0100}; int first = FIRST[k & 3], how = k / 8;
    int nns[3] = {k & 4 ? -1 : NNS[0], how == 2 ? -1 : NNS[1], NNS[2]}, ids[3] = {1, 2, 3};
    for (int i = 0; i < 3; ++i) { cfgs[i] = small(); expectNn[i] = nns[i] < 0 ? 0 : nns[i]; }
    init(3, cfgs, nns, ids, 100, 1);
    int g = 0;
    add(st(g++, ACTION, 0, k & 4 ? 0 : 1)); add(st(g++, TOOL, 0, 0, M({P::SNN, first >> 8, first & 255}))); expectNn[0] = first;
    if (how) { add(st(g++, ACTION, 1, how == 2 ? 0 : 1)); expectNn[1] = 0x0305; }
    add(st(g++, TOOL, 0, 0, M({P::SNN, 3, 5}))); add(st(g++, TOOL, 0, 0, M({P::SNN, 3, 6})));
  }, [] {
    for (int i = 0; i < net->n; ++i) if (nnOf(i) != expectNn[i] || modeOf(i) == P::M_SETUP) mc::fail("node %d has number %d and mode %d, expected number %d", i, nnOf(i), modeOf(i), expectNn[i]);
  }, [](int k) { static const int FIRST[4] = {0, OFFER, 0xFFFF, 0x0100}; return "first offer " + std::to_string(FIRST[k & 3]) + (k & 4 ? " to a fresh node" : " to a used node") + (k / 8 == 0 ? "" : k / 8 == 1 ? ", then a used node enters setup" : ", then a fresh node enters setup"); },
    [](int) { return true; }, [](int) { return true; });
  // 4. events between three nodes, every assignment of who is taught what
  scenario("events", 64 * 4, [](int k) {
    int ids[3] = {1, 2, 3}, form = k / 64;
    for (int i = 0; i < 3; ++i) { cfgs[i] = small(i == 2); cfgs[i].coe = form == 3 && i == 0; cfgs[i].perm = i; }
    init(3, cfgs, NNS, ids, 100, 1);
    // node 0 produces event a (long) for input 1, node 1 event b for input 1: long, short or with the identity of a
    teach(0, NNS[0], 1, 1);
    if (form == 1) teach(1, 0, 1, 1); else if (form == 2) teach(1, NNS[0], 1, 1); else teach(1, NNS[1], 1, 1);
    int bn = form == 1 ? 0 : form == 2 ? NNS[0] : NNS[1];
    if (net->n > 2 && (k & 1)) teach(2, NNS[0], 1, 0);
    if (net->n > 2 && (k & 2)) teach(2, bn, 1, 0);
    if (k & 4) teach(0, bn, 1, 0);
    if (k & 8) teach(1, NNS[0], 1, 0);
    add(st(0, ON, 0, 1)); add(st(0, k & 16 ? ON : OFF, 1, 1)); add(st(0, OFF, 0, 1));
    if (k & 32) add(st(0, TOOL, 0, 0, M({P::ACON, NNS[0] >> 8, NNS[0] & 255, 0, 1})));
    need = 3;
  }, [] { // what the tool sent counts as sent by nobody
    if (net->nsent != need) mc::fail("%d events on the bus, %d produced", net->nsent, need);
    for (int i = 0; i < net->ns; ++i) if (net->s[i].kind == TOOL)
    { // its place in the order is not recorded: compare as a set by removing its callbacks
      for (int j = 0; j < net->n; ++j)
      {
        int seen = 0, f = -1;
        for (int k = 0; k < net->ncb[j]; ++k) if (net->cb[j][k].m == net->s[i].m) { ++seen; f = k; }
        int same = 0; for (int k = 0; k < net->nsent; ++k) same += net->sent[k].m == net->s[i].m && net->sent[k].node != j;
        if (net->w[j]->c.coe) for (int k = 0; k < net->nsent; ++k) same += net->sent[k].m == net->s[i].m && net->sent[k].node == j;
        bool taught = net->w[j]->cfg->findExistingEvent(NNS[0], 1) < net->w[j]->c.maxEvents;
        if (seen != (taught ? same + 1 : 0)) mc::fail("node %d: %d callbacks for an event sent %d times", j, seen, same + 1);
        if (f >= 0) { for (int k = f; k + 1 < net->ncb[j]; ++k) net->cb[j][k] = net->cb[j][k + 1]; --net->ncb[j]; }
      }
      return; // with one callback removed the relative order can no longer be told
    }
    judgeEvents();
  }, [](int k) { return "taught to " + std::to_string(k & 15) + " form " + std::to_string(k / 64) + (k & 16 ? " on" : " off") + (k & 32 ? " and a tool" : ""); },
    [](int k) { return (k & 16) == 0 && ((k & 32) == 0 || (k & 15) == 15 || (k & 15) == 6); }, [](int k) { return (k & 3) == 0 && ((k & 32) == 0 ? (k & 16) == 0 : mc::tier() == mc::THOROUGH); });
  // 5. long messages
  scenario("long messages", 8, [](int k) {
    int ids[3] = {1, 2, 3}; bool ex = k & 1; int mode = k >> 1;
    for (int i = 0; i < 3; ++i) { cfgs[i] = small(); cfgs[i].longm = ex ? 2 : 1; cfgs[i].prod = true; }
    init(3, cfgs, NNS, ids, 20, 2);
    for (int i = 0; i < net->n; ++i)
    {
      net->sub[i][0] = 1; net->sub[i][1] = 2;
      if (i == net->n - 1 && mode == 1) net->sub[i][0] = 9; // not subscribed to stream 1
      if (ex) { cur = i; net->w[i]->lmx->allocateContexts(2, 40, 2); net->w[i]->lmx->subscribe(net->sub[i], 2, exHandler); }
      else net->w[i]->lms->subscribe(net->sub[i], 2, net->buf[i], 40, lmHandler);
    }
    teach(0, NNS[0], 1, 1); teach(net->n - 1, NNS[0], 1, 0);
    Msg s1 = M({1}), s2 = M({2});
    add(st(0, LONG, 0, 7, s1));
    if (mode == 2) add(st(0, ON, 0, 1));
    if (mode == 3) add(st(ex ? 0 : 1, LONG, 1, 6, s2));
  }, [] {
    for (int j = 0; j < net->n; ++j)
    {
      EvLog want; memset(&want, 0, sizeof want); bool got[3] = {false};
      int nw = 0;
      for (int i = 0; i < net->ns; ++i)
      {
        const Stim &s = net->s[i]; if (s.kind != LONG || s.node == j) continue;
        int stream = s.m.d[0]; if (net->sub[j][0] != stream && net->sub[j][1] != stream) continue;
        uint8_t b[64]; for (int q = 0; q < 64; ++q) b[q] = lmByte(stream, q);
        Ev e = ev(1, stream, b, s.arg); ++nw;
        int c = 0; for (int q = 0; q < net->log[j].n; ++q) c += !memcmp(&net->log[j].e[q], &e, sizeof e);
        if (c != 1) mc::fail("node %d: long message on stream %d delivered %d times (of %d reports, first: %s)", j, stream, c, net->log[j].n, net->log[j].n ? str(net->log[j].e[0]).c_str() : "none");
      }
      if (net->log[j].n != nw) mc::fail("node %d: %d reports, expected %d", j, net->log[j].n, nw);
    }
    judgeEvents();
  }, [](int k) { static const char *m[] = {"one sender", "one node not subscribed", "with an event", "two senders"}; return std::string(k & 1 ? "extended service, " : "basic service, ") + m[k >> 1]; },
    [](int) { return true; }, [](int) { return true; });
  return mc::run(argc, argv, "C24", sc.data(), sc.size(), "exhaustive exploration of all interleavings of several real nodes on a modelled broadcast bus");
}
