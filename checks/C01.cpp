// C01: the taught-event table equals exactly what the teaching messages leave.
#include "world.h"
#include "alpha.h"
#include <array>
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104;
static std::vector<NodeCfg> cfgs;
static OpList *ops[64];
static void send(const Msg &m) { stepMsg(*w, *r, m, CMP_TABLE | NO_CB); }

// full externally visible audit of the table through bus reads
static void audit()
{
  send(M({P::RQEVN, NN >> 8, NN & 255}));
  send(M({P::NNEVN, NN >> 8, NN & 255}));
  send(M({P::NERD, NN >> 8, NN & 255}));
  for (int i = 0; i <= r->c.maxEvents; ++i)
  {
    send(M({P::NENRD, NN >> 8, NN & 255, i}));
    for (int e = 0; e <= r->c.numEvs + 1; ++e) send(M({P::REVAL, NN >> 8, NN & 255, i, e}));
  }
}
static void boot(int cfg, bool learn = true)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  bootNormal(*w, *r, cfgs[cfg], NN);
  if (learn) send(M({P::NNLRN, NN >> 8, NN & 255}));
}
// identities: two with equal hash (1:1 and 1:129 differ by 128 in a 128-bucket table), one short, one with hash remapped from 0
struct Id { int n, e; };
static const Id ids[] = {{0x0101, 1}, {0x0101, 0x81}, {0, 1}, {0, 0}, {0xFFFF, 1}, {1, 0xFFFF}};
static OpList *mutators(const NodeCfg &c, int nids)
{
  OpList *l = new OpList;
  std::vector<Msg> v;
  for (int i = 0; i < nids; ++i)
  {
    int nh = ids[i].n >> 8, nl = ids[i].n & 255, eh = ids[i].e >> 8, el = ids[i].e & 255;
    for (int evn = 1; evn <= c.numEvs; ++evn)
      for (int val : {0, 1, 2}) if (evn == 1 || val) v.push_back(M({P::EVLRN, nh, nl, eh, el, evn, val}));
    v.push_back(M({P::EVULN, nh, nl, eh, el}));
    for (int ix = 0; ix < c.maxEvents; ++ix) for (int evn = 1; evn <= c.numEvs; ++evn) v.push_back(M({P::EVLRNI, nh, nl, eh, el, ix, evn, 1 + ((ix + evn) & 1)}));
  }
  v.push_back(M({P::NNCLR, NN >> 8, NN & 255}));
  l->msgs(v, send);
  return l;
}
int main(int argc, char **argv)
{
  auto cfg = [](int maxE, int evs, bool diag) { NodeCfg c; c.maxEvents = maxE; c.numEvs = evs; c.numNvs = 1; c.diag = diag; c.eventHandler = c.requestHandler = false; return c; };
  for (bool d : {false, true}) { cfgs.push_back(cfg(1, 1, d)); cfgs.push_back(cfg(2, 1, d)); cfgs.push_back(cfg(2, 2, d)); cfgs.push_back(cfg(3, 2, d)); cfgs.push_back(cfg(3, 1, d)); }
  { NodeCfg c = cfg(254, 2, false); cfgs.push_back(c); }   // big table (index 10)
  { NodeCfg c = cfg(20, 40, false); cfgs.push_back(c); }   // many variables (index 11)
  { NodeCfg c = cfg(4, 251, false); cfgs.push_back(c); }   // widest entry (index 12)
  { NodeCfg c = cfg(2, 2, false); c.evStart = 40; cfgs.push_back(c); } // gap between NVs and events (13)
  { NodeCfg c = cfg(2, 2, false); c.numNvs = 2; c.evStart = 10; c.nvStart = 10 + 2 * 6; cfgs.push_back(c); } // variables directly behind the events (14)
  { NodeCfg c = cfg(255, 1, true); cfgs.push_back(c); } // largest table (15)
  { NodeCfg c = cfg(255, 251, false); c.numNvs = 200; cfgs.push_back(c); } // the most storage a table can take, about 64 KB (16)
  auto cname = [](int c) { const NodeCfg &k = cfgs[c]; return std::to_string(k.maxEvents) + " entries x " + std::to_string(k.numEvs) + " variables, diag=" + std::to_string(k.diag); };

  std::vector<mc::Scenario> sc;
  auto addSeq = [&](const char *name, std::vector<int> which, int nids, int depth, bool audits, bool key) {
    mc::Scenario s; s.name = name; s.nconfigs = which.size(); s.depth = depth;
    auto lists = new std::vector<OpList *>; for (int c : which) lists->push_back(mutators(cfgs[c], nids));
    auto wh = new std::vector<int>(which);
    static OpList *cur;
    s.setup = [=](int c) { cur = (*lists)[c]; boot((*wh)[c]); };
    s.nopsOf = [=](int c) { cur = (*lists)[c]; return cur->total(); };
    s.apply = [](uint64_t op) { cur->run(op); };
    auto nm = new int(0);
    s.opname = [=](uint64_t op) { return cur ? cur->name(op) : std::to_string(op); };
    s.cfgname = [=](int c) { return cname((*wh)[c]); };
    if (audits) s.finish = audit;
    if (key) s.key = [] {
      uint64_t h = mc::hash(w->st->mem, w->st->size);
      for (int i = 0; i < r->c.maxEvents; ++i) { uint8_t b = w->cfg->getEvTableEntry(i); h = mc::hash(&b, 1, h); }
      uint8_t f = w->ctl->getParam(8); return mc::hash(&f, 1, h);
    };
    sc.push_back(s);
  };
  addSeq("sequences", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14}, 2, mc::pick(3, 4), true, false);
  addSeq("identities", {2, 4}, 6, mc::pick(3, 4), true, false);
  addSeq("deep", {0, 1, 2, 13, 14}, 3, mc::pick(10, 14), false, true);
  addSeq("deep3", {3, 4}, 3, mc::pick(7, 9), false, true);

  // single requests over their full byte ranges, from several base tables
  {
    mc::Scenario s; s.name = "full-range requests"; s.depth = 1; s.dedup = false;
    static OpList *l = new OpList;
    std::vector<int> idx = range(0, 255), evn = range(0, 255), val = {0, 1, 2, 255};
    std::vector<int> nh = {1}, nl = {1}, eh = {0}, el = {1, 0x81, 7};
    int a = NN >> 8, b = NN & 255;
    addSpace(*l, {{{P::EVLRN}, nh, nl, eh, el, evn, val}, {5, 6, 7, 8}}, send);
    addSpace(*l, {{{P::EVLRN}, {1}, {1}, {0}, {1, 7}, {0, 1, 2, 3}, range(0, 255)}, {7}}, send);
    addSpace(*l, {{{P::EVLRNI}, {1}, {1}, {0}, {1, 7}, idx, evn, {3}}, {8}}, send);
    addSpace(*l, {{{P::EVLRNI}, {1}, {1}, {0}, {1, 7}, {0, 1, 2, 3}, {0, 1, 2, 3}, range(0, 255)}, {5, 6, 7, 8}}, send);
    addSpace(*l, {{{P::REVAL}, {a}, {b}, idx, evn}, {4, 5, 6}}, send);
    addSpace(*l, {{{P::REVAL}, {a}, {b}, {0, 1, 2, 3, 4, 19, 20}, evn, {9}}, {7, 8}}, send);
    addSpace(*l, {{{P::NENRD}, {a}, {b}, idx}, {4, 5, 6, 7, 8}}, send);
    addSpace(*l, {{{P::REQEV}, {1, 0}, {1, 0}, {0}, {1, 0x81, 7}, evn}, {5, 6, 7, 8}}, send);
    addSpace(*l, {{{P::EVULN}, {1, 0}, {1, 0}, {0, 1}, range(0, 255)}, {4, 5, 6, 7, 8}}, send);
    addSpace(*l, {{{P::NNCLR, P::RQEVN, P::NNEVN, P::NERD}, {a}, {b}}, {3, 4, 5, 6, 7, 8}}, send);
    s.nconfigs = 6;
    s.setup = [](int c) {
      // base: 0 empty, 1 partly filled, 2 full, 3 hole, 4/5 wide
      boot(c < 4 ? 3 : c == 4 ? 11 : 12);
      if (c) send(M({P::EVLRN, 1, 1, 0, 1, 1, 0}));
      if (c > 1) { send(M({P::EVLRN, 1, 1, 0, 0x81, 1, 2})); send(M({P::EVLRN, 1, 1, 0, 3, 2, 9})); }
      if (c == 3) send(M({P::EVULN, 1, 1, 0, 0x81}));
    };
    s.cfgname = [](int c) { static const char *n[] = {"empty", "one entry", "full", "hole", "20x40", "4x251"}; return std::string(n[c]); };
    s.nops = l->total(); s.apply = [](uint64_t op) { l->run(op); }; s.opname = [](uint64_t op) { return l->name(op); };
    sc.push_back(s);
  }
  // every identity taught, looked up, unlearned: full 16-bit event numbers and node numbers
  {
    mc::Scenario s; s.name = "all identities"; s.depth = 1; s.dedup = false; s.nops = 4 * 65536 / mc::pick(1, 1);
    s.setup = [](int) { boot(2); send(M({P::EVLRN, 1, 1, 0, 1, 1, 5})); };
    s.apply = [](uint64_t op) {
      int v = op & 0xFFFF, k = op >> 16;
      int n = k == 0 ? 0x0101 : k == 1 ? v : k == 2 ? 0 : v, e = k == 0 ? v : k == 1 ? 1 : k == 2 ? v : v;
      if (n == 0xFFFF && e == 0xFFFF) return;
      send(M({P::EVLRN, n >> 8, n & 255, e >> 8, e & 255, 1, 7}));
      send(M({P::REQEV, n >> 8, n & 255, e >> 8, e & 255, 1}));
      send(M({P::NERD, NN >> 8, NN & 255}));
      send(M({P::EVULN, n >> 8, n & 255, e >> 8, e & 255}));
      send(M({P::REQEV, n >> 8, n & 255, e >> 8, e & 255, 1}));
    };
    s.opname = [](uint64_t op) { return "identity family " + std::to_string(op >> 16) + " value " + std::to_string(op & 65535); };
    sc.push_back(s);
  }
  // pairs of identities that differ in some of their bytes, among boundary values
  {
    static auto idn = [](uint64_t k) { static const uint8_t bv[] = {0x00, 0x01, 0x80, 0xFF}; return bv[k & 3] | bv[k >> 2 & 3] << 8 | bv[k >> 4 & 3] << 16 | (uint32_t)bv[k >> 6 & 3] << 24; };
    auto run2 = [](uint64_t op) {
      uint32_t a = idn(op % 255), b = idn(op / 255);
      int a1 = a >> 24, a2 = a >> 16 & 255, a3 = a >> 8 & 255, a4 = a & 255, b1 = b >> 24, b2 = b >> 16 & 255, b3 = b >> 8 & 255, b4 = b & 255;
      send(M({P::EVLRN, a1, a2, a3, a4, 1, 5}));
      send(M({P::EVLRNI, b1, b2, b3, b4, 0, 2, 6}));
      send(M({P::EVLRN, b1, b2, b3, b4, 1, 7}));
      send(M({P::REQEV, a1, a2, a3, a4, 1})); send(M({P::REQEV, b1, b2, b3, b4, 1}));
      send(M({P::NERD, NN >> 8, NN & 255}));
      stepRestart(*w, *r, CMP_TABLE | NO_CB);
      send(M({P::NERD, NN >> 8, NN & 255})); send(M({P::RQEVN, NN >> 8, NN & 255}));
      send(M({P::NNLRN, NN >> 8, NN & 255}));
      send(M({P::EVULN, b1, b2, b3, b4})); send(M({P::EVULN, a1, a2, a3, a4}));
    };
    mc::Scenario s; s.name = "pairs of identities"; s.depth = 1; s.dedup = false; s.nops = 255 * 255;
    s.setup = [](int) { boot(2); }; s.apply = run2;
    s.opname = [](uint64_t op) { char b[60]; snprintf(b, sizeof b, "identities %08X and %08X", idn(op % 255), idn(op / 255)); return std::string(b); };
    sc.push_back(s);
  }
  // fill, probe and empty a large table
  {
    mc::Scenario s; s.name = "large table"; s.depth = 1; s.dedup = false; s.nops = 255;
    s.setup = [](int) { boot(10); };
    s.apply = [](uint64_t k) {
      // k entries taught, then remove every (k%5+2)th, then teach again, with checks throughout
      int n = (int)k < 254 ? (int)k : 254;
      for (int i = 0; i < n; ++i) { clearStep(*w, *r); Msg m = M({P::EVLRN, 2, i, 0, i * 7 & 255, 1, i + 1}); w->can->pushMsg(m); w->settle(); r->receive(m); compareOut(*w, *r, "fill"); }
      compareTable(*w, *r, "after fill");
      send(M({P::EVLRN, 9, 9, 9, 9, 2, 1}));
      for (int i = 0; i < n; i += k % 5 + 2) { clearStep(*w, *r); Msg m = M({P::EVULN, 2, i, 0, i * 7 & 255}); w->can->pushMsg(m); w->settle(); r->receive(m); compareOut(*w, *r, "unlearn"); }
      compareTable(*w, *r, "after unlearning some");
      send(M({P::RQEVN, NN >> 8, NN & 255})); send(M({P::NNEVN, NN >> 8, NN & 255}));
      send(M({P::EVLRN, 9, 9, 9, 10, 1, 0}));
    };
    s.opname = [](uint64_t k) { return "fill " + std::to_string(k); };
    sc.push_back(s);
  }
  // every place of a full table
  {
    mc::Scenario s; s.name = "every place"; s.depth = 1; s.dedup = false; s.nops = 255 * 8; s.nconfigs = 3;
    s.setup = [](int c) {
      boot(c == 0 ? 10 : c == 1 ? 15 : 11);
      for (int i = 0; i < r->c.maxEvents; ++i) { clearStep(*w, *r); Msg m = M({P::EVLRNI, 2, i ^ 1, 1, i, i, 1, i + 1}); w->can->pushMsg(m); w->settle(); r->receive(m); compareOut(*w, *r, "fill"); }
      compareTable(*w, *r, "after fill");
    };
    s.apply = [](uint64_t op) {
      int i = op / 8, f = op % 8; if (i >= r->c.maxEvents) return;
      int id[4] = {2, i ^ 1, 1, i};
      send(M({P::NENRD, NN >> 8, NN & 255, i})); for (int v = 0; v <= r->c.numEvs && v < 4; ++v) send(M({P::REVAL, NN >> 8, NN & 255, i, v}));
      send(M({P::REQEV, id[0], id[1], id[2], id[3], 1}));
      if (f == 0) send(M({P::EVULN, id[0], id[1], id[2], id[3]}));
      else if (f < 5) { id[f - 1] ^= 0x40; send(M({P::EVLRNI, id[0], id[1], id[2], id[3], i, 1, 77})); } // one byte differs
      else if (f == 5)
      {
        for (int b = 0; b < 32; ++b) { int n[4] = {id[0], id[1], id[2], id[3]}; n[b / 8] ^= 1 << b % 8; Msg m = M({P::REQEV, n[0], n[1], n[2], n[3], 1}); clearStep(*w, *r); w->can->pushMsg(m); w->settle(); r->receive(m); compareOut(*w, *r, "near miss"); }
        send(M({P::EVLRN, id[0], id[1], id[2], id[3], r->c.numEvs, 78}));
      }
      else if (f == 7)
      {
        // identities that look partly like a free entry
        send(M({P::EVULN, id[0], id[1], id[2], id[3]}));
        for (int b = 1; b < 15; ++b)
        {
          int n[4]; for (int j = 0; j < 4; ++j) n[j] = b >> j & 1 ? 0xFF : j == 3 ? i & 0x7F : 0x55;
          send(M({P::EVLRNI, n[0], n[1], n[2], n[3], i, 1, b})); send(M({P::REQEV, n[0], n[1], n[2], n[3], 1}));
          if (b & 1) send(M({P::EVULN, n[0], n[1], n[2], n[3]}));
        }
      }
      else { send(M({P::EVULN, id[0], id[1], id[2], id[3]})); send(M({P::EVLRN, 9, 9, 9, 9, 1, 5})); send(M({P::EVLRN, id[0], id[1], id[2], id[3], 1, 5})); }
      send(M({P::NENRD, NN >> 8, NN & 255, i})); send(M({P::REQEV, id[0], id[1], id[2], id[3], 1})); send(M({P::REQEV, id[0], id[1], id[2], id[3], 0})); send(M({P::RQEVN, NN >> 8, NN & 255}));
    };
    s.opname = [](uint64_t op) { return "entry " + std::to_string(op / 8) + " variant " + std::to_string(op % 8); };
    s.cfgname = [=](int c) { return cname(c == 0 ? 10 : c == 1 ? 15 : 11); };
    sc.push_back(s);
  }
  // up to three entries at any place
  {
    mc::Scenario s; s.name = "few entries"; s.depth = 1; s.dedup = false; s.nops = 255 * 4; s.nconfigs = 3;
    s.setup = [](int c) { boot(c == 0 ? 10 : c == 1 ? 15 : 11); };
    s.apply = [](uint64_t op) {
      int m = r->c.maxEvents, i = op / 4, f = op % 4; if (i >= m) return;
      auto look = [i] { send(M({P::NERD, NN >> 8, NN & 255})); send(M({P::NENRD, NN >> 8, NN & 255, i})); send(M({P::RQEVN, NN >> 8, NN & 255})); send(M({P::NNEVN, NN >> 8, NN & 255})); };
      int j = (i + 1) % m, k = (i * 11 + 5) % m;
      send(M({P::EVLRNI, i, 1, 2, i ^ 0xFF, i, 1, i})); look();
      if (f & 1 && j != i) { send(M({P::EVLRNI, 0, 0, i, 4, j, 1, 1})); look(); }
      if (f & 2 && k != i && k != j) { send(M({P::EVLRNI, 0xFF, 0xFF, i, 4, k, 1, 1})); look(); }
      send(M({P::EVULN, i, 1, 2, i ^ 0xFF})); look(); send(M({P::NENRD, NN >> 8, NN & 255, j}));
      send(M({P::EVLRN, 3, 3, 3, 3, 1, 3})); look(); // reuses the first free place
    };
    s.opname = [](uint64_t op) { return "entry " + std::to_string(op / 4) + " variant " + std::to_string(op % 4); };
    s.cfgname = [=](int c) { return cname(c == 0 ? 10 : c == 1 ? 15 : 11); };
    sc.push_back(s);
  }
  // one place of the table that takes the most storage, with its neighbours and the places its address could be mistaken for
  {
    mc::Scenario s; s.name = "most storage"; s.depth = 1; s.dedup = false; s.nops = 255;
    s.setup = [](int) { boot(16); };
    s.apply = [](uint64_t op) {
      int i = op; static const int evs[] = {1, 2, 127, 128, 250, 251};
      static const int other[] = {-129, -128, -65, -64, -33, -32, -17, -16, -2, -1, 1, 2, 16, 17, 32, 33, 64, 65, 128, 129};
      auto id = [](int k) { return std::array<int, 4>{{k, 1, 2, k ^ 0xFF}}; };
      auto quiet = [](const Msg &m) { clearStep(*w, *r); w->can->pushMsg(m); w->settle(); r->receive(m); compareOut(*w, *r, "one place"); };
      auto look = [&](int k) { quiet(M({P::NENRD, NN >> 8, NN & 255, k})); for (int e : evs) quiet(M({P::REVAL, NN >> 8, NN & 255, k, e})); };
      auto teach = [&](int k, int v) { auto a = id(k); for (int e : evs) quiet(M({P::EVLRNI, a[0], a[1], a[2], a[3], k, e, (v + e) & 255})); };
      std::vector<int> near; for (int d : other) { int k = i + d; if (k >= 0 && k < r->c.maxEvents) near.push_back(k); }
      for (int k : near) teach(k, k + 3);
      teach(i, i + 100); look(i); for (int k : near) look(k);
      compareTable(*w, *r, "after teaching");
      { auto a = id(i); quiet(M({P::EVULN, a[0], a[1], a[2], a[3]})); }
      look(i); for (int k : near) look(k);
      teach(i, i + 7); look(i);
      compareTable(*w, *r, "after teaching again");
      stepRestart(*w, *r, CMP_TABLE | NO_CB);
    };
    s.opname = [](uint64_t op) { return "entry " + std::to_string(op); };
    s.cfgname = [=](int) { return cname(16); };
    sc.push_back(s);
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(600000, 10000000), mc::pick(1000000, 30000000));
  const char *as[] = {"the identity FFFF:FFFF marks a free entry and is not taught", "at most 251 event variables per event", "reply lists longer than the 30-entry internal queue are covered by C12's known finding and not requested here"};
  return mc::run(argc, argv, "C01", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference table; all teaching sequences to the depth bound and all single requests over full byte ranges", as, 3);
}
