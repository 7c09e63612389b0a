// C18: service discovery, parameters, identification and diagnostics describe the node truthfully.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
static int NN = 0x0104;
#define A (NN >> 8)
#define B (NN & 255)
static const int FL = NO_CB | CMP_FLAGS;
static void send(const Msg &m)
{
  // replies of other services (teaching, variables, enumeration) are the business of other properties
  switch (m.len ? m.d[0] : 0)
  {
  case P::QNN: case P::RQNP: case P::RQMN: case P::RQNPN: case P::RQSD: case P::RDGN: stepMsg(*w, *r, m, FL); break;
  default: stepMsg(*w, *r, m, FL | NO_OUT); break;
  }
}
static unsigned long g_base; // clock value at power up
// the expected diagnostics, written from the protocol
static void dgn(RefNode &r, int ix, int code, int v) { r.own(P::DGN, {ix, code, v >> 8 & 255, v & 255}); }
static bool one(RefNode &r, int ix, int id, int code)
{
  unsigned long up = hw::now / 1000;
  switch (id)
  {
  case P::S_MNS:
    if (code > 6) return false;
    dgn(r, ix, code, code == 2 ? up >> 16 : code == 3 ? up & 0xFFFF : code == 5 ? r.dNN : 0); return true;
  case P::S_CAN:
    if (code > 18) return false;
    dgn(r, ix, code, code == 1 ? w->can->rxe : code == 2 ? w->can->txe : code == 3 ? w->can->es : code == 6 ? w->can->tx : code == 9 ? w->can->rx : 0); return true;
  case P::S_PROD: if (code > 1) return false; dgn(r, ix, code, r.dProduced); return true;
  case P::S_CONS: if (code > 1) return false; dgn(r, ix, code, r.dConsumed); return true;
  case P::S_TEACH: if (code > 1) return false; dgn(r, ix, code, r.dTaught); return true;
  }
  return false;
}
static bool hasDiag(int id) { return id == P::S_MNS || id == P::S_CAN || id == P::S_PROD || id == P::S_CONS || id == P::S_TEACH; }
static void all(RefNode &r, int ix, int id)
{
  int n = id == P::S_MNS ? 6 : id == P::S_CAN ? 18 : hasDiag(id) ? 1 : 0;
  dgn(r, ix, 0, n);
  for (int i = 1; i <= n; ++i) one(r, ix, id, i);
}
static void diag(RefNode &r, const Msg &m)
{
  if (m.len < 5) { r.grsp(P::RDGN, P::S_MNS, P::E_INV_CMD); return; }
  size_t ix = m.d[3], n = r.services.size();
  if (ix > n || (ix && !r.services[ix - 1].id)) { r.grsp(P::RDGN, P::S_MNS, P::G_INV_SVC); return; }
  if (ix == 0) { for (size_t i = 0; i < n; ++i) if (r.services[i].id) all(r, i + 1, r.services[i].id); return; }
  int id = r.services[ix - 1].id;
  if (m.d[4] == 0) all(r, ix, id);
  else if (!hasDiag(id)) r.grsp(P::RDGN, P::S_MNS, P::G_INV_DIAG);
  else if (!one(r, ix, id, m.d[4])) r.grsp(P::RDGN, ix, P::G_INV_DIAG);
}
static void boot(const NodeCfg &c, bool factory = false)
{
  w = mc::make<NodeWorld>(); r = new RefNode; hw::now = 1000;
  if (factory) { bootFactory(*w, *r, c); } else bootNormal(*w, *r, c, NN);
  r->diagHook = diag;
}
// configuration k: which services, order, diagnostics
static NodeCfg cfgOf(int k)
{
  NodeCfg c; c.maxEvents = 3; c.numEvs = 2; c.numNvs = 2;
  int sub = k % 64; k /= 64;
  c.nv = sub & 1; c.teach = sub & 2; c.cons = sub & 4; c.prod = sub & 8; c.coe = sub & 16; c.longm = sub & 32 ? 1 + (sub & 1) : 0;
  c.diag = k % 2 == 0; k /= 2;
  static const int hid[] = {1, 3, 1, 2, 1, 3, 1, 2};
  c.hidden = hid[k % 8];
  c.perm = k;
  return c;
}
static std::string cfgName(int k)
{
  NodeCfg c = cfgOf(k);
  std::string s = c.diag ? "diag" : "plain";
  if (c.nv) s += " nv"; if (c.teach) s += " teach"; if (c.cons) s += " cons"; if (c.prod) s += " prod"; if (c.coe) s += " coe"; if (c.longm) s += c.longm == 1 ? " long" : " longex";
  return s + " order " + std::to_string(c.perm) + " hidden " + std::to_string(c.hidden);
}
void params_m328(unsigned char *, int, int, int); void params_due(unsigned char *, int, int, int); void params_m16u4(unsigned char *, int, int, int); void params_m1280(unsigned char *, int, int, int); void params_m2560(unsigned char *, int, int, int);
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto nm = [](const char *f) { return [f](uint64_t k) { return std::string(f) + " " + std::to_string(k); }; };
  {
    // every service set and order: all indices and lengths
    static OpList *l = new OpList;
    addSpace(*l, {{{P::RQSD}, {A}, {B}, range(0, 255), {0}}, {3, 4, 5}}, send);
    addSpace(*l, {{{P::RDGN}, {A}, {B}, range(0, 255), {0, 1, 2, 6, 7, 18, 19, 255}, {0}}, {3, 4, 5, 6}}, send);
    addSpace(*l, {{{P::RQNPN}, {A}, {B}, {0, 4, 5, 6, 8, 20, 21}}, {3, 4}}, send);
    addSpace(*l, {{{P::QNN, P::RQNP, P::RQMN}}, {1}}, send);
    sc.push_back(scen("every service set", 1, l, 64 * 2 * mc::pick(4, 22), [](int k) { boot(cfgOf(k)); }, cfgName));
  }
  {
    // every index x every code byte, every parameter, in each mode; other node numbers stay unanswered
    static OpList *l = new OpList;
    addSpace(*l, {{{P::RDGN}, {A}, {B}, range(0, 255), range(0, 255)}, {5}}, send);
    addSpace(*l, {{{P::RQNPN}, {A}, {B}, range(0, 255), {0}}, range(3, 8)}, send);
    addSpace(*l, {{{P::RQSD}, {A}, {B}, range(0, 255), {0}, {0}, {0}, {0}}, range(3, 8)}, send);
    addSpace(*l, {{{P::RQSD, P::RQNPN, P::RDGN}, range(0, 255), {0, B, B + 1, 255}, {0, 1}, {0, 1}}, {5}}, send);
    addSpace(*l, {{{P::RQSD, P::RQNPN, P::RDGN}, {0, A, A + 1}, range(0, 255), {0, 1}, {0, 1}}, {5}}, send);
    addSpace(*l, {{{P::QNN, P::RQNP, P::RQMN}, {0, A}, {0, B}}, range(1, 3)}, send);
    auto setup = [](int k) {
      NodeCfg c; c.coe = true; c.longm = 1; c.perm = k >= 6 ? 3 : 0;
      c.maxEvents = 4; c.numEvs = 3; c.numNvs = 7; if (k == 8) { c.maxEvents = 0; c.numEvs = 0; c.numNvs = 0; } if (k == 9 || k == 10) { c.maxEvents = 250; c.numEvs = 20; c.numNvs = 200; }
      boot(c, k == 1 || k == 2);
      switch (k)
      {
      case 2: case 6: send(M({P::MODE, r->nn >> 8, r->nn & 255, 0})); if (k == 2) { stepAction(*w, *r, 0, FL | NO_OUT); } break;  // setup
      case 10: stepAction(*w, *r, 1, FL | NO_OUT); break;
      case 3: send(M({P::MODE, A, B, P::M_LEARN_ON})); break;
      case 4: send(M({P::NNLRN, A, B})); send(M({P::MODE, A, B, 0})); break;
      case 5: send(M({P::MODE, A, B, 0xFF})); break;
      case 7: hw::now = 0xFFFFFFFFul - 5; stepTime(*w, *r, 3, NO_OUT | NO_CB); break;
      }
    };
    auto nm2 = [](int k) { static const char *n[] = {"normal", "factory fresh", "factory fresh in setup", "learn", "learn and setup", "released", "setup", "clock at its end", "no events or variables", "large tables", "large tables, setup"}; return std::string(n[k]); };
    sc.push_back(scen("every index", 1, l, 11, setup, nm2));
  }
  {
    // parameters given by the application
    static OpList *l = new OpList;
    l->add(256 * 12, [](uint64_t k) {
      int v = k % 256, which = k / 256;
      VLCB::Parameters p(*w->cfg);
      p.setVersion(1, 'a', 0); p.setModuleId(1); p.setManufacturer(250);
      uint8_t e[21]; memcpy(e, r->params, 21);
      e[1] = 250; e[2] = 'a'; e[3] = 1; e[7] = 1; e[20] = 0;
      char cpu[4] = {'A', 'B', 'C', 'D'};
      switch (which)
      {
      case 0: p.setVersion(v, 'a', 0); e[7] = v; break;
      case 1: p.setVersion(1, v, 0); e[2] = v; break;
      case 2: p.setVersion(1, 'a', v); e[20] = v; break;
      case 3: p.setModuleId(v); e[3] = v; break;
      case 4: p.setManufacturer(v); e[1] = v; break;
      case 5: p.setProcessor(v, 7, cpu); e[19] = v; e[9] = 7; memcpy(e + 15, cpu, 4); break;
      case 6: p.setProcessor(3, v, cpu); e[19] = 3; e[9] = v; memcpy(e + 15, cpu, 4); break;
      case 7: case 8: case 9: case 10: cpu[which - 7] = v; p.setProcessor(3, 4, cpu); e[19] = 3; e[9] = 4; memcpy(e + 15, cpu, 4); break;
      case 11: p.setFlags(v); break; // recomputed from the services
      }
      memcpy(w->params, p.getParams(), 21);
      w->ctl->setParams(w->params);
      memcpy(r->params, e, 21);
      char *n = w->name; snprintf(n, 8, "N%06d", (int)k); memcpy(r->name, n, 7);
      w->ctl->setName((const unsigned char *)n);
      // an application sets these up before anything else: read everything back
      for (int i = 0; i <= 21; ++i) send(M({P::RQNPN, A, B, i}));
      send(M({P::QNN}));
      stepAction(*w, *r, 1, FL | NO_OUT); // setup, where the identification queries are answered
      send(M({P::RQNP})); send(M({P::RQMN})); send(M({P::QNN})); send(M({P::RQNPN, A, B, 8}));
    }, nm("parameter"));
    sc.push_back(scen("application parameters", 1, l, 2, [](int k) { NodeCfg c; c.coe = k; boot(c); }));
  }
  {
    // the default parameters on every processor they know: the application hands them to the node, which reports them
    static OpList *l = new OpList;
    l->add(5 * 8, [](uint64_t k) {
      static void (*const get[])(unsigned char *, int, int, int) = {params_m328, params_due, params_m16u4, params_m1280, params_m2560};
      static const char *const cpu[] = {"328P", "3X8E", "16U4", "1280", "2560"};
      int v = k / 5; uint8_t g[21], e[21]; memcpy(e, r->params, 21);
      get[k % 5](g, e[6], e[5], e[4]); if (v & 1) { VLCB::Parameters p(*w->cfg); memcpy(w->params, p.getParams(), 21); }
      e[1] = 250; e[9] = 50; e[19] = 2; e[10] = 1; e[11] = e[12] = e[13] = e[14] = 0; memcpy(e + 15, cpu[k % 5], 4);
      g[2] = e[2]; g[3] = e[3]; g[7] = e[7]; g[20] = e[20]; // chosen by the application
      memcpy(w->params, g, 21); w->ctl->setParams(w->params); memcpy(r->params, e, 21);
      for (int i = 0; i <= 21; ++i) send(M({P::RQNPN, A, B, (i + v) % 22}));
      if (v & 2) stepAction(*w, *r, 1, FL | NO_OUT);
      if (v & 4) stepRestart(*w, *r, FL);
      send(M({P::RQNP})); send(M({P::QNN}));
    }, nm("processor"));
    sc.push_back(scen("processors", 1, l, 2, [](int k) { NodeCfg c; if (k) c.maxEvents = 20, c.numEvs = 3, c.numNvs = 7; boot(c); }));
  }
  {
    // truth of the counters after histories
    static OpList *l = new OpList;
    for (int i = 0; i < 2; ++i) l->add(1, [=](uint64_t) { if (w->eps) { uint8_t d[3] = {1, 2, 3}; stepProduce(*w, *r, true, 1 + i, i ? 0 : 3, d, FL | NO_OUT); } }, nm(i ? "produce 2" : "produce 1"));
    for (int nd = 0; nd < 4; ++nd) l->add(1, [=](uint64_t) { uint8_t d[3] = {1, 2, 3}; if (w->eps) stepProduce(*w, *r, false, 1, nd, d, FL | NO_OUT); }, nm("produce off with data"));
    l->msgs({M({P::EVLRN, A, B, 0, 9, 1, 1}), M({P::EVLRN, 0, 1, 0, 5, 1, 0}), M({P::EVLRN, 0, 1, 0, 6, 3, 0}), M({P::EVLRN, 0, 1, 0, 6, 2, 0}), M({P::EVLRNI, 0, 2, 0, 7, 2, 2, 4}), M({P::EVLRNI, 0, 2, 0, 7, 3, 2, 4}), M({P::EVLRNI, 0, 2, 0, 7, 1, 0, 4}), M({P::EVULN, 0, 1, 0, 5}), M({P::NNCLR, A, B}),
             M({P::ACON, 0, 1, 0, 5}), M({P::ACOF3, 0, 1, 0, 5, 1, 2, 3}), M({P::ASON, 0, 1, 0, 5}), M({P::ACON, 0, 7, 0, 5}), M({P::NNULN, A, B}), M({P::NNLRN, A, B}),
             M({P::SNN, 0, 9}), M({P::SNN, 0, 0}), M({P::SNN, A, B}), M({P::AREQ, 0, 1, 0, 5}), M({P::NNRST, A, B})}, send);
    l->add(2, [](uint64_t k) { stepAction(*w, *r, k, FL | NO_OUT); }, nm("action"));
    l->add(1, [](uint64_t) { stepTime(*w, *r, 65536ul * 1000, FL | NO_OUT); }, nm("time"));
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL | NO_OUT); r->diagHook = diag; }, nm("restart"));
    auto s = scen("counter histories", mc::pick(3, 5), l, 4, [](int k) { NN = 0x0104; NodeCfg c; c.coe = k & 1; c.teach = !(k & 2) || k == 2; c.eventHandler = k != 3; c.perm = k; boot(c); if (k < 2) send(M({P::NNLRN, A, B})); });
    // the report is read after every step, through every service, under the current number
    s.apply = [](uint64_t op) {
      l->run(op);
      int a = r->nn >> 8, b = r->nn & 255;
      for (size_t i = 1; i <= r->services.size(); ++i) send(M({P::RDGN, a, b, (int)i, 0}));
      send(M({P::RQNPN, a, b, 8})); send(M({P::QNN}));
    };
    sc.push_back(s);
    // counters pass 255 and wrap at 65536
    static OpList *l2 = new OpList;
    l2->add(4, [](uint64_t k) {
      uint8_t d[3] = {0};
      int n = mc::pick(700, 65540);
      if (k == 3) { stepAction(*w, *r, 1, FL | NO_OUT); }
      for (int i = 0; i < n; ++i)
      {
        switch (k)
        {
        case 0: stepProduce(*w, *r, i & 1, 1, i & 3, d, FL); break;
        case 1: send(M({P::ACON, 0, 1, 0, 5})); break;
        case 2: send(M({P::EVLRN, 0, 1, 0, 5, 1, i & 255})); break;
        default: send(M({P::SNN, A, B})); stepAction(*w, *r, 1, FL | NO_OUT); break;
        }
        if (i % 251 == 0 || i > 65533 || (i > 254 && i < 258)) for (size_t j = 1; j <= r->services.size(); ++j) send(M({P::RDGN, A, B, (int)j, 1 + (r->services[j - 1].id == P::S_MNS) * 4}));
      }
      for (size_t j = 1; j <= r->services.size(); ++j) send(M({P::RDGN, A, B, (int)j, 0}));
    }, [](uint64_t k) { static const char *n[] = {"produce", "consume", "teach", "renumber"}; return std::string("many times: ") + n[k]; });
    sc.push_back(scen("counter range", 1, l2, 1, [](int) { NN = 0x0104; NodeCfg c; boot(c); send(M({P::NNLRN, A, B})); send(M({P::EVLRN, 0, 1, 0, 5, 1, 0})); }));
    // uptime and transport counters
    static OpList *l3 = new OpList;
    l3->add(mc::pick(40000, 400000), [](uint64_t k) {
      static const unsigned long base[] = {0, 999, 255999, 65535999, 65536000, 255ul * 65536000, 4294967295ul};
      unsigned long t = k % 7 == 6 ? base[6] - k / 7 : base[k % 7] + k / 7;
      hw::now = t; w->settle(); r->now = t;
      w->can->rx = k; w->can->tx = k * 3; w->can->rxe = k & 255; w->can->txe = k * 5; w->can->es = k * 7;
      for (size_t j = 1; j <= 2; ++j) send(M({P::RDGN, A, B, (int)j, 0}));
    }, nm("uptime and counters"));
    sc.push_back(scen("uptime", 1, l3, 1, [](int) { NodeCfg c; boot(c); }));
  }
  longer(sc, "counter histories", true, mc::pick(6000, 66000), mc::pick(300, 600), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C18", sc.data(), sc.size(), "explicit-state exploration of the real node over all service sets, against reports derived from the protocol");
}
