// C23: a node reacts to its own events exactly if it has the consume-own-events service.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static bool g_learnOnly;
// events sent and callbacks are judged; replies to teaching belong to other properties
static void send(const Msg &m) { int o = m.d[0]; stepMsg(*w, *r, m, RefNode::eventForm(o) || o == P::AREQ || o == P::ASRQ ? 0 : NO_OUT); }
static const uint8_t DATA[3] = {0, 0x7F, 0xFF};
static void produce(bool on, int v, int nd) { stepProduce(*w, *r, on, v, nd, DATA); }
static void respond(bool on, int i, int nd) { stepRespond(*w, *r, on, i, nd, DATA); }
// the application sends a message of its own making
static void refOwn(const Msg &m)
{
  r->out.push_back(m);
  if (r->c.coe && r->c.cons) { Msg z = m; for (int i = m.len; i < 8; ++i) z.d[i] = 0; r->consume(m, z, m.d[0], z.d[1] << 8 | z.d[2], z.d[3] << 8 | z.d[4]); }
}
static void own(const Msg &m)
{
  clearStep(*w, *r);
  VLCB::VlcbMessage v; memset(&v, 0, sizeof v); v.len = m.len; memcpy(v.data, m.d, 8);
  w->ctl->sendMessage(&v);
  w->settle();
  refOwn(m);
  stepCheck(*w, *r, ("after sending " + str(m)).c_str(), 0);
}
struct K { bool coe; int perm; bool diag, handler, cons; const char *name; };
static const K KS[] = {
  {true, 0, true, true, true, "with the service"}, {false, 0, true, true, true, "without the service"}, {true, 1, false, true, true, "with the service, reversed order"},
  {true, 0, true, false, true, "with the service, no handler"}, {true, 0, false, true, false, "with the service, no consumer"},
  {true, 5, true, true, true, "with the service, order 5"}, {true, 8, false, true, true, "with the service, order 8"}, {false, 3, false, true, true, "without the service, order 3"},
  {true, 0, true, true, true, "with the service, in setup"}, {true, 0, true, true, true, "with the service, released"}, {false, 0, true, true, true, "without the service, in setup"}};
enum { NK = 11 };
static void base(int k)
{
  hw::now = 100;
  w = mc::make<NodeWorld>(); r = new RefNode;
  const K &q = KS[k % NK];
  NodeCfg c; c.maxEvents = 5; c.numEvs = 2; c.numNvs = 1; c.coe = q.coe; c.perm = q.perm; c.diag = q.diag; c.eventHandler = q.handler; c.cons = q.cons;
  bootNormal(*w, *r, c, NN);
  send(M({P::NNLRN, A, B}));
  send(M({P::EVLRN, A, B, 0, 1, 1, 1}));   // own long event for input 1
  send(M({P::EVLRN, 0, 0, 0, 2, 1, 2}));   // short event for input 2
  send(M({P::EVLRN, 0, 9, 0, 9, 1, 0}));   // event of another node, not produced
  send(M({P::EVLRN, 0, 9, 0, 3, 1, 3}));   // event of another node sent for input 3
  if (k / NK == 1) send(M({P::NNULN, A, B}));
  if (k % NK >= 8) { stepAction(*w, *r, k % NK != 9, NO_OUT | NO_CB); if (k % NK != 9) stepTime(*w, *r, 200, NO_OUT | NO_CB); }
}
static std::string bname(int k) { return std::string(KS[k % NK].name) + (k / NK ? ", not learning" : ", learning"); }
// the application reacts to events by producing others
static int chainMode;
static void chain(uint8_t kind, uint8_t index, const VLCB::VlcbMessage *m)
{
  if (kind != 1) return;
  bool on = !(m->data[0] & 1);
  if (chainMode == 0 && index == 0) w->eps->sendEvent(on, (byte)2);
  if (chainMode == 1 && index < 3) { w->eps->sendEvent(on, (byte)(index + 2 > 3 ? 3 : index + 2)); if (index == 0) w->eps->sendEvent(!on, (byte)3, (byte)7); }
  if (chainMode == 2 && on) w->eps->sendEvent(false, (byte)(index + 1));
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  {
    static OpList *l = new OpList;
    l->add(2 * 4 * 3, [](uint64_t k) { produce(k & 1, 1 + k / 6 % 4, (int[]){0, 1, 3}[k / 2 % 3]); }, [](uint64_t k) { return "produce input " + std::to_string(1 + k / 6 % 4) + (k & 1 ? " on" : " off") + " form " + std::to_string(k / 2 % 3); });
    l->add(2 * 2, [](uint64_t k) { respond(k & 1, k / 2, 0); }, [](uint64_t k) { return "respond for entry " + std::to_string(k / 2); });
    l->msgs({M({P::ACON, A, B, 0, 1}), M({P::ASOF, 0, 9, 0, 2}), M({P::ACON1, 0, 9, 0, 9, 5}), M({P::EVLRN, A, B, 0, 7, 1, 4}), M({P::EVULN, A, B, 0, 1}), M({P::EVULN, 0, 0, 0, 2}), M({P::EVLRN, A, B, 0, 2, 1, 2}), M({P::NNCLR, A, B}), M({P::NNLRN, A, B}), M({P::EVLRNI, 0, 9, 0, 9, 0, 2, 1}), M({P::AREQ, A, B, 0, 1})}, send);
    l->add(1, [](uint64_t k) { stepRestart(*w, *r, 0); }, [](uint64_t k) { return std::string("restart"); });
    l->add(1, [](uint64_t k) { own(M({P::ACON, 0, 9, 0, 9})); }, [](uint64_t k) { return std::string("application sends event 9:9"); });
    auto s = scen("sequences", mc::pick(3, 4), l, NK, base, bname); sc.push_back(s);
    s.name = "sequences (deep)"; s.nconfigs = 2; s.depth = mc::pick(6, 10); s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    static OpList *l = new OpList;
    // every message the application can send, against the table
    for (int nn : {NN, 0, 9, 0x0904}) addSpace(*l, {{range(0, 255), {nn >> 8}, {nn & 255}, {0, 1}, {1, 2, 3, 9}, {0, 0xFF}, {5}, {6}}, {5, 6, 7, 8}}, own);
    l->add(2 * 4 * 255, [](uint64_t k) { produce(k & 1, 1 + k / 8, k / 2 % 4); }, [](uint64_t k) { return "produce input " + std::to_string(1 + k / 8) + (k & 1 ? " on" : " off") + " with " + std::to_string(k / 2 % 4) + " bytes"; });
    l->add(2 * 4 * 4, [](uint64_t k) { respond(k & 1, k / 8, k / 2 % 4); }, [](uint64_t k) { return "respond for entry " + std::to_string(k / 8) + " form " + std::to_string(k % 8); });
    for (int nn : {NN, 0, 9}) addSpace(*l, {{range(0, 255), {nn >> 8}, {nn & 255}, {0}, {1, 2, 9}, {0}, {5}, {6}}, {5, 8}}, [](const Msg &m) { if (RefNode::eventForm(m.d[0])) send(m); });
    sc.push_back(scen("every message", 1, l, 2 * NK, base, bname));
    // all event numbers and node numbers
    static OpList *l2 = new OpList;
    l2->add(65536 * 4, [](uint64_t k) { int x = k >> 2; own(k & 1 ? M({k & 2 ? P::ASON : P::ACOF, A, B, x >> 8, x & 255}) : M({k & 2 ? P::ASON : P::ACOF, x >> 8, x & 255, 0, k & 2 ? 2 : 1})); }, [](uint64_t k) { return "identity " + std::to_string(k); });
    sc.push_back(scen("every identity", 1, l2, mc::pick(2, NK), base, bname));
  }
  {
    // several events queued before anything is processed, and reactions of the application
    static OpList *l = new OpList;
    l->add(9 * 9 * 9 * 4, [](uint64_t k) {
      chainMode = k % 4; k /= 4; g_onEvent = chainMode < 3 ? chain : nullptr;
      clearStep(*w, *r);
      for (int i = 0; i < 3; ++i, k /= 9)
      {
        int x = k % 9;
        if (x < 6) { w->eps->sendEvent(x & 1, (byte)(1 + x / 2)); r->produce(x & 1, 1 + x / 2, 0, DATA); }
        else
        {
          Msg m = x == 6 ? M({P::ACON, A, B, 0, 1}) : x == 7 ? M({P::ASON, 0, 9, 0, 2}) : M({P::ACOF, 0, 9, 0, 9});
          w->can->pushMsg(m); r->receive(m);
        }
      }
      w->settle(); g_onEvent = nullptr;
      // the reactions, generation by generation
      for (size_t i = 0; i < r->cb.size() && i < 200; ++i)
      {
        Callback c = r->cb[i]; bool on = !(c.m.d[0] & 1); uint8_t d = 7;
        if (chainMode == 0 && c.index == 0) r->produce(on, 2, 0, &d);
        if (chainMode == 1 && c.index < 3) { r->produce(on, c.index + 2 > 3 ? 3 : c.index + 2, 0, &d); if (c.index == 0) r->produce(!on, 3, 1, &d); }
        if (chainMode == 2 && on) r->produce(false, c.index + 1, 0, &d);
      }
      // order of unrelated callbacks is not part of the property
      mc::countCheck();
      auto has = [](const Callback *a, size_t n, const Callback &x) { int c = 0; for (size_t i = 0; i < n; ++i) c += a[i] == x; return c; };
      if ((size_t)g_ncb != r->cb.size()) mc::fail("%d callbacks, expected %d", g_ncb, (int)r->cb.size());
      for (auto &c : r->cb) if (has(g_cb, g_ncb > 32 ? 32 : g_ncb, c) != has(r->cb.data(), r->cb.size(), c)) mc::fail("callback %s ran %d times, expected %d", str(c).c_str(), has(g_cb, g_ncb, c), has(r->cb.data(), r->cb.size(), c));
      compareOut(*w, *r, "after queued events");
    }, [](uint64_t k) { return "queued events " + std::to_string(k / 4 % 9) + "," + std::to_string(k / 36 % 9) + "," + std::to_string(k / 324) + " reaction " + std::to_string(k % 4); });
    sc.push_back(scen("queued events and reactions", 1, l, NK, base, bname));
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C23", sc.data(), sc.size(), "explicit-state exploration of the real node, with and without the service, in lock-step with a reference model");
}
