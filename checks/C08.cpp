// C08: operating mode and node-number negotiation follow the protocol state machine.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static bool modeOp(int o) { return o == P::MODE || o == P::SNN || o == P::RQNN || o == P::RQNP || o == P::RQMN || o == P::QNN || o == P::RQNPN; }
static int fl(const Msg &m) { return CMP_ID | NO_CB | (m.len && modeOp(m.d[0]) ? 0 : NO_OUT); }
static void send(const Msg &m) { stepMsg(*w, *r, m, fl(m)); }
static NodeCfg cfg(bool diag, bool can = true) { NodeCfg c; c.maxEvents = 2; c.numEvs = 1; c.numNvs = 1; c.diag = diag; c.produced = 1; c.can = can; return c; }
static const char *stName[] = {"factory fresh", "normal", "setup from uninitialised", "setup from normal", "uninitialised after release", "normal, learning", "setup, learning", "normal with node number 0", "normal, diagnostic services", "setup, diagnostic services", "normal, number 65535", "node number left from interrupted setup"};
enum { NST = 12 };
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  NodeCfg c = cfg(k == 8 || k == 9);
  if (k == 0 || k == 2) { bootFactory(*w, *r, c); if (k == 2) { stepAction(*w, *r, 0, CMP_ID); stepTime(*w, *r, 100, CMP_ID); } return; }
  bootNormal(*w, *r, c, k == 7 ? 0 : k == 10 ? 65535 : NN);
  if (k == 3 || k == 9) stepAction(*w, *r, 1, CMP_ID);
  if (k == 4) stepAction(*w, *r, 0, CMP_ID);
  if (k == 5 || k == 6) send(M({P::NNLRN, A, B}));
  if (k == 6) stepAction(*w, *r, 1, CMP_ID);
  if (k == 11) { stepAction(*w, *r, 0, CMP_ID); stepAction(*w, *r, 0, CMP_ID); }
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(stName[k]); };
  auto history = [](bool addressedToZero) {
    OpList *l = new OpList; std::vector<Msg> v;
    v = {M({P::MODE, A, B, 0}), M({P::MODE, A, B, 1}), M({P::MODE, A, B, 255}), M({P::MODE, A, B, 2}), M({P::MODE, A, B}), M({P::MODE, 0, 0, 0}), M({P::MODE, 0, 0, 255}), M({P::MODE, 0, 9, 0}), M({P::MODE, 0, 9, 255}),
         M({P::SNN, A, B}), M({P::SNN, 0, 9}), M({P::SNN, 0, 0}), M({P::SNN, 0}), M({P::RQNN, 0, 0}), M({P::RQNN, A, B}), M({P::RQNP}), M({P::RQMN}), M({P::QNN}), M({P::NNLRN, A, B}), M({P::NNULN, A, B}), M({P::NNREL, A, B}), M({P::NNACK, A, B}), M({P::NNRSM, A, B}), M({P::NNRSM, 0, 0}), M({P::ENUM, A, B})};
    l->msgs(v, send);
    l->add(3, [](uint64_t k) { stepAction(*w, *r, k, CMP_ID); }, [](uint64_t k) { return std::string(k == 0 ? "change mode" : k == 1 ? "renegotiate" : "enumerate"); });
    l->add(2, [](uint64_t k) { stepTime(*w, *r, k ? 100 : 40, CMP_ID); }, [](uint64_t k) { return std::string(k ? "100 ms" : "40 ms"); });
    l->add(1, [](uint64_t k) { stepRestart(*w, *r, CMP_ID); }, [](uint64_t k) { return std::string("power cycle"); });
    return l;
  };
  static OpList *hist = history(false);
  {
    auto s = scen("histories", mc::pick(4, 5), hist, 4, [](int k) { base((int[]){0, 1, 8, 7}[k]); }, [](int k) { return std::string(stName[(int[]){0, 1, 8, 7}[k]]); }); sc.push_back(s);
    s.name = "histories (deep)"; s.depth = mc::pick(12, 30); s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    // several actions and messages queued before the node gets to process any
    static OpList *l = new OpList;
    l->add(7 * 7 * 7, [](uint64_t k) {
      clearStep(*w, *r);
      int c[3] = {(int)(k % 7), (int)(k / 7 % 7), (int)(k / 49)};
      for (int x : c)
        if (x == 0) { w->ctl->putAction(VLCB::ACT_CHANGE_MODE); r->actChangeMode(); }
        else if (x == 1) { w->ctl->putAction(VLCB::ACT_RENEGOTIATE); r->actRenegotiate(); }
        else
        {
          static const Msg ms[] = {M({P::SNN, 0, 9}), M({P::RQNN, 0, 0}), M({P::MODE, A, B, 0}), M({P::MODE, A, B, 255}), M({P::RQMN})};
          VLCB::Action a = {VLCB::ACT_MESSAGE_IN, {ms[x - 2].len}}; memcpy(a.vlcbMessage.data, ms[x - 2].d, 8);
          w->ctl->putAction(a); r->receive(ms[x - 2]);
        }
      w->settle();
      stepCheck(*w, *r, "after three queued actions", CMP_ID);
    }, [](uint64_t k) { return "queued actions " + std::to_string(k % 7) + "," + std::to_string(k / 7 % 7) + "," + std::to_string(k / 49); });
    // change mode starts an enumeration through the queue: the order of its remote frame among the messages is free
    sc.push_back(scen("queued actions", 1, l, NST, base, bn));
  }
  {
    static OpList *l = new OpList;
    addSpace(*l, {{{P::MODE}, {A, 0, 255}, {B, 0, 255}, range(0, 255), {0}, {0}, {0}, {0}}, range(1, 8)}, send);
    addSpace(*l, {{{P::SNN, P::RQNN, P::RQNP, P::RQMN, P::QNN}, {A, 0, 255}, {B, 0, 255}, {0, 7}, {0}, {0}, {0}, {0}}, range(1, 8)}, send);
    sc.push_back(scen("mode codes and lengths", 1, l, NST, base, bn));
  }
  {
    static OpList *l = new OpList;
    for (int o : {P::SNN, P::RQNN, P::MODE, P::NNREL})
      l->add(65536, [o](uint64_t n) { send(M({o, (int)(n >> 8), (int)(n & 255), 0})); send(M({P::QNN})); send(M({P::RQMN})); if (r->learn) return; }, [o](uint64_t n) { char b[50]; snprintf(b, sizeof b, "opcode %02X number %d", o, (int)n); return std::string(b); });
    auto s = scen("every node number", 1, l, mc::pick(6, NST), base, bn); sc.push_back(s);
  }
  {
    // commissioning with every number, then renegotiation, abandonment, release and restart
    static OpList *l = new OpList;
    l->add(65536, [](uint64_t n) {
      int a = n >> 8, b = n & 255;
      stepAction(*w, *r, 0, CMP_ID); stepTime(*w, *r, 100, CMP_ID);
      send(M({P::SNN, a, b})); send(M({P::RQMN}));
      stepRestart(*w, *r, CMP_ID);
      stepAction(*w, *r, 1, CMP_ID); send(M({P::RQNN, 0, 0})); send(M({P::RQMN}));
      send(M({P::MODE, a, b, 0})); stepAction(*w, *r, 1, CMP_ID);
      stepAction(*w, *r, 1, CMP_ID); stepRestart(*w, *r, CMP_ID);
      send(M({P::MODE, a, b, 255})); send(M({P::QNN}));
    }, [](uint64_t n) { return "life cycle with number " + std::to_string(n); });
    auto s = scen("life cycle with every number", 1, l, 1, base, bn); 
    s.enabled = [](uint64_t n) { return mc::tier() == mc::THOROUGH || n % 5 == 0 || n < 512; }; sc.push_back(s);
  }
  {
    // no other message moves the mode
    static OpList *l = new OpList;
    addSpace(*l, {{range(0, 255), {A, 0}, {B, 0}, {0, 1, 255}, {0, 1, 255}, {1}, {255}, {5}}, range(0, 8)}, [](const Msg &m) { if (m.len && m.d[0] == P::DTXC) return; send(m); });
    sc.push_back(scen("all opcodes", 1, l, NST, base, bn));
  }
  longer(sc, "histories", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C08", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference mode machine");
}
