// C21: heartbeats are sent at the right times and only when they should be.
#include "world.h"
#include "alpha.h"
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
// only heartbeat messages, in order, and the persistent setting are judged
static void judge(const char *what)
{
  mc::countCheck();
  std::vector<Msg> got, want;
  for (int i = 0; i < w->can->nout && i < w->can->capOut; ++i)
  {
    const VLCB::CANFrame &f = w->can->out[i];
    if (f.rtr || f.ext || f.len < 1 || f.data[0] != P::HEARTB) continue;
    Msg m; memset(&m, 0, sizeof m); m.len = f.len; memcpy(m.d, f.data, 8); got.push_back(m);
  }
  for (auto &m : r->out) if (m.d[0] == P::HEARTB) want.push_back(m);
  if (!(got == want))
  {
    std::string a, b; for (auto &m : got) a += " " + str(m); for (auto &m : want) b += " " + str(m);
    mc::fail("%s: heartbeats sent:%s ; expected:%s", what, a.c_str(), b.c_str());
  }
  if (w->cfg->heartbeat != r->heartbeat) mc::fail("%s: heartbeat setting %d, expected %d", what, w->cfg->heartbeat, r->heartbeat);
}
enum { FL = NO_OUT | NO_CB };
static void restart()
{
  w->powerOff(); hw::now = 0; w->st->dead = false; w->boot();
  clearStep(*w, *r); w->settle();
  r->restart(); r->tick(0);
  judge("after restart");
}
static void send(const Msg &m)
{
  clearStep(*w, *r); w->can->pushMsg(m); w->settle(); r->receive(m); r->tick(hw::now);
  judge(("after " + str(m)).c_str());
  if (r->restartAsked) restart();
}
static void wait(unsigned long ms) { stepTime(*w, *r, ms, FL); judge("after waiting"); }
static void action(int k) { stepAction(*w, *r, k, FL); r->tick(hw::now); judge("after an action"); }
static void enableApi(int on)
{
  clearStep(*w, *r); w->mns->setHeartBeat(on); r->hbRun = on; w->settle(); r->tick(hw::now); judge("after setting from the application");
}
static const char *stName[] = {"normal, heartbeat off", "normal, heartbeat on", "factory fresh", "setup from normal, heartbeat on", "normal, on, clock about to wrap", "learning, on", "diagnostic services, on", "setup from factory fresh", "normal, on, at the end of the sequence numbers", "event acknowledge and reset bits set, on"};
enum { NST = 10 };
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode; r->hbModel = true;
  hw::now = 0;
  NodeCfg c; c.maxEvents = 2; c.numEvs = 1; c.numNvs = 1; c.diag = k == 6; c.produced = 1; c.vary = 13;
  if (k == 2 || k == 7) { bootFactory(*w, *r, c); if (k == 7) action(0); return; }
  bootNormal(*w, *r, c, NN);
  if (k == 9) { w->cfg->setResetFlag(); w->cfg->setEventAck(true); r->resetFlag = r->eventAck = true; }
  if (k >= 1) send(M({P::MODE, A, B, P::M_HB_ON}));
  if (k == 3) action(1);
  if (k == 4) { wait((unsigned long)-7000); if (!r->hbSeq) mc::fail("no heartbeat in the reference"); wait(5500); }
  if (k == 5) send(M({P::NNLRN, A, B}));
  if (k == 8) for (int i = 0; i < 254; ++i) wait(5001);
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(stName[k]); };
  {
    static OpList *l = new OpList;
    static const int T[] = {5001, 5000, 1, 2500, 20000};
    l->add(5, [](uint64_t k) { wait(T[k]); }, [](uint64_t k) { return std::to_string(T[k]) + " ms"; });
    l->msgs({M({P::MODE, A, B, P::M_HB_ON}), M({P::MODE, A, B, P::M_HB_OFF}), M({P::MODE, 0, 9, P::M_HB_ON}), M({P::MODE, 0, 9, P::M_HB_OFF}), M({P::MODE, A, B, 0}), M({P::MODE, A, B, 255}), M({P::SNN, 0, 9}), M({P::RQNN, 0, 0}), M({P::NNRSM, A, B}), M({P::MODE, A, B, P::M_LEARN_ON}), M({P::MODE, A, B})}, send);
    l->add(2, [](uint64_t k) { action(k); }, [](uint64_t k) { return std::string(k ? "renegotiate" : "change mode"); });
    l->add(1, [](uint64_t k) { restart(); }, [](uint64_t k) { return std::string("restart"); });
    l->add(2, [](uint64_t k) { enableApi(k); }, [](uint64_t k) { return std::string(k ? "application enables" : "application disables"); });
    auto s = scen("sequences", mc::pick(4, 5), l, NST, base, bn); sc.push_back(s);
    s.name = "sequences (deep)"; s.depth = mc::pick(8, 14);
    s.key = [] { uint64_t x[4] = {nodeKey(*w, *r), hw::now - r->lastHb, (uint64_t)r->hbRun, (uint64_t)(r->hbSeq > 2 && r->hbSeq < 254 ? 100 : r->hbSeq)}; return mc::hash(x, sizeof x); };
    sc.push_back(s);
  }
  {
    // polled at every period for longer than two heartbeats
    static OpList *l = new OpList;
    l->add(mc::pick(5200, 16000), [](uint64_t k) { unsigned long p = k + 1; for (unsigned long t = 0; t < 10500 + p; t += p) wait(p); }, [](uint64_t k) { return "polled every " + std::to_string(k + 1) + " ms"; });
    // polled often with one gap, which may start anywhere
    l->add(101 * 60, [](uint64_t k) { unsigned long g = 4950 + k % 101, at = k / 101 * 100; if (at) wait(at); wait(g); for (int i = 0; i < 60; ++i) wait(1); wait(5000); wait(1); wait(1); }, [](uint64_t k) { return "gap of " + std::to_string(4950 + k % 101) + " ms after " + std::to_string(k / 101 * 100); });
    sc.push_back(scen("timing", 1, l, NST, base, bn));
  }
  {
    static OpList *l = new OpList;
    l->add(3, [](uint64_t k) { static const int p[] = {5001, 6000, 50000}; for (int i = 0; i < 800; ++i) wait(p[k]); }, [](uint64_t) { return std::string("800 heartbeats"); });
    // with traffic in every processing round
    l->add(40, [](uint64_t k) {
      Msg m = k & 1 ? M({P::QNN}) : M({P::ACON, 0, 9, 0, 9});
      int period = 1 + (k >> 1) * 37;
      unsigned long t0 = hw::now; int beats = 0, due = 0;
      for (unsigned long t = 0; t < 12000; t += period)
      {
        clearStep(*w, *r); hw::now = t0 + t; r->tick(hw::now);
        for (auto &x : r->out) due += x.d[0] == P::HEARTB;
        w->can->pushMsg(m); w->process(8);
        for (int i = 0; i < w->can->nout; ++i) beats += w->can->out[i].data[0] == P::HEARTB && w->can->out[i].len;
        if (beats > due) mc::fail("%d heartbeats sent, only %d due", beats, due);
      }
      w->can->nout = 0; w->settle();
      for (int i = 0; i < w->can->nout; ++i) beats += w->can->out[i].data[0] == P::HEARTB && w->can->out[i].len;
      mc::countCheck();
      if (beats != due) mc::fail("%d heartbeats sent under load, expected %d", beats, due);
    }, [](uint64_t k) { return std::string("load of ") + (k & 1 ? "queries" : "events") + " every " + std::to_string(1 + (k >> 1) * 37) + " ms"; });
    // a node that never becomes idle: k+1 actions always wait
    l->add(12, [](uint64_t k) {
      unsigned long t0 = hw::now; int beats = 0, due = 0; unsigned long dueAt = 0;
      clearStep(*w, *r);
      for (uint64_t i = 0; i <= k % 6; ++i) w->ctl->putAction(VLCB::ACT_INDICATE_ACTIVITY);
      for (unsigned long t = 1; t < 16500; ++t)
      {
        w->can->nout = 0; r->out.clear(); hw::now = t0 + t; r->tick(hw::now);
        for (auto &x : r->out) if (x.d[0] == P::HEARTB) { ++due; dueAt = t; }
        if (k >= 6) w->can->pushMsg(M({P::ACON, 0, 9, 0, 9})); else w->ctl->putAction(VLCB::ACT_INDICATE_ACTIVITY);
        w->process(1 + 2 * (k >= 6));
        for (int i = 0; i < w->can->nout; ++i) beats += w->can->out[i].data[0] == P::HEARTB && w->can->out[i].len;
        if (beats > due) mc::fail("%d heartbeats sent, only %d due", beats, due);
        if (beats < due && t > dueAt + 100) mc::fail("heartbeat due %lu ms ago has not been sent by a busy node", t - dueAt);
      }
      w->can->nout = 0; w->settle(); mc::countCheck();
    }, [](uint64_t k) { return std::string("never idle ") + std::to_string(k); });
    sc.push_back(scen("long runs", 1, l, NST, base, bn));
  }
  {
    // commissioned with every node number
    static OpList *l = new OpList;
    l->add(65535, [](uint64_t k) {
      int n = k + 1; Msg on = M({P::MODE, n >> 8, n & 255, P::M_HB_ON}); wait(7000);
      send(M({P::SNN, n >> 8, n & 255})); if (n & 1) send(on); wait(3000); if (!(n & 1)) send(on); wait(2000); wait(1); wait(5001); restart(); wait(5001);
    }, [](uint64_t k) { return "node number " + std::to_string(k + 1); });
    auto s = scen("every node number", 1, l, NST, base, bn); s.use = [](int k) { return k == 3 || k == 7; }; sc.push_back(s);
  }
  {
    // no message of any kind influences the heartbeats except as specified
    static OpList *l = new OpList;
    auto probe = [](const Msg &m) { send(m); wait(5000); wait(1); wait(4000); };
    for (int nn : {NN, 0x0109, 0}) addSpace(*l, {{range(0, 255), {nn >> 8}, {nn & 255}, {0, 12, 13}, {1}, {1}, {1}, {0}}, {1, 3, 4, 5, 6, 7, 8}}, probe);
    addSpace(*l, {{{P::MODE}, {A}, {B}, range(0, 255), {0}}, {3, 4, 5}}, probe);
    addSpace(*l, {{{P::MODE}, range(0, 255), mc::pick(0, 1) ? range(0, 255) : std::vector<int>{0, B, B + 1, 9, 255}, {12, 13}}, {4}}, probe);
    sc.push_back(scen("every message", 1, l, NST, base, bn));
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C21", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference heartbeat model");
}
