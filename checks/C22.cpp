// C22: button presses and mode LEDs follow the documented user interface.
#include "world.h"
#include "alpha.h"
#include <Switch.h>
#include <LED.h>
enum { GREEN = 4, YELLOW = 5, BUTTON = 6 };
static const int MODES[] = {P::M_NORMAL, P::M_UNINIT, P::M_SETUP};
static const char *MODEN[] = {"normal", "uninitialised", "setup"};
// what the user should see
struct UiRef
{
  bool pressed; unsigned long since; int shown; // mode shown, -1 none yet
  bool blinking, phaseKnown, y, forced; // forced: a steady state was shown for an instant while blinking
  unsigned long enter, lastToggle;
  bool pulse; unsigned long pulseT;
  int request; // 1 change mode, 2 renegotiate, 3 enumerate; set by round()
  bool held4(unsigned long t) const { return pressed && t - since > 4000; }
  void round(bool level, unsigned long t, int mode, bool activity)
  {
    request = 0;
    if (level != pressed)
    {
      unsigned long len = t - since;
      pressed = level; since = t;
      if (!level) request = len > 4000 ? 1 : len >= 1000 && len < 2000 ? 2 : len < 500 ? 3 : 0;
    }
    if (mode >= 0) { if (shown == P::M_SETUP && mode != P::M_SETUP) blinking = false; shown = mode; if (mode != P::M_SETUP && held4(t)) forced = true; }
    if (held4(t)) shown = P::M_SETUP;
    if (activity) { pulse = true; pulseT = t; }
    if (pulse && t - pulseT >= 5) pulse = false;
  }
  void judge(unsigned long t)
  {
    mc::countCheck();
    bool g = shown == P::M_UNINIT || pulse;
    if (hw::pins[GREEN] != (int)g) mc::fail("green LED %s, expected %s (mode shown %d)", hw::pins[GREEN] ? "on" : "off", g ? "on" : "off", shown);
    bool p = hw::pins[YELLOW];
    if (shown != P::M_SETUP)
    {
      blinking = false;
      bool e = shown == P::M_NORMAL;
      if (p != e) mc::fail("yellow LED %s, expected %s (mode shown %d)", p ? "on" : "off", e ? "on" : "off", shown);
      y = p; return;
    }
    if (!blinking) { blinking = true; phaseKnown = false; enter = t; if (forced) { y = p; forced = false; return; } }
    if (phaseKnown)
    {
      bool due = t - lastToggle >= 500;
      if ((p != y) != due) mc::fail(due ? "yellow LED does not change %lu ms after the last change" : "yellow LED changes %lu ms after the last change", t - lastToggle);
      if (due) lastToggle = t;
    }
    else if (p != y) { phaseKnown = true; lastToggle = t; }
    else if (t - enter >= 500) mc::fail("yellow LED is not blinking");
    y = p;
  }
};
// records what the user interface asks for
struct Recorder : public VLCB::Service
{
  int n = 0, act[8];
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override
  {
    if (!a || a->actionType == VLCB::ACT_INDICATE_MODE || a->actionType == VLCB::ACT_INDICATE_ACTIVITY) return;
    if (n < 8) act[n] = a->actionType;
    ++n;
  }
};
static UiRef *u; static Recorder *rec; static VLCB::Controller *ctl;
static VLCB::LEDUserInterface *ui;
static bool g_node;
// let the node run at the present time and compare
static void at(int mode = -1, bool activity = false)
{
  rec->n = 0;
  if (mode >= 0) ctl->indicateMode((VlcbModeParams)mode);
  if (activity) ctl->indicateActivity();
  for (int i = 0; i < 4; ++i) ctl->process();
  bool level = hw::pins[BUTTON] == 0;
  u->round(level, hw::now, mode, activity);
  static const int want[] = {0, VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_START_CAN_ENUMERATION};
  mc::countCheck();
  if (rec->n != (u->request != 0) || (rec->n && rec->act[0] != want[u->request])) mc::fail("%d actions requested (first %d), expected %d", rec->n, rec->n ? rec->act[0] : -1, want[u->request]);
  if (ui->isButtonPressed() != level) mc::fail("isButtonPressed reports %d", ui->isButtonPressed());
  u->judge(hw::now);
}
static void run(unsigned long ms, unsigned long p) // pass time, polling every p ms
{
  for (unsigned long t = 0; t < ms; t += p) { hw::now += ms - t < p ? ms - t : p; at(); }
}
static void level(int pressed) { hw::pins[BUTTON] = !pressed; }
static const char *stName[] = {"nothing indicated", "normal", "uninitialised", "setup", "normal, clock about to wrap", "setup, clock about to wrap", "button held at start"};
enum { NST = 7 };
static void base(int k)
{
  hw::now = k == 4 || k == 5 ? (unsigned long)-3000 : 10;
  level(k == 6);
  FakeStorage *st = mc::make<FakeStorage>(32);
  VLCB::Configuration *cfg = mc::make<VLCB::Configuration>(st);
  rec = mc::make<Recorder>(); ui = mc::make<VLCB::LEDUserInterface>(GREEN, YELLOW, BUTTON);
  ctl = mc::make<VLCB::Controller>(cfg, std::initializer_list<VLCB::Service *>{ui, rec});
  static unsigned char prm[21]; ctl->setParams(prm); ctl->begin();
  if (hw::modes[GREEN] != OUTPUT || hw::modes[YELLOW] != OUTPUT || hw::modes[BUTTON] != INPUT_PULLUP) mc::fail("pin modes %d %d %d", hw::modes[GREEN], hw::modes[YELLOW], hw::modes[BUTTON]);
  u = mc::make<UiRef>(); u->shown = -1; u->since = hw::now;
  at();
  if (k == 1 || k == 4) at(P::M_NORMAL);
  if (k == 2) at(P::M_UNINIT);
  if (k == 3 || k == 5) at(P::M_SETUP);
}
// ---- whole node with the interface
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static void nodeJudge(const char *what)
{
  stepCheck(*w, *r, what, NO_CB | CMP_ID);
}
static void leds()
{
  mc::countCheck();
  bool g = r->mode == P::M_UNINIT;
  if (hw::pins[GREEN] != (int)g) mc::fail("green LED %s in mode %d", hw::pins[GREEN] ? "on" : "off", r->mode);
  if (r->mode != P::M_SETUP) { if (hw::pins[YELLOW] != (r->mode == P::M_NORMAL)) mc::fail("yellow LED %s in mode %d", hw::pins[YELLOW] ? "on" : "off", r->mode); return; }
}
static void nodeTime(unsigned long ms)
{
  for (unsigned long t = 0; t < ms;)
  {
    unsigned long d = ms - t < 100 ? ms - t : 100; t += d; hw::now += d;
    w->settle(); r->tick(hw::now);
  }
}
static void quiet() { nodeTime(5); leds(); }
static void press(unsigned long ms)
{
  clearStep(*w, *r);
  level(1); w->settle(); r->tick(hw::now);
  for (unsigned long t = 0; t < ms;)
  {
    unsigned long d = ms - t < 100 ? ms - t : 100; t += d; hw::now += d; w->settle(); r->tick(hw::now);
    if (t > 4000 && hw::pins[GREEN]) { hw::now += 5; t += 5; w->settle(); r->tick(hw::now); if (hw::pins[GREEN]) mc::fail("green LED on while held for %lu ms", t); }
  }
  nodeJudge("while pressed");
  clearStep(*w, *r);
  level(0); w->settle();
  if (ms > 4000) r->actChangeMode(); else if (ms >= 1000 && ms < 2000) r->actRenegotiate(); else if (ms < 500) r->startEnum(false);
  nodeJudge("after release");
  clearStep(*w, *r); quiet(); nodeJudge("later");
}
static void nmsg(const Msg &m)
{
  clearStep(*w, *r); w->can->pushMsg(m); w->settle();
  if (!hw::pins[GREEN]) mc::fail("no activity shown for %s", str(m).c_str());
  r->receive(m);
  if (r->restartAsked) { stepRestart(*w, *r, NO_OUT | NO_CB); quiet(); return; }
  nodeJudge("after a message");
  clearStep(*w, *r); quiet(); nodeJudge("after a message");
}
static void nodeBase(int k)
{
  hw::now = 1000; level(0);
  w = mc::make<NodeWorld>(); r = new RefNode;
  NodeCfg c; c.maxEvents = 1; c.numEvs = 1; c.numNvs = 1; c.ui = true; c.diag = false; c.vary = 13;
  if (k == 1) bootFactory(*w, *r, c); else bootNormal(*w, *r, c, k == 3 ? 0 : NN);
  if (k == 2) { press(1500); }
  quiet();
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(stName[k]); };
  {
    static OpList *l = new OpList;
    static const int P4[] = {1, 7, 100, 333};
    const int N = mc::pick(4300, 10000);
    l->add(N * 4, [](uint64_t k) {
      level(1); at(); run(k / 4 + 1, P4[k & 3]); level(0); at(); run(6, 1);
    }, [](uint64_t k) { return "press for " + std::to_string(k / 4 + 1) + " ms, polled every " + std::to_string(P4[k & 3]); });
    l->add(4, [](uint64_t k) { level(1); at(); run(70000, P4[k]); level(0); at(); }, [](uint64_t k) { return "press for 70 s, polled every " + std::to_string(P4[k]); });
    // very long presses
    l->add(6 * 4200, [](uint64_t k) {
      static const unsigned long B[6] = {8000, 32000, 65500, 131000, 16777000, 4294967000ul};
      unsigned long d = B[k % 6] + k / 6; level(1); at(); hw::now += d - 1; at(); ++hw::now; level(0); at(); run(3, 1);
    }, [](uint64_t k) { return "very long press " + std::to_string(k); });
    sc.push_back(scen("press length", 1, l, NST, base, bn));
  }
  {
    static OpList *l = new OpList;
    static const unsigned D[] = {0, 1, 499, 500, 999, 1000, 1999, 2000, 4000, 4001, 9000};
    l->add(11, [](uint64_t k) { level(1); at(); hw::now += D[k]; level(0); at(); }, [](uint64_t k) { return "press for " + std::to_string(D[k]); });
    l->add(2, [](uint64_t k) { level(k); at(); }, [](uint64_t k) { return std::string(k ? "press down" : "release"); });
    l->add(1, [](uint64_t k) { level(1); level(0); at(); }, [](uint64_t k) { return std::string("press unseen between two rounds"); });
    l->add(8, [](uint64_t k) { static const int T[] = {1, 4, 5, 249, 499, 500, 3000, 4001}; hw::now += T[k]; at(); }, [](uint64_t k) { static const int T[] = {1, 4, 5, 249, 499, 500, 3000, 4001}; return std::to_string(T[k]) + " ms"; });
    l->add(3, [](uint64_t k) { at(MODES[k]); }, [](uint64_t k) { return std::string("indicate ") + MODEN[k]; });
    l->add(1, [](uint64_t k) { at(-1, true); }, [](uint64_t k) { return std::string("activity"); });
    auto s = scen("sequences", mc::pick(4, 5), l, NST, base, bn); sc.push_back(s);
  }
  {
    static OpList *l = new OpList;
    l->add(4096 * 3, [](uint64_t k) { // two activities and every pattern of polling
      at(-1, true);
      int d = k / 4096 * 3;
      for (int i = 0; i < 12; ++i) { ++hw::now; if (i == d && d) at(-1, true); else if (k >> i & 1) at(); }
      hw::now += 5; at();
    }, [](uint64_t k) { return "activity, polling pattern " + std::to_string(k % 4096) + " second after " + std::to_string(k / 4096 * 3); });
    l->add(1200 * 3, [](uint64_t k) { run(1, 1); at(MODES[k % 3]); run(5000, k / 3 + 1); at(P::M_SETUP); run(5000, k / 3 + 1); at(MODES[k % 3]); run(700, 1); }, [](uint64_t k) { return std::string("long indication of ") + MODEN[k % 3] + " and setup polled every " + std::to_string(k / 3 + 1); });
    l->add(1300, [](uint64_t k) { at(P::M_SETUP); run(k, 1); at(P::M_NORMAL); run(k % 501, 1); at(P::M_SETUP); run(1600, 1); at(P::M_UNINIT); run(3, 1); }, [](uint64_t k) { return "setup shown for " + std::to_string(k) + " ms and again"; });
    sc.push_back(scen("indication", 1, l, NST, base, bn));
  }
  {
    static OpList *l = new OpList;
    static const unsigned D[] = {100, 499, 500, 1000, 1999, 2000, 4000, 4001};
    l->add(8, [](uint64_t k) { press(D[k]); }, [](uint64_t k) { return "press for " + std::to_string(D[k]); });
    l->msgs({M({P::SNN, A, B}), M({P::SNN, 0, 9}), M({P::RQNN, 0, 0}), M({P::MODE, A, B, 0}), M({P::MODE, A, B, 255}), M({P::NNRSM, A, B}), M({P::QNN}), M({P::NNLRN, A, B})}, nmsg);
    l->add(1, [](uint64_t k) { stepRestart(*w, *r, NO_CB); quiet(); }, [](uint64_t k) { return std::string("restart"); });
    l->add(1, [](uint64_t k) { clearStep(*w, *r); nodeTime(1100); nodeJudge("later"); leds(); }, [](uint64_t k) { return std::string("wait"); });
    static const char *nn[] = {"node in normal mode", "factory fresh node", "node in setup", "node with number 0"};
    auto s = scen("whole node", mc::pick(4, 5), l, 4, nodeBase, [](int k) { return std::string(nn[k]); }); sc.push_back(s);
  }
  {
    // the switch by itself, both polarities
    static VLCB::Switch *s; static int pol, last; static unsigned long lastT, lastD; static bool changed;
    auto check = [] {
      mc::countCheck();
      int lv = hw::pins[9];
      if (s->stateChanged() != changed) mc::fail("stateChanged %d expected %d", s->stateChanged(), changed);
      if (s->getState() != lv || s->isPressed() != (lv == pol)) mc::fail("state %d pressed %d, pin %d", s->getState(), s->isPressed(), lv);
      if (s->getLastStateChangeTime() != lastT || s->getCurrentStateDuration() != hw::now - lastT) mc::fail("last change at %lu (%lu ago), expected %lu", s->getLastStateChangeTime(), s->getCurrentStateDuration(), lastT);
      if (s->getLastStateDuration() != lastD) mc::fail("last state lasted %lu, expected %lu", s->getLastStateDuration(), lastD);
    };
    static auto chk = check;
    static auto runS = [] { s->run(); int lv = hw::pins[9]; changed = lv != last; if (changed) { lastD = hw::now - lastT; lastT = hw::now; last = lv; } chk(); };
    static OpList *l = new OpList;
    l->add(2, [](uint64_t k) { hw::pins[9] = k; runS(); }, [](uint64_t k) { return "pin " + std::to_string(k); });
    l->add(4, [](uint64_t k) { static const unsigned long T[] = {1, 300, 70000, 0xFFFFFFFFFFFFF000ul}; hw::now += T[k]; runS(); }, [](uint64_t k) { return "time step " + std::to_string(k); });
    l->add(1, [](uint64_t k) { s->resetCurrentDuration(); lastT = hw::now; chk(); }, [](uint64_t k) { return std::string("reset duration"); });
    l->add(1, [](uint64_t k) { s->reset(); last = !pol; changed = false; lastT = lastD = 0; runS(); }, [](uint64_t k) { return std::string("reset"); });
    l->add(1, [](uint64_t k) { hw::pins[9] = !hw::pins[9]; hw::pins[9] = !hw::pins[9]; runS(); }, [](uint64_t k) { return std::string("glitch between rounds"); });
    sc.push_back(scen("switch", mc::pick(6, 8), l, 4, [](int k) { hw::now = 5; pol = k & 1; hw::pins[9] = k >> 1; s = mc::make<VLCB::Switch>(9, pol); last = !pol; lastT = lastD = 0; changed = false; runS(); if (pol == 0 && hw::modes[9] != INPUT_PULLUP) mc::fail("no pull-up"); }, [](int k) { return std::string(k & 1 ? "pressed high" : "pressed low") + (k >> 1 ? ", starts high" : ", starts low"); }));
  }
  {
    // the LED by itself
    static VLCB::LED *d; static bool st, bl, pu; static unsigned long lt, pt;
    static auto chk = [](bool ran) {
      mc::countCheck();
      if (d->getState() != st) mc::fail("LED state %d expected %d", d->getState(), st);
      if (ran && hw::pins[10] != (st || pu)) mc::fail("LED pin %d expected %d", hw::pins[10], st || pu);
    };
    static auto runL = [] { d->run(); if (bl && hw::now - lt >= 500) { st = !st; lt = hw::now; } if (pu && hw::now - pt >= 5) pu = false; chk(true); };
    static OpList *l = new OpList;
    static const char *n[] = {"on", "off", "toggle", "blink", "pulse"};
    l->add(5, [](uint64_t k) {
      switch (k)
      {
      case 0: d->on(); st = true; bl = false; break;
      case 1: d->off(); st = false; bl = false; break;
      case 2: d->toggle(); st = !st; break;
      case 3: d->blink(); bl = true; break;
      default: d->pulse(); pu = true; pt = hw::now; if (bl && hw::now - lt >= 500) { st = !st; lt = hw::now; } chk(true); return;
      }
      chk(false);
    }, [](uint64_t k) { return std::string(n[k]); });
    l->add(1, [](uint64_t k) { runL(); }, [](uint64_t k) { return std::string("run"); });
    l->add(5, [](uint64_t k) { static const unsigned long T[] = {1, 4, 5, 499, 500}; hw::now += T[k]; runL(); }, [](uint64_t k) { return "time step " + std::to_string(k); });
    sc.push_back(scen("LED", mc::pick(6, 8), l, 2, [](int k) { hw::now = k ? (unsigned long)-700 : 600; d = mc::make<VLCB::LED>(10); if (hw::modes[10] != OUTPUT) mc::fail("LED pin is not an output"); st = bl = pu = false; lt = pt = 0; runL(); }, [](int k) { return std::string(k ? "clock about to wrap" : "start"); }));
  }
  longer(sc, "whole node", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C22", sc.data(), sc.size(), "explicit-state exploration of the real user interface against a reference, with exhaustive press lengths and polling patterns");
}
