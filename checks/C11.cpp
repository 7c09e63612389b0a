// C11: CAN id self-enumeration picks the lowest id no other node answered with.
#include "world.h"
#include "alpha.h"
#include <algorithm>
static NodeWorld *w; static RefNode *r;
const int NN = 0x0104, A = NN >> 8, B = NN & 255;
static const int FL = CMP_ID | NO_CB;
static bool g_judge = true;
// only what belongs to enumeration is judged: remote frames, NNACK, replies to CANID/ENUM and the CAN id itself
static void send(const Msg &m) { int o = m.len ? m.d[0] : -1; stepMsg(*w, *r, m, FL | (o == P::CANID || o == P::ENUM ? 0 : NO_OUT)); }
static void frame(uint32_t id, bool ext, bool rtr, const Msg &m) { stepFrame(*w, *r, id, ext, rtr, m, FL); if (w->st->mem[1] != r->canid) mc::fail("stored CAN id %d, expected %d", w->st->mem[1], r->canid); }
static void answer(int id, int prio = 0xB) { frame(prio << 7 | id, false, false, M({})); }
static void wait(int ms) { stepTime(*w, *r, ms, FL); if (w->st->mem[1] != r->canid) mc::fail("stored CAN id %d, expected %d", w->st->mem[1], r->canid); }
static NodeCfg cfg(bool diag) { NodeCfg c; c.maxEvents = 1; c.numEvs = 1; c.numNvs = 1; c.diag = diag; return c; }
static const char *stName[] = {"normal", "factory fresh", "setup", "diagnostic services", "CAN id 127", "clock about to wrap", "CAN id 0"};
enum { NST = 7 };
static void base(int k)
{
  w = mc::make<NodeWorld>(); r = new RefNode;
  hw::now = k == 5 ? (unsigned long)-60 : 1000;
  if (k == 1) { bootFactory(*w, *r, cfg(false)); return; }
  bootNormal(*w, *r, cfg(k == 3), NN, k == 4 ? 127 : k == 6 ? 0 : 5);
  if (k == 2) stepAction(*w, *r, 1, FL);
}
static void start(int how)
{
  switch (how)
  {
  case 0: stepAction(*w, *r, 2, FL); break;
  case 1: send(M({P::ENUM, r->nn >> 8, r->nn & 255})); break;
  case 2: frame(0xB << 7 | r->canid, false, false, M({0, 0})); break; // clash
  default: stepAction(*w, *r, 0, FL); if (!r->enumActive) stepAction(*w, *r, 0, FL); break; // mode change to setup
  }
}
static const char *startName[] = {"by button", "by request", "by clash", "by mode change"};
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto bn = [](int k) { return std::string(stName[k]); };
  {
    static OpList *l = new OpList;
    l->add(4, start, [](uint64_t k) { return std::string("start ") + startName[k]; });
    l->add(7, [](uint64_t k) { static const int id[] = {1, 2, 3, 0, 127, 5, 8}; answer(id[k]); }, [](uint64_t k) { static const int id[] = {1, 2, 3, 0, 127, 5, 8}; return "answer from " + std::to_string(id[k]); });
    l->add(4, [](uint64_t k) { static const int t[] = {1, 49, 50, 100}; wait(t[k]); }, [](uint64_t k) { static const int t[] = {1, 49, 50, 100}; return std::to_string(t[k]) + " ms"; });
    l->add(1, [](uint64_t) { frame(0xB << 7 | 2, false, true, M({})); }, [](uint64_t) { return std::string("remote frame from 2"); });
    l->add(1, [](uint64_t) { frame(0xB << 7 | r->canid, false, true, M({})); }, [](uint64_t) { return std::string("remote frame with own id"); });
    l->add(1, [](uint64_t) { frame(0xB << 7 | r->canid, true, false, M({1, 2})); }, [](uint64_t) { return std::string("extended frame with own id"); });
    l->add(1, [](uint64_t) { frame(0xB << 7 | 1, false, false, M({0})); }, [](uint64_t) { return std::string("data frame from 1"); });
    l->add(1, [](uint64_t) { answer(r->canid); }, [](uint64_t) { return std::string("empty frame with own id"); });
    l->msgs({M({P::CANID, A, B, 1}), M({P::CANID, A, B, 99}), M({P::CANID, A, B, 100}), M({P::CANID, A, B, 0}), M({P::CANID, A, B + 1, 2}), M({P::ENUM, A, B + 1}), M({P::SNN, A, B}), M({P::RQNN, 0, 0})}, send);
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL); }, [](uint64_t) { return std::string("restart"); });
    auto s = scen("sequences", mc::pick(5, 6), l, 3, [](int k) { base(k == 2 ? 5 : k); }, [](int k) { return std::string(stName[k == 2 ? 5 : k]); }); sc.push_back(s);
    s.name = "deep sequences"; s.depth = mc::pick(9, 14); s.nconfigs = 2; s.key = [] { return nodeKey(*w, *r); }; sc.push_back(s);
  }
  {
    // sets of answering ids: k<128 all of 1..k; then all but one; then every subset of 1..12; then each single; pairs around byte boundaries; windows
    static OpList *l = new OpList;
    auto run = [](int how, std::vector<int> ids, bool rev) {
      start(how);
      if (rev) std::reverse(ids.begin(), ids.end());
      for (int id : ids) answer(id);
      if (ids.size() > 3) answer(ids[1], 0x5);
      wait(99); wait(1);
      wait(100);
    };
    auto nm = [](const char *f) { return [f](uint64_t k) { return std::string(f) + " " + std::to_string(k); }; };
    l->add(128 * 8, [=](uint64_t k) { std::vector<int> v; for (int i = 1; i <= (int)(k / 8); ++i) v.push_back(i); run(k & 3, v, k & 4); }, nm("all up to"));
    l->add(128 * 8, [=](uint64_t k) { std::vector<int> v; for (int i = 0; i <= 127; ++i) if (i != (int)(k / 8)) v.push_back(i); run(k & 3, v, k & 4); }, nm("all but"));
    l->add(128 * 4, [=](uint64_t k) { run(k & 3, {(int)(k / 4)}, false); }, nm("single"));
    l->add(mc::pick(1 << 12, 1 << 16), [=](uint64_t k) { std::vector<int> v; for (int i = 0; i < 16; ++i) if (k >> i & 1) v.push_back(i + 1); run(k % 3, v, false); }, nm("subset of the lowest"));
    l->add(120 * 256, [=](uint64_t k) { std::vector<int> v; int p = k >> 8; for (int i = 1; i < p; ++i) v.push_back(i); for (int i = 0; i < 8; ++i) if (k >> i & 1) v.push_back(p + i); run(1, v, false); }, nm("window"));
    auto s = scen("answer sets", 1, l, mc::pick(3, NST), base, bn);
    sc.push_back(s);
  }
  {
    // two enumerations, one after the other, in changing populations; the id held before may be any
    static OpList *l = new OpList;
    static auto pop = [](int k, std::vector<int> &v) { // 0 nobody, 1 all, 2.. all up to, then all but
      static const int B[] = {1, 6, 7, 8, 9, 63, 64, 118, 119, 120, 126, 127};
      for (int i = 1; i <= 127; ++i) if (k == 1 || (k >= 2 && k < 14 && i <= B[k - 2]) || (k >= 14 && i != B[k - 14])) v.push_back(i);
    };
    l->add(26 * 26 * 9, [](uint64_t k) {
      std::vector<int> a, b; pop(k % 26, a); pop(k / 26 % 26, b); int h = k / 676;
      start(h % 3); for (int i : a) answer(i); wait(100);
      start(h / 3); for (int i : b) answer(i); wait(99); wait(1); wait(100);
    }, [](uint64_t k) { return "populations " + std::to_string(k % 26) + " and " + std::to_string(k / 26 % 26) + ", started " + startName[k / 676 % 3] + " and " + startName[k / 676 / 3]; });
    sc.push_back(scen("two enumerations", 1, l, NST, base, bn));
    static OpList *l2 = new OpList;
    l2->add(128 * 3, [](uint64_t k) { start(k % 3); for (int i = 1; i < 128; ++i) if (i != (int)(k / 3)) answer(i); wait(99); wait(1); for (int i = 0; i < 5; ++i) wait(60); }, [](uint64_t k) { return "only " + std::to_string(k / 3) + " free, " + startName[k % 3]; });
    sc.push_back(scen("last id free", 1, l2, 128, [](int k) { w = mc::make<NodeWorld>(); r = new RefNode; hw::now = 1000; bootNormal(*w, *r, cfg(false), NN, k); }, [](int k) { return "CAN id " + std::to_string(k); }));
    sc.back().use = [](int k) { return mc::tier() == mc::THOROUGH || k < 3 || k % 9 == 1 || k > 125; };
  }
  {
    // exact timing: answers and the end at every millisecond
    static OpList *l = new OpList;
    l->add(4 * 130 * 3, [](uint64_t k) {
      int how = k & 3, t = k / 4 % 130, step = k / 4 / 130;
      start(how);
      unsigned long t0 = hw::now;
      bool done = false;
      for (unsigned long d = 1; d <= 140; d += step == 2 ? 7 : step + 1)
      {
        stepTime(*w, *r, t0 + d - hw::now, FL);
        if (!done && d >= (unsigned)t) { done = true; answer(1); }
      }
      if (r->enumActive) mc::fail("reference still enumerating");
    }, [](uint64_t k) { return std::string("start ") + startName[k & 3] + ", answer after " + std::to_string(k / 4 % 130) + " ms, polling pattern " + std::to_string(k / 520); });
    sc.push_back(scen("timing", 1, l, NST, base, bn));
    // a second start at every moment of the first
    static OpList *l2 = new OpList;
    l2->add(16 * 120, [](uint64_t k) { start(k & 3); int t = k >> 4; wait(t); answer(1); int how = k >> 2 & 3; if (how == 3) how = 0; start(how); answer(2); wait(99 - (t < 99 ? t : 0)); wait(1); wait(60); wait(60); }, [](uint64_t k) { return std::string("start ") + startName[k & 3] + ", again " + startName[k >> 2 & 3] + " after " + std::to_string(k >> 4); });
    sc.push_back(scen("restart during enumeration", 1, l2, NST, base, bn));
  }
  {
    static OpList *l = new OpList;
    addSpace(*l, {{{P::CANID}, {A, 0}, {B, 0, 9}, range(0, 255), {0, 1}, {0}, {0}, {0}}, range(4, 8)}, send);
    sc.push_back(scen("CAN id command", 1, l, NST, base, bn));
    // every frame identifier, kind and length
    static OpList *l2 = new OpList;
    l2->add(2048 * 3 * 4, [](uint64_t k) {
      int id = k % 2048, len = k / 2048 % 3, kind = k / 6144;
      frame(id, kind & 1, kind & 2, len == 0 ? M({}) : len == 1 ? M({0}) : M({0x61, 1, 2, 3, 4, 5, 6, 7}));
      wait(100);
    }, [](uint64_t k) { char b[80]; snprintf(b, sizeof b, "frame id %03X kind %d length class %d", (int)(k % 2048), (int)(k / 6144), (int)(k / 2048 % 3)); return std::string(b); });
    sc.push_back(scen("every frame", 1, l2, NST, base, bn));
  }
  {
    // several frames waiting at once when the node gets to run
    static OpList *l = new OpList;
    l->add(6 * 6 * 6 * 6, [](uint64_t k) {
      clearStep(*w, *r);
      bool due = false;
      for (int i = 0; i < 4; ++i, k /= 6)
      {
        VLCB::CANFrame f; memset(&f, 0, sizeof f); f.id = 0xB << 7;
        due |= k % 6 == 1 || k % 6 == 2;
        switch (k % 6)
        {
        case 0: f.id |= 1; break;
        case 1: f.id |= r->canid; f.len = 1; break;
        case 2: f.id |= 2; f.len = 3; f.data[0] = P::ENUM; f.data[1] = r->nn >> 8; f.data[2] = r->nn; break;
        case 3: f.id |= 2; break;
        case 4: f.id |= 2; f.rtr = true; break;
        case 5: f.id |= 2; f.len = 1; break;
        }
        w->can->push(f);
      }
      w->settle();
      mc::countCheck();
      int rtr = 0, em = 0;
      for (int i = 0; i < w->can->nout; ++i) if (w->can->out[i].rtr) ++rtr; else if (!w->can->out[i].len) ++em;
      if (rtr != due) mc::fail("%d remote requests, expected %d", rtr, due);
      g_ncb = 0; w->can->nout = 0;
      hw::now += 100; w->settle();
      int ack = 0; for (int i = 0; i < w->can->nout; ++i) ack += w->can->out[i].len == 3 && w->can->out[i].data[0] == P::NNACK;
      if (ack > 1) mc::fail("%d acknowledgements of one enumeration", ack);
      if (!rtr && ack) mc::fail("acknowledgement without enumeration");
      hw::now += 100; w->can->nout = 0; w->settle();
      if (w->can->nout) mc::fail("%d frames sent after the enumeration", w->can->nout);
    }, [](uint64_t k) { return "four waiting frames " + std::to_string(k); });
    sc.push_back(scen("waiting frames", 1, l, NST, base, bn));
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C11", sc.data(), sc.size(), "explicit-state exploration of the real node in lock-step with a reference enumeration model");
}
