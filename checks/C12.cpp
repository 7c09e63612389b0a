// C12: every message crosses the CAN boundary once, in order and unchanged.
#include "world.h"
#include "alpha.h"
#include <algorithm>
struct Watch : public VLCB::Service
{
  bool echo = false; int activity = 0, n = 0; Msg in[80];
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override;
};
struct W
{
  FakeStorage *st; FakeCan *can; VLCB::Configuration *cfg; VLCB::Controller *ctl; VLCB::CanService *cs; Watch *watch;
  // expectations
  Msg in[80]; int nin = 0, dataIn = 0;       // frames that are messages, in arrival order
  Msg out[80]; int nout = 0;                 // messages given to the controller to send
  int rtrIn = 0; uint8_t seq = 0; int clash = 0;
  int checkedIn = 0;
};
static W *w;
void Watch::process(const VLCB::Action *a)
{
  if (!a) return;
  if (a->actionType == VLCB::ACT_INDICATE_ACTIVITY) ++activity;
  if (a->actionType == VLCB::ACT_MESSAGE_IN)
  {
    if (n < 80) { memset(&in[n], 0, sizeof in[n]); in[n].len = a->vlcbMessage.len; memcpy(in[n].d, a->vlcbMessage.data, a->vlcbMessage.len > 8 ? 8 : a->vlcbMessage.len); }
    ++n;
    if (echo && a->vlcbMessage.len)
    {
      VLCB::VlcbMessage m = a->vlcbMessage; m.data[0] ^= 0x80;
      Msg k; memset(&k, 0, sizeof k); k.len = m.len; memcpy(k.d, m.data, m.len); w->out[w->nout++] = k;
      controller->sendMessage(&m);
    }
  }
}
static const char *cfgn[] = {"CAN service first", "CAN service last", "a service answering every message", "diagnostic CAN service", "a service answering every message, global configuration"};
static void boot(int k)
{
  using namespace VLCB;
  w = mc::make<W>();
  w->st = mc::make<FakeStorage>(32); memset(w->st->mem, 0, 32); w->st->mem[0] = 1; w->st->mem[1] = 5; w->st->mem[2] = 1; w->st->mem[3] = 4;
  w->can = mc::make<FakeCan>(80, 64);
  if (k == 4) { memset((void *)&VLCB::config, 0, sizeof VLCB::config); w->cfg = new (&VLCB::config) Configuration(w->st); }
  else w->cfg = mc::make<Configuration>(w->st);
  w->cfg->EE_NVS_START = 10; w->cfg->EE_NUM_NVS = 1; w->cfg->EE_MAX_EVENTS = 1; w->cfg->EE_NUM_EVS = 1;
  w->cfg->begin();
  w->cs = k == 3 ? mc::make<CanServiceWithDiagnostics>(w->can) : mc::make<CanService>(w->can); w->watch = mc::make<Watch>(); w->watch->echo = k == 2 || k == 4;
  if (k == 4) w->ctl = mc::make<Controller>(std::initializer_list<Service *>{w->watch, w->cs});
  else w->ctl = k == 1 ? mc::make<Controller>(w->cfg, std::initializer_list<Service *>{w->watch, w->cs}) : mc::make<Controller>(w->cfg, std::initializer_list<Service *>{w->cs, w->watch});
  unsigned char *p = (unsigned char *)mc::arenaAlloc(21, true); w->ctl->setParams(p);
  w->ctl->begin();
}
static void arrive(uint32_t id, bool ext, bool rtr, const Msg &m)
{
  VLCB::CANFrame f; memset(&f, 0xEE, sizeof f); f.id = id; f.ext = ext; f.rtr = rtr; f.len = m.len; memcpy(f.data, m.d, m.len > 8 ? 8 : m.len);
  w->can->push(f);
  if (ext) return;
  if (rtr) { ++w->rtrIn; return; }
  ++w->dataIn; w->in[w->nin++] = m;
}
static void sendOut(const Msg &m)
{
  VLCB::VlcbMessage v; memset(&v, 0xDD, sizeof v); v.len = m.len; memcpy(v.data, m.d, m.len);
  w->out[w->nout++] = m;
  w->ctl->sendMessage(&v);
}
// what has come out so far must be a prefix of what is due
static void check(bool final)
{
  mc::countCheck();
  int k = 0, empty = 0, rtr = 0;
  for (int i = 0; i < w->can->nout; ++i)
  {
    VLCB::CANFrame &f = w->can->out[i];
    if (f.ext) mc::fail("extended frame sent: %s", frameStr(f).c_str());
    if (f.id >> 7 != 0xB) mc::fail("priority %X in %s", (unsigned)(f.id >> 7), frameStr(f).c_str());
    if (f.rtr) { ++rtr; continue; }
    if (f.len == 0) { ++empty; continue; }
    if (k >= w->nout) mc::fail("frame sent that nobody asked for: %s", frameStr(f).c_str());
    Msg m; memset(&m, 0, sizeof m); m.len = f.len; memcpy(m.d, f.data, f.len > 8 ? 8 : f.len);
    if (!(m == w->out[k])) mc::fail("message %d sent as %s, expected %s", k, frameStr(f).c_str(), str(w->out[k]).c_str());
    ++k;
  }
  if (rtr && !w->clash) mc::fail("remote frame sent without cause");
  if (empty > w->rtrIn) mc::fail("%d empty frames sent for %d remote frames", empty, w->rtrIn);
  if (w->watch->n > w->nin) mc::fail("%d messages delivered, only %d arrived", w->watch->n, w->nin);
  for (int i = 0; i < w->watch->n; ++i) if (!(w->watch->in[i] == w->in[i])) mc::fail("message %d delivered as %s, expected %s", i, str(w->watch->in[i]).c_str(), str(w->in[i]).c_str());
  if (!final) return;
  if (k != w->nout) mc::fail("%d of %d messages sent", k, w->nout);
  if (w->watch->n != w->nin) mc::fail("%d of %d messages delivered", w->watch->n, w->nin);
  if (empty != w->rtrIn) mc::fail("%d empty frames sent for %d remote frames", empty, w->rtrIn);
  if (w->watch->activity != w->dataIn + w->nout) mc::fail("%d activity indications for %d frames in and %d out", w->watch->activity, w->dataIn, w->nout);
}
static void rounds(int n) { for (int i = 0; i < n; ++i) w->ctl->process(); }
static void finish()
{
  for (int i = 0; i < 300 && (w->ctl->pendingAction() || w->can->n); ++i) w->ctl->process();
  rounds(3);
  check(true);
}
// every outgoing frame leaves with the CAN id of that moment
static int lastOut = 0;
static void round1()
{
  int before = w->can->nout, id = w->cfg->CANID;
  w->ctl->process();
  for (int i = before; i < w->can->nout && i < w->can->capOut; ++i) if ((w->can->out[i].id & 0x7F) != (unsigned)id && (w->can->out[i].id & 0x7F) != w->cfg->CANID) mc::fail("frame %s sent by node with CAN id %d", frameStr(w->can->out[i]).c_str(), id);
  check(false);
}
static Msg fresh(int len, int opc) { Msg m; memset(&m, 0, sizeof m); m.len = len; uint8_t s = ++w->seq; for (int i = 0; i < len; ++i) m.d[i] = i == 0 ? opc : s + i * 16; return m; }
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  auto cn = [](int k) { return std::string(cfgn[k]); };
  {
    static OpList *l = new OpList;
    auto op = [](const char *n, std::function<void()> f) { l->add(1, [f](uint64_t) { f(); }, [n](uint64_t) { return std::string(n); }); };
    op("process", [] { round1(); });
    op("2-byte frame arrives", [] { arrive(0xB << 7 | 9, false, false, fresh(2, 0x60)); });
    op("8-byte frame arrives", [] { arrive(0x5 << 7 | 127, false, false, fresh(8, 0xF8)); });
    op("1-byte frame arrives", [] { arrive(0x0 << 7 | 1, false, false, fresh(1, w->seq & 0x1F)); });
    op("empty frame arrives", [] { arrive(0xB << 7 | 9, false, false, M({})); });
    op("remote frame arrives", [] { arrive(0xB << 7 | 9, false, true, fresh(w->seq % 9, 0x60)); });
    op("extended frame arrives", [] { arrive(0xB << 7 | 9, true, false, fresh(4, 0x60)); });
    op("send 5 bytes", [] { sendOut(fresh(5, 0x90)); });
    op("send 8 bytes", [] { sendOut(fresh(8, 0xF0)); });
    op("CAN id changes", [] { w->cfg->setCANID(w->cfg->CANID == 5 ? 77 : 5); });
    auto s = scen("schedules", mc::pick(7, 8), l, 5, boot, cn); s.finish = finish; sc.push_back(s);
  }
  {
    // fewer kinds, longer schedules
    static OpList *l = new OpList;
    auto op = [](const char *n, std::function<void()> f) { l->add(1, [f](uint64_t) { f(); }, [n](uint64_t) { return std::string(n); }); };
    op("process", [] { round1(); });
    op("frame arrives", [] { arrive(0xB << 7 | 9, false, false, fresh(3, 0x70)); });
    op("send", [] { sendOut(fresh(5, 0x90)); });
    op("remote frame arrives", [] { arrive(0xB << 7 | 9, false, true, fresh(w->rtrIn % 2 * 8, 0x60)); });
    auto s = scen("long schedules", mc::pick(11, 13), l, 3, boot, cn); s.finish = finish; sc.push_back(s);
  }
  {
    // id clashes and enumerations going on meanwhile
    static OpList *l = new OpList;
    auto op = [](const char *n, std::function<void()> f) { l->add(1, [f](uint64_t) { f(); }, [n](uint64_t) { return std::string(n); }); };
    op("process", [] { round1(); });
    op("frame arrives", [] { arrive(0xB << 7 | 9, false, false, fresh(3, 0x70)); });
    op("frame with own CAN id arrives", [] { w->clash = 1; arrive(0xB << 7 | w->cfg->CANID, false, false, fresh(5, 0x90)); });
    op("frame with CAN id 1 arrives", [] { w->clash = 1; arrive(0xB << 7 | 1, false, false, fresh(8, 0xF0)); });
    op("send", [] { sendOut(fresh(5, 0x90)); });
    op("remote frame with own CAN id arrives", [] { arrive(0xB << 7 | w->cfg->CANID, false, true, M({})); });
    op("enumeration action", [] { w->clash = 1; w->ctl->putAction(VLCB::ACT_START_CAN_ENUMERATION); });
    op("100 ms pass", [] { hw::now += 100; });
    auto s = scen("schedules with enumerations", mc::pick(6, 7), l, 5, boot, cn); s.finish = finish; sc.push_back(s);
  }
  {
    // bursts up to the bound of the queue, with every number of processing rounds between two halves
    static OpList *l = new OpList;
    l->add(30 * 30, [](uint64_t k) {
      int a = k % 30, b = k / 30;            // frames waiting at the transport
      if (a + b > (w->watch->echo ? 14 : 28)) return;
      for (int i = 0; i < a; ++i) arrive(0xB << 7 | (i + 6), false, i % 7 == 6, i % 7 == 6 ? M({}) : fresh(i % 8 + 1, 0x60));
      rounds(b); check(false);
      for (int i = 0; i < b; ++i) arrive(0xB << 7 | (i + 6), false, false, fresh(8 - i % 8, 0x70));
      finish();
    }, [](uint64_t k) { return "bursts of " + std::to_string(k % 30) + " and " + std::to_string(k / 30) + " frames"; });
    l->add(31 * 31, [](uint64_t k) {
      int a = k % 31, b = k / 31; if (a + b > 30) return;
      for (int i = 0; i < a; ++i) sendOut(fresh(i % 8 + 1, 0x60));
      rounds(b % 5); check(false);
      for (int i = 0; i < b; ++i) sendOut(fresh(8 - i % 8, 0x60));
      finish();
    }, [](uint64_t k) { return "sending " + std::to_string(k % 31) + " and " + std::to_string(k / 31) + " messages"; });
    l->add(15 * 15, [](uint64_t k) {
      int a = k % 15, b = k / 15; if (a + b > 12) return;
      for (int i = 0; i < a; ++i) sendOut(fresh(i % 8 + 1, 0x60));
      for (int i = 0; i < b; ++i) arrive(0xB << 7 | (i + 6), false, false, fresh(8 - i % 8, 0x70));
      finish();
    }, [](uint64_t k) { return "sending " + std::to_string(k % 15) + " messages with " + std::to_string(k / 15) + " frames waiting"; });
    sc.push_back(scen("bursts", 1, l, 5, boot, cn));
  }
  {
    // ordered triples of frames of many kinds, processed at once or one after the other
    struct K { int id; bool ext, rtr; int len; int out; int opc; };
    static std::vector<K> ks;
    for (int len = 0; len <= 8; ++len) ks.push_back({0xB << 7 | 9, false, true, len, 0, 0x60});
    for (int len = 0; len <= 8; ++len) ks.push_back({0xB << 7 | 9, false, false, len, 0, 0x60});
    for (int len : {1, 3, 8}) ks.push_back({0, false, false, len, 1, 0x90});
    for (int id : {0, 1, 126, 127, 0x7FF, 0x781, 0x3F << 4}) { ks.push_back({id, false, false, 4, 0, 0x81}); ks.push_back({id, false, true, id & 8, 0, 0x60}); }
    for (int len : {0, 8}) { ks.push_back({9, true, false, len, 0, 0x60}); ks.push_back({9, true, true, len, 0, 0x60}); }
    for (int o : std::initializer_list<int>{P::ACON, P::ASOF3, P::DTXC, P::RQSD, P::QNN, 0x00, 0xFF}) ks.push_back({0xB << 7 | 9, false, false, 8, 0, o});
    static const int n = ks.size();
    static OpList *l = new OpList;
    l->add((uint64_t)n * n * n * 2, [](uint64_t k) {
      bool step = k & 1; k >>= 1;
      for (int i = 0; i < 3; ++i, k /= n)
      {
        const K &f = ks[k % n]; Msg m = fresh(f.len, f.opc);
        if (f.out) sendOut(m); else arrive(f.id, f.ext, f.rtr, m);
        if (step) round1();
      }
      finish();
    }, [](uint64_t k) { std::string t = k & 1 ? "with rounds between:" : "at once:"; k >>= 1; for (int i = 0; i < 3; ++i, k /= n) { const K &f = ks[k % n]; char b[60]; snprintf(b, sizeof b, " %s%s%s id %X length %d opcode %02X;", f.out ? "send" : "frame", f.ext ? " extended" : "", f.rtr ? " remote" : "", f.id, f.len, f.opc); t += b; } return t; });
    sc.push_back(scen("triples of frames", 1, l, 5, boot, cn));
    // two kinds again and again
    static OpList *l2 = new OpList;
    l2->add((uint64_t)n * n * 2, [](uint64_t k) {
      const K *f[2] = {&ks[k / 2 % n], &ks[k / 2 / n]}; bool step = k & 1;
      for (int i = 0; i < (f[0] == f[1] ? 66000 : 300); ++i)
      {
        for (auto q : f) { Msg m = fresh(q->len, q->opc); if (q->out) sendOut(m); else arrive(q->id, q->ext, q->rtr, m); if (step) round1(); }
        finish();
        w->nin = w->nout = w->dataIn = w->rtrIn = w->watch->n = w->watch->activity = w->can->nout = 0;
      }
    }, [](uint64_t k) { return "again and again: frame kinds " + std::to_string(k / 2 % n) + " and " + std::to_string(k / 2 / n) + (k & 1 ? " with rounds between" : ""); });
    sc.push_back(scen("long histories", 1, l2, 5, boot, cn));
  }
  {
    // every header, length, byte position and value; in both directions
    static OpList *l = new OpList;
    l->add(2048 * 9, [](uint64_t k) { int id = k % 2048, len = k / 2048; if ((id & 127) == 5 && len) w->clash = 1; arrive(id, false, false, fresh(len, 0x60)); finish(); }, [](uint64_t k) { return "frame with id " + std::to_string(k % 2048) + " length " + std::to_string(k / 2048); });
    l->add(8 * 256 * 9 * 2, [](uint64_t k) {
      int pos = k & 7, v = k >> 3 & 255, len = (k >> 11) % 9; bool out = (k >> 11) / 9;
      if (out && !len) return;
      Msg m = fresh(len, 0x60); if (pos < len) m.d[pos] = v;
      if (!out && len >= 3 && (m.d[0] == P::ENUM || m.d[0] == P::CANID) && m.d[1] == 1 && m.d[2] == 4) return;
      if (out) sendOut(m); else arrive(0xB << 7 | 9, false, false, m);
      finish();
    }, [](uint64_t k) { return std::string((k >> 11) / 9 ? "outgoing" : "incoming") + " length " + std::to_string((k >> 11) % 9) + " byte " + std::to_string(k & 7) + " = " + std::to_string(k >> 3 & 255); });
    l->add(128 * 9, [](uint64_t k) { w->cfg->setCANID(k & 127); int id = k & 127; if (k >> 7) sendOut(fresh(k >> 7, 0x60)); else arrive(0xB << 7 | 126, false, true, M({})); if (id == 126) w->clash = 1; for (int i = 0; i < 4; ++i) round1(); finish(); }, [](uint64_t k) { return "sending with CAN id " + std::to_string(k & 127); });
    l->add(2048 * 2 * 9, [](uint64_t k) { arrive(k % 2048 | (k & 1 ? 0x1ABC0000 : 0), true, k / 2048 & 1, fresh(k / 4096, 0x60)); finish(); }, [](uint64_t k) { return "extended frame " + std::to_string(k); });
    l->add(2048 * 9, [](uint64_t k) { Msg m = fresh(k / 2048, 0x60); arrive(k % 2048, false, true, m); finish(); }, [](uint64_t k) { return "remote frame id " + std::to_string(k % 2048) + " length " + std::to_string(k / 2048); });
    sc.push_back(scen("every frame", 1, l, 5, boot, cn));
  }
  {
    // the same while an enumeration is going on, and just after one
    static OpList *l = new OpList;
    auto begin = [](bool over) { w->clash = 1; w->ctl->putAction(VLCB::ACT_START_CAN_ENUMERATION); rounds(3); if (over) { hw::now += 100; rounds(3); } };
    l->add(2048 * 8 * 2, [begin](uint64_t k) { begin(k / 2048 / 8); arrive(k % 2048, false, false, fresh(k / 2048 % 8 + 1, 0x60)); finish(); hw::now += 100; finish(); }, [](uint64_t k) { return "frame with id " + std::to_string(k % 2048) + " length " + std::to_string(k / 2048 % 8 + 1) + (k / 2048 / 8 ? " after" : " during") + " an enumeration"; });
    l->add(256 * 8 * 4, [begin](uint64_t k) {
      Msg m = fresh(k / 256 % 8 + 1, k & 255); int v = k / 2048; begin(v & 1);
      if (v < 2) sendOut(m); else { if (m.len >= 3 && (m.d[0] == P::ENUM || m.d[0] == P::CANID) && m.d[1] == 1 && m.d[2] == 4) return; arrive(0xB << 7 | 9, false, false, m); }
      finish(); hw::now += 100; finish();
    }, [](uint64_t k) { return std::string(k / 4096 ? "incoming" : "outgoing") + " opcode " + std::to_string(k & 255) + " length " + std::to_string(k / 256 % 8 + 1) + (k / 2048 & 1 ? " after" : " during") + " an enumeration"; });
    l->add(128 * 2, [begin](uint64_t k) { begin(k >> 7); arrive(0xB << 7 | (k & 127), false, true, M({})); finish(); hw::now += 100; finish(); }, [](uint64_t k) { return "remote frame with id " + std::to_string(k & 127) + (k >> 7 ? " after" : " during") + " an enumeration"; });
    // every opcode under the node's own CAN id, addressed to another node or to this one
    l->add(256 * 8 * 4, [begin](uint64_t k) {
      Msg m = fresh(k / 256 % 8 + 1, k & 255); int v = k / 2048;
      if (v & 2 && m.len >= 3) { m.d[1] = 1; m.d[2] = 4; if (m.d[0] == P::CANID) return; }
      begin(v & 1); arrive(0xB << 7 | w->cfg->CANID, false, false, m);
      finish(); hw::now += 100; finish();
    }, [](uint64_t k) { return "incoming opcode " + std::to_string(k & 255) + " length " + std::to_string(k / 256 % 8 + 1) + " with own CAN id " + std::to_string(k / 2048); });
    sc.push_back(scen("every frame with enumerations", 1, l, 5, boot, cn));
  }
  return mc::run(argc, argv, "C12", sc.data(), sc.size(), "stateless exploration of every interleaving of frame arrivals, sends, CAN id changes and processing rounds on the real CAN service and controller, against a FIFO reference");
}
