// C17: a serial GridConnect stream is parsed correctly however it is chunked.
#include "world.h"
#include "alpha.h"
#include "gc.h"
#include <SerialGC.h>
using namespace gc;
static Serial_T Second;
struct Watch : public VLCB::Service
{
  int n; Msg in[20];
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override
  {
    if (!a || a->actionType != VLCB::ACT_MESSAGE_IN) return;
    if (n < 20) { memset(&in[n], 0, sizeof(Msg)); in[n].len = a->vlcbMessage.len; memcpy(in[n].d, a->vlcbMessage.data, in[n].len > 8 ? 8 : in[n].len); }
    ++n;
  }
};
struct GPort // one port with its reference receiver
{
  VLCB::SerialGC *gc; int port;
  char buf[32]; int n; bool on, over;               // text being received; over-long text being skipped
  char fifo[160]; int head, tail;                   // bytes on their way
  unsigned rx, rxe, tx, txe, base[2];
  const char *stream; int pos;
};
struct W { GPort p[2]; int np; FakeStorage *st; VLCB::Configuration *cfg; VLCB::Controller *ctl; VLCB::CanService *cs; Watch *watch; };
static W *w;
static void build(int ports)
{
  w = mc::make<W>(); w->np = ports;
  for (int i = 0; i < ports; ++i)
  {
    GPort &p = w->p[i]; p.port = i; p.gc = i ? mc::make<VLCB::SerialGC>(Second) : mc::make<VLCB::SerialGC>(Serial); p.stream = "";
    p.gc->begin(); hw::serClearOut(0);
    p.base[0] = p.gc->receiveErrorCounter(); p.base[1] = p.gc->transmitErrorCounter();
  }
}
static void counters(GPort &p, const char *what)
{
  mc::countCheck();
  if (p.gc->receiveCounter() != p.rx) mc::fail("%s: receive counter is %u, expected %u", what, p.gc->receiveCounter(), p.rx);
  if (p.gc->receiveErrorCounter() != p.rxe) mc::fail("%s: receive error counter is %u, expected %u", what, p.gc->receiveErrorCounter(), p.rxe);
  if (p.gc->transmitCounter() != p.tx) mc::fail("%s: transmit counter is %u, expected %u", what, p.gc->transmitCounter(), p.tx);
  if (p.gc->transmitErrorCounter() != p.txe) mc::fail("%s: transmit error counter is %u, expected %u", what, p.gc->transmitErrorCounter(), p.txe);
}
static void feed(GPort &p, char c) { hw::serPut(c, p.port); p.fifo[p.head++ % 160] = c; }
// what the next byte means
static bool expectNext(GPort &p, CANFrame &f, bool &vague)
{
  vague = false;
  if (p.head == p.tail) return false;
  unsigned char c = p.fifo[p.tail++ % 160]; if (c >= 'a' && c <= 'z') c -= 32;
  if (c == ':') { p.on = true; p.over = false; p.n = 0; p.buf[p.n++] = c; return false; }
  if (p.over) { if (c == ';') { p.over = false; vague = true; } return false; }   // whether an over-long text counts is left open
  if (!p.on) return false;
  p.buf[p.n++] = c;
  if (p.n == 30) { p.on = false; p.over = c != ';'; vague = true; return false; }
  if (c != ';') return false;
  p.on = false; ++p.rx;
  if (parse(p.buf, p.n, f)) return true;
  ++p.rxe; return false;
}
static bool poll(GPort &p)
{
  CANFrame want; memset(&want, 0, sizeof want); bool vague; int before = p.head - p.tail;
  bool exp = expectNext(p, want, vague), got = p.gc->available();
  if (got != exp) mc::fail("available() is %d, text so far %s", got, show(std::string(p.buf, p.n)).c_str());
  if (got)
  {
    CANFrame f = p.gc->getNextCanFrame();
    if (!same(f, want)) mc::fail("received %s, expected %s", show(f).c_str(), show(want).c_str());
    mc::note("received %s", show(f).c_str());
  }
  if (vague)
  {
    unsigned r = p.gc->receiveCounter() - p.rx, e = p.gc->receiveErrorCounter() - p.rxe;
    if (r > 1 || e > 1) mc::fail("an over-long text counted %u times and as %u errors", r, e);
    p.rx += r; p.rxe += e;
  }
  if (hw::serPending(p.port) != p.head - p.tail) mc::fail("%d bytes taken from the line at once", before - hw::serPending(p.port));
  counters(p, "after polling");
  return got;
}
static void put(GPort &p, char c) { feed(p, c); poll(p); }
static void puts(GPort &p, const std::string &s) { for (char c : s) put(p, c); }
static void send(GPort &p, CANFrame f)
{
  CANFrame g = f; std::string want = text(f);
  hw::serClearOut(0); hw::serClearOut(1);
  bool ok = p.gc->sendCanFrame(&f);
  if (ok != !want.empty()) mc::fail("sendCanFrame(%s) returned %d", show(g).c_str(), ok);
  hw::Port &q = hw::port[p.port];
  std::string got(q.out, q.outLen);
  if (got != want) mc::fail("sent %s as %s, expected %s", show(g).c_str(), show(got).c_str(), show(want).c_str());
  if (hw::port[!p.port].outLen) mc::fail("sent something on the other port");
  if (memcmp(&f, &g, sizeof f)) mc::fail("sending changed the frame");
  if (ok) ++p.tx; else { unsigned d = p.gc->transmitCounter() - p.tx; if (d > 1) mc::fail("a refused frame counted %u times", d); p.tx += d; ++p.txe; }
  counters(p, "after sending");
}
static const char *good[] = {":S0020N;", ":SFFE0N0102030405060708;", ":X12345678N99AABBCCDDEEFF00;", ":XFFE3FFFFR;", ":sb020naf01;", ":S1240R0A0B;"};
int main(int argc, char **argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  mc::checkArena = true;
  std::vector<mc::Scenario> sc;
  // 1. all character sequences after typical beginnings
  {
    static const char al[] = ":;SXNR0Af\x80";
    static const char *pre[] = {"", ":", ":S0020", ":S0020N", ":S0020N01020304050607", ":S0020N0102030405060708", ":X0020000", ":X00200001N00010203040506", ":X00200001N0001020304050607", ":S0020N0102030405060708090A", ":S0020N0102030405060708090A0B0C0D0E0F101112", "noise;NN01;", ":S0020N01;", ":S0020N0Z;", ":X00200001N00010203040506070"};
    static OpList l; l.add(sizeof al - 1, [](uint64_t k) { put(w->p[0], al[k]); }, [](uint64_t k) { return show(std::string(1, al[k])); });
    mc::Scenario x = scen("character sequences", mc::pick(5, 7), &l, sizeof pre / sizeof *pre, [](int k) { build(1); puts(w->p[0], pre[k]); }, [](int k) { return "after " + show(pre[k]); });
    x.finish = [] { puts(w->p[0], good[1]); puts(w->p[0], ":S0020N0;"); puts(w->p[0], good[2]); };
    sc.push_back(x);
  }
  // 2. sequences of whole and broken texts
  {
    static std::vector<std::string> t;
    for (auto g : good) t.push_back(g);
    for (unsigned n : {1u, 2u, 6u, 7u, 9u, 22u}) t.push_back(std::string(good[1]).substr(0, n));
    for (unsigned n : {10u, 11u, 27u}) t.push_back(std::string(good[2]).substr(0, n));
    for (const char *s : {";", ":;", "N0102;", "\r\n", "xyz", ":Q0020N;", ":S0020N0;", ":S0020N0G;", ":S0020M;", ":S002;", ":X00200001N000102030405060708;", ":X00200001N00010203040506070;", ":S0020N000102030405060708;", ":S00200N;", ":S0020N;;", "::S0020N;", ":S0020:S0040N;",
                          ":X00200001N0001020304050607080;", ":X00200001N0001020304050607080900112233445566;", ":X00200001N000102030405060708090011223344556677", "\xFF\x80"}) t.push_back(s);
    static OpList l; l.add(t.size(), [](uint64_t k) {
      // configuration: how many bytes are on the line before the node looks at it
      GPort &p = w->p[0]; int chunk = w->p[1].pos, i = 0;
      for (char c : t[k]) { feed(p, c); if (chunk == 1 || (chunk && ++i % chunk == 0)) while (p.head != p.tail) poll(p); }
      while (p.head != p.tail) poll(p);
      poll(p); poll(p); }, [](uint64_t k) { return show(t[k]); });
    l.add(3, [](uint64_t k) { send(w->p[0], k == 0 ? frame(0x5A5, false, false, 3) : k == 1 ? frame(0x12345678, true, true, 0) : frame(0x5A5, false, false, 9)); }, [](uint64_t k) { return std::string(k == 0 ? "send 3 bytes" : k == 1 ? "send an extended remote frame" : "send 9 bytes (refused)"); });
    mc::Scenario x = scen("text sequences", mc::pick(3, 4), &l, 4, [](int k) { build(1); w->p[1].pos = (int[]){1, 2, 5, 0}[k]; }, [](int k) { return "bytes arriving in groups of " + std::to_string((int[]){1, 2, 5, 0}[k]) + " (0: all)"; });
    x.finish = [] { puts(w->p[0], good[1]); };
    sc.push_back(x);
  }
  // 3. every schedule of arrivals and polls of given streams, with sends in between; two ports
  {
    static const char *st[] = {":S0020N;:S0040N01;", "x:S00;:SFFE0N0102:S0060R;", ":X12345678N00112233;;", "N;:s0:S0G20N;:S0080N;"};
    static OpList l;
    l.add(2, [](uint64_t k) { GPort &p = w->p[k]; feed(p, p.stream[p.pos++]); }, [](uint64_t k) { return "byte arrives at port " + std::to_string(k); });
    l.add(2, [](uint64_t k) { poll(w->p[k]); }, [](uint64_t k) { return "port " + std::to_string(k) + " polled"; });
    mc::Scenario x = scen("schedules of arrival and polling", 120, &l, 6, [](int k) { build(2); w->p[0].stream = st[k % 4]; w->p[1].stream = k < 4 ? "" : st[3 - k % 4]; }, nullptr);
    x.deepen = false;
    x.enabled = [](uint64_t op) { GPort &p = w->p[op % 2]; if (op < 2) return p.stream[p.pos] != 0 && p.head - p.tail < 6; return p.head > p.tail; };
    x.key = [] { uint64_t h = 5; for (GPort &p : w->p) { h = mc::hash(&p.pos, 4, h); h = mc::hash(&p.tail, 4, h); } return h; };
    sc.push_back(x);
    static OpList l2;
    l2.add(2, [](uint64_t k) { GPort &p = w->p[k]; put(p, p.stream[p.pos++]); }, [](uint64_t k) { return "byte arrives at port " + std::to_string(k) + " and is polled"; });
    l2.add(2, [](uint64_t k) { send(w->p[k], frame(0x5A5 + k, false, false, 3)); }, [](uint64_t k) { return "send on port " + std::to_string(k); });
    mc::Scenario y = scen("two ports and sends, interleaved", 120, &l2, 4, [](int k) { build(2); w->p[0].stream = st[k]; w->p[1].stream = st[(k + 1) % 4]; }, nullptr);
    y.deepen = false;
    y.enabled = [](uint64_t op) { GPort &p = w->p[op % 2]; return op < 2 ? p.stream[p.pos] != 0 : p.tx < 1; };
    y.key = [] { uint64_t h = 5; for (GPort &p : w->p) { h = mc::hash(&p.pos, 4, h); h = mc::hash(&p.tx, 4, h); } return h; };
    sc.push_back(y);
  }
  // 4. every frame kind received and sent; every single change of a received text; sends at every position of a reception
  {
    static OpList l;
    l.add(2048, [](uint64_t k) { for (int len = 0; len <= 8; ++len) { CANFrame f = frame(k, false, len & 1, len, k); puts(w->p[0], text(f)); send(w->p[0], f); } }, [](uint64_t k) { return "standard id " + std::to_string(k); });
    l.add(29 * 9, [](uint64_t k) { for (uint32_t id : {1u << (k / 9), 0x1FFFFFFFu ^ (1u << (k / 9))}) { CANFrame f = frame(id, true, k & 1, k % 9, k); puts(w->p[0], text(f)); send(w->p[0], f); } }, [](uint64_t k) { return "extended id bit " + std::to_string(k / 9); });
    l.add(8 * 256, [](uint64_t k) { CANFrame f = frame(0x5A5, k & 1, false, 8); f.data[k / 256] = k; puts(w->p[0], text(f)); send(w->p[0], f); }, [](uint64_t k) { return "data byte " + std::to_string(k / 256) + " value " + std::to_string(k % 256); });
    l.add(256, [](uint64_t k) { send(w->p[0], frame(0x5A5, k & 1, false, k)); send(w->p[0], frame(0x800 + k * 977, false, false, 2)); send(w->p[0], frame(0x20000000u + k * 7919, true, false, 2)); puts(w->p[0], good[k % 6]); send(w->p[0], frame(3, true, true, 8)); }, [](uint64_t k) { return "refused frames " + std::to_string(k); });
    l.add(6 * 30, [](uint64_t k) { const char *g = good[k / 30]; size_t n = k % 30; if (n >= strlen(g)) return; puts(w->p[0], std::string(g).substr(0, n)); send(w->p[0], frame(0x12345678, true, false, 8)); puts(w->p[0], g + n); }, [](uint64_t k) { return "send after " + std::to_string(k % 30) + " bytes of " + show(good[k / 30]); });
    l.add(6 * 30, [](uint64_t k) { std::string g = good[k / 30]; size_t n = k % 30; if (n > g.size()) return;
      for (int c = 0; c < 256; ++c) { std::string u = g; if (n < g.size()) { u[n] = c; puts(w->p[0], u); puts(w->p[0], good[0]); } u = g; u.insert(n, 1, (char)c); puts(w->p[0], u); puts(w->p[0], good[3]); }
      puts(w->p[0], g.substr(0, n)); puts(w->p[0], g); puts(w->p[0], g.substr(0, n) + g.substr(n < g.size() ? n + 1 : n)); puts(w->p[0], good[1]); }, [](uint64_t k) { return "changes of " + show(good[k / 30]) + " at " + std::to_string(k % 30); });
    l.add(120, [](uint64_t k) { GPort &p = w->p[0]; put(p, ':'); for (unsigned i = 0; i < k; ++i) put(p, "S0020N0A"[i < 6 ? i : 6 + i % 2]); put(p, ';'); puts(p, good[1]); put(p, ';'); puts(p, good[2]); }, [](uint64_t k) { return "text of " + std::to_string(k + 2) + " characters"; });
    l.add(100, [](uint64_t k) { GPort &p = w->p[0]; put(p, ':'); for (unsigned i = 0; i < k; ++i) put(p, "X00200001N0A"[i < 10 ? i : 10 + i % 2]); puts(p, good[5]); puts(p, good[0]); }, [](uint64_t k) { return "unfinished text of " + std::to_string(k + 1) + " characters"; });
    sc.push_back(scen("every frame and every change", 1, &l, 1, [](int) { build(1); }, nullptr));
  }
  // 5. through the CAN service: messages in and out
  {
    static OpList l;
    static const char *tx[] = {":SB020N0D;", ":S00A0N9100010002;", ":X00200001N0D;", ":SB020R;", ":SB020N;", ":SB0", "Z;", ":SBFE0N0102030405060708;", ":sb1a0ne9;"};
    l.add(9, [](uint64_t k) {
      GPort &p = w->p[0]; CANFrame f; std::string up = tx[k]; 
      Msg want[4]; int nw = 0; hw::serClearOut(0); w->watch->n = 0;
      for (char c : up) { feed(p, c); bool v; if (expectNext(p, f, v) && !f.ext && !f.rtr && f.len) { want[nw].len = f.len; memset(want[nw].d, 0, 8); memcpy(want[nw].d, f.data, f.len); ++nw; } w->ctl->process(); w->ctl->process(); w->ctl->process(); }
      int n = 0; for (int i = 0; i < w->watch->n && i < 20; ++i) if (w->watch->in[i].len) { if (n >= nw || !(w->watch->in[i] == want[n])) mc::fail("message %s handled, expected %s", str(w->watch->in[i]).c_str(), n < nw ? str(want[n]).c_str() : "none"); ++n; }
      if (n != nw) mc::fail("%d messages handled, expected %d", n, nw);
      mc::countCheck(); }, [](uint64_t k) { return show(tx[k]); });
    l.add(2, [](uint64_t k) {
      VLCB::VlcbMessage m; memset(&m, 0, sizeof m); m.len = k ? 8 : 3; for (int i = 0; i < 8; ++i) m.data[i] = 0x90 + i;
      for (int i = 0; i < 6; ++i) w->ctl->process();
      hw::serClearOut(0); w->ctl->sendMessage(&m); for (int i = 0; i < 6; ++i) w->ctl->process();
      std::string got(hw::port[0].out, hw::port[0].outLen);
      CANFrame f; if (!parse(got.data(), got.size(), f)) mc::fail("sent %s", show(got).c_str());
      if (f.ext || f.rtr || f.len != m.len || memcmp(f.data, m.data, m.len) || (f.id & 0x7F) != 5) mc::fail("sent %s", show(got).c_str());
      mc::countCheck(); }, [](uint64_t k) { return std::string(k ? "send 8 bytes" : "send 3 bytes"); });
    mc::Scenario x = scen("through the CAN service", mc::pick(4, 5), &l, 1, [](int) {
      using namespace VLCB;
      build(1); w->st = mc::make<FakeStorage>(20); memset(w->st->mem, 0, 20); w->st->mem[0] = 1; w->st->mem[1] = 5; w->st->mem[2] = 1; w->st->mem[3] = 4;
      w->cfg = mc::make<Configuration>(w->st); w->cfg->EE_NVS_START = 10; w->cfg->EE_NUM_NVS = 1; w->cfg->EE_MAX_EVENTS = 1; w->cfg->EE_NUM_EVS = 1; w->cfg->begin();
      w->cs = mc::make<CanService>(w->p[0].gc); w->watch = mc::make<Watch>();
      w->ctl = mc::make<Controller>(w->cfg, std::initializer_list<Service *>{w->cs, w->watch});
      w->ctl->setParams((unsigned char *)mc::arenaAlloc(21, true)); w->ctl->begin(); }, nullptr);
    sc.push_back(x);
  }
  longer(sc, "text sequences", false, mc::pick(6000, 66000), mc::pick(300, 600), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  longer(sc, "through the CAN service", false, mc::pick(6000, 66000), mc::pick(300, 600), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  const char *as[] = {"the CAN frame is fetched after each successful poll, as CanService does", "lower-case hexadecimal on the line is accepted as upper case", "whether a text longer than the buffer counts as received or as an error is left open; it never yields a frame", "whether a refused frame increments the transmit counter is left open; it counts as a transmit error"};
  return mc::run(argc, argv, "C17", sc.data(), sc.size(), "exhaustive exploration of character, text and arrival/poll sequences on the real transport against a reference parser (address- and bounds-checked build)", as, 4);
}
