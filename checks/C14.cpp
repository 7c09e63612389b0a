// C14: a long message is delivered exactly as sent or reported as failed.
#include "lm.h"
#include <vector>
EvLog *g_log;
enum { T = 5000 };
struct W { LmNode rx, tx; RefBasic ref; uint8_t *buf; uint8_t ids[4]; uint8_t *msg; };
static W *w;
static void buildRx(unsigned cap, unsigned long timeout = T)
{
  w = mc::make<W>(); w->rx.boot(false); hw::now = 70000;
  w->ids[0] = 1; w->ids[1] = 2; w->ids[2] = 0xFE;
  w->buf = (uint8_t *)mc::arenaAlloc(cap, true);
  w->rx.lms->subscribe(w->ids, 3, w->buf, cap, lmHandler);
  if (timeout != T) w->rx.lms->setTimeout(timeout);
  w->ref.init(w->ids, 3, cap, timeout);
}
static void deliver(const Msg &m)
{
  w->ref.frame(m); w->rx.arrive(m); compareEv(w->rx.log, w->ref.want, "after a fragment");
  w->ref.tick(); w->rx.loop(); compareEv(w->rx.log, w->ref.want, "in the loop after a fragment");
}
static void wait(unsigned long ms) { hw::now += ms; w->ref.tick(); w->rx.loop(); compareEv(w->rx.log, w->ref.want, "after waiting"); }
static int cbuf[] = {1, 3, 5, 6, 8, 32};
static void freshMessage(int stream, int len)
{
  deliver(lmHeader(stream, len));
  for (int f = 1; f <= (len + 4) / 5; ++f) deliver(lmData(stream, f, len));
}
// ---- sending
static uint8_t sbyte(int salt, unsigned p) { return lmByte(salt, p); }
struct Tx { bool on; uint8_t stream, seq; unsigned len, idx; int salt; };
struct WS { LmNode *n; Tx t; uint8_t *msg[3]; unsigned cap; unsigned long last; bool first; int delay; };
static WS *s;
static void buildTx(unsigned cap, int delay, LmNode *n = nullptr)
{
  s = mc::make<WS>(); if (n) s->n = n; else { s->n = mc::make<LmNode>(); s->n->boot(false); hw::now = 70000; } s->cap = cap; s->delay = delay < 0 ? 20 : delay; s->first = true;
  for (int k = 0; k < 3; ++k) { s->msg[k] = (uint8_t *)mc::arenaAlloc(cap, false); for (unsigned i = 0; i < cap; ++i) s->msg[k][i] = sbyte(k, i); }
  if (delay >= 0) s->n->lms->setDelay(delay);
}
static void sent(const Msg *want, const char *what)
{
  mc::countCheck();
  FakeCan *c = s->n->can;
  if (c->nout != (want ? 1 : 0)) mc::fail("%s: %d frames sent, expected %d", what, c->nout, want ? 1 : 0);
  if (want)
  {
    const VLCB::CANFrame &f = c->out[0];
    if (f.len != 8 || f.ext || f.rtr || memcmp(f.data, want->d, 8)) mc::fail("%s: sent %s, expected %s", what, frameStr(f).c_str(), str(*want).c_str());
    mc::note("sent %s", frameStr(f).c_str());
  }
  c->nout = 0;
  if (s->n->lms->is_sending() != s->t.on) mc::fail("%s: is_sending() is %d", what, !s->t.on);
}
static void send(int stream, unsigned len, int k)
{
  bool ok = s->n->lms->sendLongMessage(s->msg[k], len, stream); s->n->pump();
  if (ok == s->t.on) mc::fail("sendLongMessage returned %d", ok);
  if (s->t.on) { sent(nullptr, "send while busy"); return; }
  s->t = Tx{len > 0, (uint8_t)stream, 1, len, 0, k};
  Msg h = lmHeader(stream, len); sent(&h, "header");
}
static void loopTx()
{
  s->n->loop();
  if (!s->t.on) { sent(nullptr, "nothing to send"); return; }
  // the first fragment of all has no predecessor to keep a distance from
  bool due = s->first || hw::now - s->last >= (unsigned)s->delay;
  if (s->first && hw::now < (unsigned)s->delay && !s->n->can->nout) return; // just after the clock's zero either is right
  if (!due) { sent(nullptr, "before the delay has passed"); return; }
  Msg m; memset(&m, 0, sizeof m); m.len = 8; m.d[0] = 0xE9; m.d[1] = s->t.stream; m.d[2] = s->t.seq++;
  for (int j = 0; j < 5 && s->t.idx < s->t.len; ++j) m.d[3 + j] = sbyte(s->t.salt, s->t.idx++);
  if (s->t.idx >= s->t.len) s->t.on = false;
  s->last = hw::now; s->first = false;
  sent(&m, "fragment");
}
int main(int argc, char **argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  std::vector<mc::Scenario> sc;
  mc::checkArena = true;
  // 1. all sequences of fragments and waits
  static OpList l1;
  {
    std::vector<Msg> v;
    for (int len : {0, 1, 4, 5, 6, 11}) v.push_back(lmHeader(1, len));
    for (int len : {5, 6}) v.push_back(lmHeader(2, len));
    v.push_back(lmHeader(7, 6)); v.push_back(lmHeader(1, 6, 0, 1)); v.push_back(lmHeader(1, 6, 0x1234));
    for (int f : {1, 2, 3, 4}) v.push_back(lmData(1, f));
    for (int f : {1, 2}) v.push_back(lmData(2, f));
    v.push_back(lmData(7, 1)); v.push_back(lmData(7, 2));
    l1.msgs(v, deliver);
    l1.add(2, [](uint64_t k) { wait(k ? 2 : T - 1); }, [](uint64_t k) { return std::string(k ? "wait 2 ms" : "wait 4999 ms"); });
  }
  auto rxcfg = [](int k) { return "receive buffer " + std::to_string(cbuf[k]); };
  sc.push_back(scen("fragment sequences", mc::pick(4, 5), &l1, 6, [](int k) { buildRx(cbuf[k]); }, rxcfg));
  // deeper, on the essential alphabet
  static OpList l2;
  {
    std::vector<Msg> v = {lmHeader(1, 11), lmHeader(1, 5), lmHeader(2, 6), lmData(1, 1), lmData(1, 2), lmData(1, 3), lmData(2, 1), lmData(2, 2)};
    l2.msgs(v, deliver);
    l2.add(2, [](uint64_t k) { wait(k ? 2 : T - 1); }, [](uint64_t k) { return std::string(k ? "wait 2 ms" : "wait 4999 ms"); });
  }
  sc.push_back(scen("fragment sequences, longer", mc::pick(6, 8), &l2, 3, [](int k) { buildRx(cbuf[k * 2]); }, [](int k) { return "receive buffer " + std::to_string(cbuf[k * 2]); }));
  // every stream id, every length byte pair, every flags byte, every sequence number
  static OpList l3;
  l3.add(256, [](uint64_t k) { deliver(lmHeader(k, 6)); deliver(lmData(k, 1)); deliver(lmData(k, 2)); freshMessage(1, 7); wait(T + 1); freshMessage(2, 7); }, [](uint64_t k) { return "message on stream " + std::to_string(k); });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 12, 0, k)); deliver(lmData(1, 1)); deliver(lmData(1, 2)); deliver(lmData(1, 3)); wait(T + 1); freshMessage(2, 7); }, [](uint64_t k) { return "header with flags " + std::to_string(k); });
  l3.add(3 * 256, [](uint64_t k) {
    int at = k / 256; deliver(lmHeader(1, 17));
    for (int f = 1; f <= at; ++f) deliver(lmData(1, f));
    Msg m = lmData(1, at + 1); m.d[2] = k; deliver(m);
    for (int f = at + 2; f <= 4; ++f) deliver(lmData(1, f));
    wait(T + 1); freshMessage(2, 7); }, [](uint64_t k) { return "fragment " + std::to_string(k / 256 + 1) + " with sequence number " + std::to_string(k % 256); });
  l3.add(3 * 256, [](uint64_t k) {
    int at = k / 256; deliver(lmHeader(1, 17));
    for (int f = 1; f <= at; ++f) deliver(lmData(1, f));
    Msg m = lmData(2, 1); m.d[2] = k; deliver(m);
    for (int f = at + 1; f <= 4; ++f) deliver(lmData(1, f)); }, [](uint64_t k) { return "fragment of another stream with sequence number " + std::to_string(k % 256) + " after fragment " + std::to_string(k / 256); });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 6)); Msg m = lmData(k, 1); deliver(m); if (k != 1) deliver(lmData(1, 1)); deliver(lmData(1, 2)); }, [](uint64_t k) { return "fragment of stream " + std::to_string(k) + " in between"; });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 6)); Msg m = lmData(1, 1); m.d[0] = k; if (k == 0xE9) m.d[1] = 9; deliver(m); deliver(lmData(1, 1)); deliver(lmData(1, 2)); }, [](uint64_t k) { return "other message with opcode " + std::to_string(k) + " in between"; });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 6)); for (int f = 1; f <= 2; ++f) { Msg m = lmData(1, f); for (int j = 3; j < 8; ++j) m.d[j] = k; deliver(m); } }, [](uint64_t k) { return "payload byte " + std::to_string(k); });
  l3.add(60, [](uint64_t k) { deliver(lmHeader(1, 16)); for (unsigned f = 1; f <= k / 15; ++f) deliver(lmData(1, f)); for (unsigned n = 0; n <= k % 15; ++n) { wait(T / 4 + 1); deliver(lmData(n % 3 == 2 ? 7 : 2, n % 2)); } freshMessage(1, 7); }, [](uint64_t k) { return "stall after fragment " + std::to_string(k / 15) + " with traffic of other streams"; });
  sc.push_back(scen("every byte value", 1, &l3, 6, [](int k) { buildRx(cbuf[k]); }, rxcfg));
  // timeouts and the clock
  static OpList l4;
  l4.add(8 * 40, [](uint64_t k) { // arrival times around the clock's wrap
    hw::now = (k & 1) ? 0ul - 1000 - k * 10 : 50;
    deliver(lmHeader(1, 11)); wait(k & 2 ? 999 : 500); deliver(lmData(1, 1)); wait(k & 4 ? 999 : 1002); deliver(lmData(1, 2)); wait(999); deliver(lmData(1, 3)); wait(3000); freshMessage(1, 7); },
    [](uint64_t k) { return "timing pattern " + std::to_string(k); });
  sc.push_back(scen("configured timeout and clock wrap", 1, &l4, 2, [](int k) { buildRx(k ? 5 : 32, 1000); }, nullptr));
  // 2. single faults at every position of long messages
  static std::vector<int> lens;
  static const char *fk[] = {"nothing", "loss", "repetition", "swap with the next", "a fragment of another stream", "a header of another stream", "an unsubscribed fragment", "a stall", "a short pause", "a repeated header", "a skipped number", "the previous number"};
  enum { NF = 12 };
  {
    for (int n = 1; n <= (th ? 200 : 62); ++n) lens.push_back(n);
    for (int n : {1270, 1274, 1275, 1276, 1280, 1281, 1300}) lens.push_back(n);
    if (th) for (int n : {640, 2555, 2560, 2561, 3000}) lens.push_back(n);
    static std::vector<std::pair<int, int>> ops; // length, position
    for (int n : lens) for (int p = 0; p <= (n + 4) / 5; ++p) if (n < 300 || p < 3 || p % 255 < 4 || p % 255 > 250 || p > n / 5 - 2) ops.push_back({n, p});
    mc::Scenario x; x.name = "every single fault in messages of many lengths"; x.depth = 1; x.dedup = false; x.nconfigs = 6; x.nops = ops.size() * NF;
    x.setup = [](int k) { buildRx(cbuf[k]); }; x.cfgname = rxcfg;
    x.opname = [](uint64_t op) { auto &o = ops[op / NF]; return "message of " + std::to_string(o.first) + " bytes, " + fk[op % NF] + " at fragment " + std::to_string(o.second); };
    x.apply = [](uint64_t op) {
      int n = ops[op / NF].first, at = ops[op / NF].second, kind = op % NF;
      for (int f = 0; f <= (n + 4) / 5; ++f)
      {
        Msg m = f ? lmData(1, f, n) : lmHeader(1, n);
        if (f == at) switch (kind)
        {
        case 1: continue;
        case 2: deliver(m); break;
        case 3: deliver(f < (n + 4) / 5 ? lmData(1, f + 1, n) : lmData(2, 1)); deliver(m); ++f; continue;
        case 4: deliver(lmData(2, f)); break;
        case 5: deliver(lmHeader(2, 9)); break;
        case 6: deliver(lmData(7, f)); break;
        case 7: wait(T + 1); break;
        case 8: wait(T - 1); break;
        case 9: deliver(lmHeader(1, n)); break;
        case 10: m.d[2]++; break;
        case 11: m.d[2]--; break;
        }
        deliver(m);
      }
      wait(T + 1);
      freshMessage(1, 12); freshMessage(2, 5);
    };
    sc.push_back(x);
  }
  // 3. from a sender to a receiver: every length
  {
    static std::vector<int> el;
    for (int n = 0; n <= (th ? 2700 : 420); ++n) el.push_back(n);
    if (!th) for (int n = 1270; n <= 1290; ++n) el.push_back(n);
    for (int n : {2549, 2550, 2551, 2555, 2560, 4000, 65535, 32768, 40000}) el.push_back(n);
    static const int eb[] = {1, 4, 5, 7, 64, 256};
    mc::Scenario x; x.name = "every length from sender to receiver"; x.depth = 1; x.dedup = false; x.nconfigs = 6; x.nops = el.size();
    x.setup = [](int k) { buildRx(eb[k]); buildTx(65535, 0); };
    x.cfgname = [](int k) { return "receive buffer " + std::to_string(eb[k]); };
    x.opname = [](uint64_t op) { return std::to_string(el[op]) + " bytes"; };
    x.apply = [](uint64_t op) {
      unsigned n = el[op], cap = w->ref.cap, got = 0; int complete = 0;
      s->n->lms->sendLongMessage(s->msg[1], n, 1); s->n->pump();
      for (unsigned step = 0; ; ++step)
      {
        if (s->n->can->nout != 1) mc::fail("%d frames sent in one step", s->n->can->nout);
        const VLCB::CANFrame &f = s->n->can->out[0]; Msg m; m.len = f.len; memcpy(m.d, f.data, 8); s->n->can->nout = 0;
        w->rx.arrive(m);
        if (w->rx.log.n > 5) mc::fail("too many reports for one fragment");
        for (int i = 0; i < w->rx.log.n; ++i)
        {
          const Ev &e = w->rx.log.e[i]; unsigned want = n - got < cap ? n - got : cap;
          std::string t = str(e);
          if (complete) mc::fail("report after completion: %s", t.c_str());
          if (e.stream != 1 || e.len != want || e.status != (got + want == n ? 1 : 0)) mc::fail("after %u of %u bytes reported: %s", got, n, t.c_str());
          if (want && e.h != mc::hash(s->msg[1] + got, want)) mc::fail("wrong bytes from position %u of %u: %s", got, n, t.c_str());
          got += want; if (e.status == 1) ++complete;
        }
        w->rx.log.n = 0; mc::countCheck();
        if (!s->n->lms->is_sending()) break;
        if (step > 14000) mc::fail("sending does not end");
        ++hw::now; s->n->loop();
      }
      if (complete != 1 || got != n) mc::fail("%u of %u bytes delivered, completion reported %d times", got, n, complete);
      for (int i = 0; i < 3; ++i) { hw::now += 300; s->n->loop(); if (s->n->can->nout) mc::fail("frame sent after the end of the message"); }
      freshMessage(2, 12);
    };
    sc.push_back(x);
  }
  // 4. sender: all sequences of sends, loops and delays
  {
    static OpList l5;
    static const int sl[] = {0, 1, 5, 6, 11};
    l5.add(5, [](uint64_t k) { send(3 + k % 2, sl[k], k % 3); }, [](uint64_t k) { return "send " + std::to_string(sl[k]) + " bytes"; });
    l5.add(3, [](uint64_t k) { hw::now += k == 0 ? 0 : k == 1 ? s->delay - (s->delay > 0) : s->delay; loopTx(); }, [](uint64_t k) { return std::string(k == 0 ? "loop" : k == 1 ? "loop 1 ms before the delay has passed" : "loop when the delay has passed"); });
    static const int dl[] = {-1, 0, 1, 2, 50, 255, -1, 3};
    mc::Scenario x = scen("sending sequences", mc::pick(6, 8), &l5, 8, [](int k) { buildTx(16, dl[k]); if (k > 5) hw::now = 0ul - (k == 6 ? 50 : 9); }, [](int k) { return (k > 5 ? "the clock wraps, " : "") + (dl[k] < 0 ? std::string("default delay") : "delay " + std::to_string(dl[k])); });
    x.finish = [] { for (int i = 0; i < 7; ++i) { hw::now += s->delay; loopTx(); } if (s->t.on) mc::fail("sending does not end"); send(5, 11, 2); for (int i = 0; i < 3; ++i) { hw::now += s->delay; loopTx(); } };
    sc.push_back(x);
    // long messages with a refused send at every position
    static OpList l6;
    l6.add(400, [](uint64_t k) { send(9, k, 1); for (unsigned i = 0; i < k / 5 + 2; ++i) { send(4, 7, 2 * (s->t.on ? 1 : 0)); if (!s->t.on) break; hw::now += s->delay; loopTx(); } }, [](uint64_t k) { return "message of " + std::to_string(k) + " bytes with refused sends"; });
    l6.add(60, [](uint64_t k) { unsigned n = 1240 + k; send(9, n, 1); while (s->t.on) { hw::now += s->delay; loopTx(); } send(200 + k % 50, 7, 0); for (int i = 0; i < 3; ++i) { hw::now += s->delay; loopTx(); } }, [](uint64_t k) { return "message of " + std::to_string(1240 + k) + " bytes"; });
    l6.add(256, [](uint64_t k) { send(k, 6, 1); while (s->t.on) { hw::now += s->delay; loopTx(); } }, [](uint64_t k) { return "stream " + std::to_string(k); });
    sc.push_back(scen("long sends", 1, &l6, 3, [](int k) { buildTx(1400, k ? 3 : -1); if (k == 2) hw::now = 0ul - 100; }, nullptr));
  }
  // 5. sending and receiving at the same time, also on the same stream
  {
    static OpList l;
    static const struct { int st, len; } so[] = {{1, 6}, {2, 11}, {5, 16}, {1, 0}};
    l.add(4, [](uint64_t k) { send(so[k].st, so[k].len, k % 3); }, [](uint64_t k) { return "send " + std::to_string(so[k].len) + " bytes on stream " + std::to_string(so[k].st); });
    auto both = [] { w->ref.tick(); loopTx(); compareEv(w->rx.log, w->ref.want, "in the loop"); };
    l.msgs({lmHeader(1, 11), lmHeader(2, 6), lmHeader(1, 0), lmData(1, 1), lmData(1, 2), lmData(1, 3), lmData(2, 1), lmData(2, 2), lmData(5, 1)}, [](const Msg &m) { w->ref.frame(m); w->rx.arrive(m); compareEv(w->rx.log, w->ref.want, "after a fragment"); sent(nullptr, "reception"); });
    l.add(4, [both](uint64_t k) { hw::now += (k == 0 ? 0 : k == 1 ? s->delay : k == 2 ? T - 1 : T + 1); both(); }, [](uint64_t k) { return "loop" + std::string(k == 0 ? "" : k == 1 ? " when the delay has passed" : k == 2 ? " after 4999 ms" : " after 5001 ms"); });
    mc::Scenario x = scen("both directions", mc::pick(5, 6), &l, 2, [](int k) { buildRx(k ? 32 : 7); buildTx(16, k ? 20 : 0, &w->rx); }, nullptr);
    x.finish = [] { for (int i = 0; i < 6; ++i) { hw::now += s->delay; w->ref.tick(); loopTx(); } if (s->t.on) mc::fail("sending does not end"); compareEv(w->rx.log, w->ref.want, "at the end"); };
    sc.push_back(x);
  }
  // 6. any number of streams subscribed to
  {
    static OpList l; static const int nn[] = {0, 1, 2, 8, 9, 16, 127, 128, 255};
    l.add(256, [](uint64_t k) { deliver(lmHeader(k, 6)); deliver(lmData(k, 1)); deliver(lmData(k, 2)); wait(T + 1); freshMessage(0, 3); freshMessage(200, 3); freshMessage(k, 7); }, [](uint64_t k) { return "message on stream " + std::to_string(k); });
    sc.push_back(scen("many subscriptions", 1, &l, 18, [](int k) {
      buildRx(32); int n = nn[k % 9]; uint8_t *ids = (uint8_t *)mc::arenaAlloc(n ? n : 1, true); for (int i = 0; i < n; ++i) ids[i] = k > 8 ? 255 - i : i;
      w->rx.lms->subscribe(ids, n, w->buf, 32, lmHandler); w->ref.ids = ids; w->ref.nids = n; }, [](int k) { return std::to_string(nn[k % 9]) + " streams subscribed" + (k > 8 ? ", from 255 down" : ", from 0 up"); }));
  }
  longer(sc, "fragment sequences", false, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  longer(sc, "sending sequences", false, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  longer(sc, "both directions", false, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  const char *as[] = {"fragments are 8 bytes long (a shorter one cannot be told from stale frame bytes)", "the user's loop calls the service's process() after each change of time", "a header that repeats the stream id of the message in progress counts as an out-of-order fragment of it", "waits are never exactly as long as the timeout"};
  return mc::run(argc, argv, "C14", sc.data(), sc.size(), "exhaustive exploration of the real sender and receiver against a reference reassembler", as, 4);
}
