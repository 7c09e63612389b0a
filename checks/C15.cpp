// C15: concurrent long messages stay independent in the extended service.
#include "lm.h"
#include <vector>
#include <algorithm>
EvLog *g_log;
enum { T = 5000 };
struct Snd { bool on, any; uint8_t stream, seq; unsigned len, idx; int salt; unsigned long last; };
struct Slots { Snd *p; int n; Snd *begin() { return p; } Snd *end() { return p + n; } };
struct W
{
  LmNode rx, tx, other, *node; RefEx ref; uint8_t ids[256]; int nids; // node: the sender
  Slots s; int ns, nsend, delay; bool crc; unsigned sentLen[8]; int total;
  EvLog final; // outcome of every message of the end-to-end scenario
};
static W *w;
static void sortEv(EvLog &l) { std::stable_sort(l.e, l.e + (l.n < NEV ? l.n : NEV), [](const Ev &a, const Ev &b) { return a.stream < b.stream; }); }
static void compare(const char *what)
{
  if (w->rx.log.n > 1) { sortEv(w->rx.log); sortEv(w->ref.want); }
  compareEv(w->rx.log, w->ref.want, what);
}
static void buildRx(int slots, unsigned cap, bool crc, unsigned long timeout = T, int sendSlots = 2, int nids = 5)
{
  w = mc::make<W>(); w->rx.boot(true); hw::now = 70000; w->node = &w->tx;
  int ids[] = {1, 2, 3, 4, 0xFE}; for (int i = 0; i < 5; ++i) w->ids[i] = ids[i];
  w->nids = nids; if (nids != 5) for (int i = 0; i < nids; ++i) w->ids[i] = i * 7 + 3; // distinct
  if (!w->rx.ex->allocateContexts(slots, cap, sendSlots)) mc::fail("allocateContexts failed");
  w->rx.ex->subscribe(w->ids, w->nids, lmHandler);
  if (timeout != T) w->rx.ex->setTimeout(timeout);
  if (crc) w->rx.ex->use_crc(true);
  w->ref.init(w->ids, w->nids, slots, cap, timeout, crc);
}
static void deliver(const Msg &m)
{
  w->ref.frame(m); w->rx.arrive(m); compare("after a fragment");
  w->ref.tick(); w->rx.loop(); compare("in the loop after a fragment");
}
static void wait(unsigned long ms) { hw::now += ms; w->ref.tick(); w->rx.loop(); compare("after waiting"); }
static int crcOf(int stream, int len) { uint8_t b[4096]; for (int i = 0; i < len; ++i) b[i] = lmByte(stream, i); return lmCrc(b, len); }
static void whole(int stream, int len, int crc = 0)
{
  deliver(lmHeader(stream, len, crc));
  for (int f = 1; f <= (len + 4) / 5; ++f) deliver(lmData(stream, f, len));
}
static const struct { int slots; unsigned cap; bool crc; } rc[] = {{1, 8, false}, {2, 6, true}, {2, 16, false}, {3, 16, true}, {4, 64, false}, {0, 8, false}, {1, 1, true}, {2, 5, false}};
static std::string rxcfg(int k) { return std::to_string(rc[k].slots) + " receive slots, buffer " + std::to_string(rc[k].cap) + (rc[k].crc ? ", checksums on" : ""); }
// ---- sending
// in a node of its own, or in the receiving node, which has been given that many slots
static void buildTx(int slots, int delay, bool crc, bool duplex = false)
{
  w->nsend = slots; w->delay = delay < 0 ? 20 : delay; w->crc = crc;
  w->s.n = slots < 6 ? 6 : slots; w->s.p = (Snd *)mc::arenaAlloc(sizeof(Snd) * w->s.n, true);
  if (duplex) { w->node = &w->rx; if (delay >= 0) w->rx.ex->setDelay(delay); return; }
  w->tx.boot(true);
  if (!w->tx.ex->allocateContexts(1, 8, slots)) mc::fail("allocateContexts failed");
  static uint8_t none[1] = {0}; w->tx.ex->subscribe(none, 0, lmHandler);
  if (delay >= 0) w->tx.ex->setDelay(delay);
  if (crc) w->tx.ex->use_crc(true);
}
static int active() { int n = 0; for (auto &s : w->s) n += s.on; return n; }
static void frames(const char *what, bool forward)
{
  FakeCan *c = w->node->can; mc::countCheck();
  if (c->nout > c->capOut) mc::fail("%s: %d frames sent at once", what, c->nout);
  for (int i = 0; i < c->nout; ++i)
  {
    const VLCB::CANFrame f = c->out[i]; mc::note("sent %s", frameStr(f).c_str());
    Snd *s = nullptr; for (auto &x : w->s) if (x.on && f.len == 8 && x.stream == f.data[1]) s = &x;
    if (!s || f.ext || f.rtr || f.data[0] != 0xE9) mc::fail("%s: unexpected frame %s", what, frameStr(f).c_str());
    uint8_t d[8] = {0xE9, s->stream, s->seq};
    unsigned idx = s->idx; for (int j = 0; j < 5 && idx < s->len; ++j) d[3 + j] = lmByte(s->salt, idx++);
    if (memcmp(d, f.data, 8)) { Msg m{8, {}}; memcpy(m.d, d, 8); mc::fail("%s: sent %s, expected %s", what, frameStr(f).c_str(), str(m).c_str()); }
    if (s->any && hw::now - s->last < (unsigned long)w->delay) mc::fail("%s: fragments of stream %d only %lu ms apart", what, s->stream, hw::now - s->last);
    s->any = true; s->last = hw::now; ++s->seq; s->idx = idx;
    if (idx >= s->len) s->on = false;
    if (forward) { Msg m; m.len = 8; memcpy(m.d, f.data, 8); w->ref.frame(m); w->rx.arrive(m); }
  }
  c->nout = 0;
  if (w->node->ex->is_sending() != active()) mc::fail("%s: is_sending() is %d with %d messages in progress", what, w->node->ex->is_sending(), active());
}
static bool noMemory; // allocations by the service fail
static bool send(int stream, unsigned len, int salt, bool forward)
{
  bool same = false; for (auto &s : w->s) if (s.on && s.stream == stream) same = true;
  bool can = !same && active() < w->nsend;
  uint8_t *m = (uint8_t *)mc::arenaAlloc(len ? len : 1, false); for (unsigned i = 0; i < len; ++i) m[i] = lmByte(salt, i);
  int crc = w->crc ? lmCrc(m, len) : 0;
  mc::failMallocs = noMemory ? 1000 : 0; bool ok = w->node->ex->sendLongMessage(m, len, stream); mc::failMallocs = 0; w->node->pump();
  if (noMemory && !ok) can = false; // may be refused then
  memset(m, 0x5A, len); mc::arenaFree(m);        // the service keeps its own copy
  if (ok != can) mc::fail("sendLongMessage returned %d with %d of %d slots busy%s", ok, active(), w->nsend, same ? " and the stream in progress" : "");
  FakeCan *c = w->node->can;
  if (!can) { frames("refused send", forward); return false; }
  Msg h = lmHeader(stream, len, crc);
  if (c->nout < 1 || c->out[0].len != 8 || memcmp(c->out[0].data, h.d, 8)) mc::fail("header: sent %s, expected %s", c->nout ? frameStr(c->out[0]).c_str() : "nothing", str(h).c_str());
  mc::note("sent %s", frameStr(c->out[0]).c_str());
  memmove(c->out, c->out + 1, sizeof(VLCB::CANFrame) * (c->nout - 1)); --c->nout;
  for (auto &s : w->s) if (!s.on) { s = Snd{len > 0, false, (uint8_t)stream, 1, len, 0, salt, 0}; break; }
  if (forward) { w->ref.frame(h); w->rx.arrive(h); }
  frames("send", forward);
  return true;
}
static void loopTx(unsigned long ms, bool forward) { hw::now += ms; w->node->loop(); frames("loop", forward); }
static void drain(bool forward)
{
  unsigned left = 0; for (auto &s : w->s) if (s.on) left = std::max(left, (s.len - s.idx + 4) / 5);
  // every message advances once in as many rounds as there are slots
  for (unsigned i = 0; i < (left + 1) * (w->nsend ? w->nsend : 1); ++i) loopTx(w->delay, forward);
  if (active()) mc::fail("%d messages do not end", active());
  for (int i = 0; i < w->nsend + 1; ++i) loopTx(w->delay, forward);
}
int main(int argc, char **argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  std::vector<mc::Scenario> sc;
  mc::checkArena = true;
  auto setupRx = [](int k) { buildRx(rc[k].slots, rc[k].cap, rc[k].crc); };
  static OpList l1;
  {
    std::vector<Msg> v;
    for (int len : {0, 1, 6, 11}) v.push_back(lmHeader(1, len));
    v.push_back(lmHeader(1, 6, crcOf(1, 6))); v.push_back(lmHeader(1, 6, 0x1234)); v.push_back(lmHeader(1, 11, crcOf(1, 11)));
    for (int len : {5, 6}) v.push_back(lmHeader(2, len));
    v.push_back(lmHeader(2, 6, crcOf(2, 6))); v.push_back(lmHeader(3, 6)); v.push_back(lmHeader(9, 6)); v.push_back(lmHeader(1, 6, 0, 1));
    for (int f : {1, 2, 3}) v.push_back(lmData(1, f));
    for (int f : {1, 2}) v.push_back(lmData(2, f));
    v.push_back(lmData(3, 1)); v.push_back(lmData(3, 2)); v.push_back(lmData(9, 1));
    l1.msgs(v, deliver);
    l1.add(2, [](uint64_t k) { wait(k ? 2 : T - 1); }, [](uint64_t k) { return std::string(k ? "wait 2 ms" : "wait 4999 ms"); });
  }
  sc.push_back(scen("fragment sequences", mc::pick(4, 5), &l1, 8, setupRx, rxcfg));
  static OpList l2;
  {
    std::vector<Msg> v = {lmHeader(1, 11), lmHeader(2, 6, crcOf(2, 6)), lmHeader(3, 5), lmData(1, 1), lmData(1, 2), lmData(1, 3), lmData(2, 1), lmData(2, 2), lmData(3, 1)};
    l2.msgs(v, deliver);
    l2.add(2, [](uint64_t k) { wait(k ? 2 : T - 1); }, [](uint64_t k) { return std::string(k ? "wait 2 ms" : "wait 4999 ms"); });
  }
  sc.push_back(scen("fragment sequences, longer", mc::pick(6, 8), &l2, 4, setupRx, rxcfg));
  // interleavings of whole messages: every order in which the fragments of 3 (4) messages can arrive, with one fault
  {
    static const int n[4][4] = {{11, 6, 13, 0}, {5, 20, 1, 0}, {16, 0, 12, 0}, {10, 8, 9, 4}};
    struct Pos { uint8_t p[4]; uint8_t fault; };
    static Pos *pos;
    mc::Scenario x; x.name = "interleavings of whole messages with at most one fault"; x.nconfigs = 4 * 4 * 2; x.depth = 40; x.deepen = false; x.nops = 4 * 4;
    x.setup = [](int k) { static const int sl[] = {1, 2, 3, 4}; static const unsigned cp[] = {32, 10}; buildRx(sl[k % 4], cp[k / 16], k & 1); pos = mc::make<Pos>(); mc::arenaAlloc(1, true); pos->fault = (k / 4) % 4 << 4; };
    x.cfgname = [](int k) { return std::to_string(k % 4 + 1) + " receive slots, buffer " + (k / 16 ? "10" : "32") + ((k & 1) ? ", checksums on" : "") + ", message set " + std::to_string(k / 4 % 4); };
    x.enabled = [](uint64_t op) { int s = op % 4, kind = op / 4, set = pos->fault >> 4; if (kind && (pos->fault & 15)) return false; if (set < 3 && s == 3) return false; return pos->p[s] <= (n[set][s] + 4) / 5; };
    x.opname = [](uint64_t op) { static const char *k[] = {"next fragment", "lost fragment", "repeated fragment", "corrupted fragment"}; return std::string(k[op / 4]) + " of stream " + std::to_string(op % 4 + 1); };
    x.apply = [](uint64_t op) {
      int s = op % 4, kind = op / 4, set = pos->fault >> 4, len = n[set][s], f = pos->p[s]++;
      if (kind) pos->fault |= kind;
      Msg m = f ? lmData(s + 1, f, len) : lmHeader(s + 1, len, s == 1 ? 0 : crcOf(s + 1, len));
      if (kind == 1) return;
      if (kind == 3) m.d[7] ^= 0x10;
      deliver(m); if (kind == 2) deliver(m);
    };
    if (!th)
    {
      x.key = [] {
        uint64_t h = mc::hash(pos, sizeof *pos, 99);
        for (int k = 0; k < w->ref.n; ++k) { Rx &r = w->ref.r[k]; h = mc::hash(&r.on, 1, h); if (r.on) { h = mc::hash(&r.stream, 2, h); h = mc::hash(&r.len, 16, h); h = mc::hash(r.buf, r.idx, h); } }
        return h; };
      sc.push_back(x);
      x.key = nullptr; x.nops = 4; x.name = "interleavings of whole messages";
    }
    sc.push_back(x);
  }
  // every byte value
  static OpList l3;
  l3.add(256, [](uint64_t k) { deliver(lmHeader(k, 6)); deliver(lmData(k, 1)); deliver(lmData(k, 2)); whole(1, 6); wait(T + 1); whole(2, 6); }, [](uint64_t k) { return "message on stream " + std::to_string(k); });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 12, 0, k)); for (int f = 1; f < 4; ++f) deliver(lmData(1, f)); wait(T + 1); whole(2, 6); }, [](uint64_t k) { return "header with flags " + std::to_string(k); });
  l3.add(3 * 256, [](uint64_t k) {
    int at = k / 256; deliver(lmHeader(1, 14)); deliver(lmHeader(2, 6));
    for (int f = 1; f <= at; ++f) deliver(lmData(1, f));
    Msg m = lmData(1, at + 1); m.d[2] = k; deliver(m); deliver(lmData(2, 1));
    for (int f = at + 2; f <= 3; ++f) deliver(lmData(1, f));
    deliver(lmData(2, 2)); wait(T + 1); whole(1, 6); }, [](uint64_t k) { return "fragment " + std::to_string(k / 256 + 1) + " with sequence number " + std::to_string(k % 256); });
  l3.add(3 * 256, [](uint64_t k) {
    int at = k / 256; deliver(lmHeader(1, 14));
    for (int f = 1; f <= at; ++f) deliver(lmData(1, f));
    Msg m = lmData(2, 1); m.d[2] = k; deliver(m);
    for (int f = at + 1; f <= 3; ++f) deliver(lmData(1, f)); }, [](uint64_t k) { return "fragment of another stream with sequence number " + std::to_string(k % 256); });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 6)); deliver(lmData(k, 1)); if (k != 1) deliver(lmData(1, 1)); deliver(lmData(1, 2)); }, [](uint64_t k) { return "fragment of stream " + std::to_string(k) + " in between"; });
  l3.add(256, [](uint64_t k) { deliver(lmHeader(1, 6)); Msg m = lmData(1, 1); m.d[0] = k; if (k == 0xE9) m.d[1] = 9; deliver(m); deliver(lmData(1, 1)); deliver(lmData(1, 2)); }, [](uint64_t k) { return "other message with opcode " + std::to_string(k) + " in between"; });
  // every single bit error in checksum or payload
  l3.add(16 + 14 * 8, [](uint64_t k) {
    int len = 14, crc = crcOf(2, len); if (k < 16) crc ^= 1 << k;
    deliver(lmHeader(2, len, crc));
    for (int f = 1; f <= 3; ++f) { Msg m = lmData(2, f, len); if (k >= 16) { int b = (k - 16) / 8; if (b / 5 == f - 1) m.d[3 + b % 5] ^= 1 << (k - 16) % 8; } deliver(m); }
    whole(2, len, crcOf(2, len)); }, [](uint64_t k) { return (k < 16 ? "checksum bit " : "payload bit ") + std::to_string(k < 16 ? k : k - 16) + " changed"; });
  l3.add(65536, [](uint64_t k) { if (!w->ref.crc) return; deliver(lmHeader(1, 4, k)); deliver(lmData(1, 1, 4)); }, [](uint64_t k) { return "message with checksum " + std::to_string(k); });
  l3.add(65536, [](uint64_t k) { deliver(lmHeader(1, k)); deliver(lmHeader(2, 12)); for (int f = 1; f < 4; ++f) deliver(lmData(1, f)); deliver(lmData(2, 1)); wait(T + 1); whole(2, 6); }, [](uint64_t k) { return "message of " + std::to_string(k) + " bytes broken off"; });
  l3.add(60, [](uint64_t k) { deliver(lmHeader(1, 16)); for (unsigned f = 1; f <= k / 15; ++f) deliver(lmData(1, f)); for (unsigned n = 0; n <= k % 15; ++n) { wait(T / 4 + 1); deliver(lmData(n % 3 == 2 ? 7 : 2, n % 2)); } whole(1, 6); }, [](uint64_t k) { return "stall after fragment " + std::to_string(k / 15) + " with traffic of other streams"; });
  sc.push_back(scen("every byte value", 1, &l3, 8, setupRx, rxcfg));
  // every length, checksums, wrap of sequence numbers, and faults
  {
    static std::vector<int> len;
    for (int n = 0; n <= (th ? 700 : 140); ++n) len.push_back(n);
    for (int n = 1272; n <= (th ? 1560 : 1284); ++n) len.push_back(n);
    for (int n : {2549, 2550, 2551, 2560, 4000}) len.push_back(n);
    static const int kinds = 7;
    static std::vector<std::pair<int, int>> ops;
    for (int n : len) for (int at = 0; at <= (n + 4) / 5; ++at) { int nf = (n + 4) / 5; if (n <= 30 || at < 2 || at > nf - 2 || (at > 253 && at < 258)) ops.push_back({n, at}); }
    mc::Scenario x; x.name = "every length, one fault, with a second message in progress"; x.depth = 1; x.dedup = false; x.nconfigs = 4; x.nops = ops.size() * kinds;
    x.setup = [](int k) { buildRx(3, (unsigned[]){64, 4096, 20, 1300}[k], k & 1); };
    x.cfgname = [](int k) { return "buffer " + std::to_string((int[]){64, 4096, 20, 1300}[k]); };
    x.opname = [](uint64_t op) { static const char *f[] = {"no fault", "loss", "repetition", "a stall", "a changed byte", "a swap", "another stream's fragment"}; return std::to_string(ops[op / kinds].first) + " bytes, " + f[op % kinds] + " at fragment " + std::to_string(ops[op / kinds].second); };
    x.apply = [](uint64_t op) {
      int n = ops[op / kinds].first, at = ops[op / kinds].second, kind = op % kinds, nf = (n + 4) / 5;
      deliver(lmHeader(2, 12)); deliver(lmData(2, 1));
      for (int f = 0; f <= nf; ++f)
      {
        Msg m = f ? lmData(1, f, n) : lmHeader(1, n, crcOf(1, n));
        if (f == at)
        {
          if (kind == 1) continue;
          if (kind == 2 && !(f == 0)) deliver(m);
          if (kind == 3) wait(T + 1);
          if (kind == 4) m.d[f ? 3 : 5] ^= 1;
          if (kind == 5 && f && f < nf) { deliver(lmData(1, f + 1, n)); deliver(m); ++f; continue; }
          if (kind == 6) deliver(lmData(3, f));
        }
        deliver(m);
        if (f == nf / 2) deliver(lmData(2, 2));
      }
      deliver(lmData(2, 3));
      wait(T + 1); whole(1, 11, crcOf(1, 11)); whole(3, 15);
    };
    sc.push_back(x);
  }
  // sender: all sequences of sends and loops
  static const struct { int slots, delay; bool crc; } tc[] = {{1, -1, false}, {2, 20, true}, {3, 5, false}, {4, 0, true}, {0, 20, false}, {2, 0, false}, {2, 20, false}, {3, 5, true}};
  static OpList l4;
  {
    static const struct { int st, len; } so[] = {{5, 0}, {5, 6}, {6, 11}, {7, 1}, {8, 16}, {6, 5}};
    l4.add(6, [](uint64_t k) { send(so[k].st, so[k].len, k, false); }, [](uint64_t k) { return "send " + std::to_string(so[k].len) + " bytes on stream " + std::to_string(so[k].st); });
    l4.add(3, [](uint64_t k) { loopTx(k == 0 ? 0 : k == 1 ? w->delay - (w->delay > 0) : w->delay, false); }, [](uint64_t k) { return std::string(k == 0 ? "loop" : k == 1 ? "loop 1 ms before the delay has passed" : "loop when the delay has passed"); });
    mc::Scenario x = scen("sending sequences", mc::pick(5, 7), &l4, 8, [](int k) { buildRx(1, 8, false); if (k > 5) hw::now = 0ul - 30; buildTx(tc[k].slots, tc[k].delay, tc[k].crc); }, [](int k) { return std::to_string(tc[k].slots) + " send slots, delay " + std::to_string(tc[k].delay) + (tc[k].crc ? ", checksums on" : "") + (k > 5 ? ", the clock wraps" : ""); });
    x.finish = [] { drain(false); if (w->nsend) { send(5, 7, 3, false); send(6, 0, 1, false); drain(false); } };
    sc.push_back(x);
  }
  // nothing is kept of a message that has been sent, refused, or could not be copied
  {
    static OpList l;
    static const int LN[] = {0, 1, 5, 6, 33, 300};
    l.add(6 * 6, [](uint64_t k) {
      size_t a = 0; int n1 = LN[k % 6], n2 = LN[k / 6];
      for (int i = 0; i < 24; ++i)
      {
        if (i == 6) a = mc::arenaInUse();
        send(5, n1, 1, false); send(5, n2, 2, false); loopTx(w->delay, false); send(6, n2, 2, false); send(7, 11, 3, false); send(8, 12, 4, false); drain(false);
      }
      mc::countCheck(); if (mc::arenaInUse() != a) mc::fail("memory in use grows by %ld bytes with 18 rounds of messages of %d and %d bytes", (long)(mc::arenaInUse() - a), n1, n2);
      send(9, n1, 5, false); drain(false);
    }, [](uint64_t k) { return "repeated messages of " + std::to_string(LN[k % 6]) + " and " + std::to_string(LN[k / 6]) + " bytes"; });
    l.add(6 * 6 * 2, [](uint64_t k) {
      send(5, LN[k % 6], 1, false); if (k / 36) loopTx(w->delay, false);
      noMemory = true; send(6, LN[k / 6 % 6], 2, false); noMemory = false;
      loopTx(w->delay, false); send(6, LN[k / 6 % 6], 3, false); drain(false); send(6, 17, 4, false); drain(false);
    }, [](uint64_t k) { return "no memory for a message of " + std::to_string(LN[k / 6 % 6]) + " bytes after one of " + std::to_string(LN[k % 6]); });
    l.add(6 * 6, [](uint64_t k) {
      size_t a = 0;
      for (int i = 0; i < 24; ++i) { if (i == 6) a = mc::arenaInUse(); whole(1, LN[k % 6]); deliver(lmHeader(1, 20)); deliver(lmData(1, 1)); deliver(lmData(1, 3)); deliver(lmHeader(2, LN[k / 6] + 6)); deliver(lmData(2, 1)); wait(T + 1); }
      mc::countCheck(); if (mc::arenaInUse() != a) mc::fail("memory in use grows with messages received");
    }, [](uint64_t k) { return "repeated reception of " + std::to_string(LN[k % 6]) + " bytes"; });
    // allocateContexts tells whether all the memory was there
    l.add(5 * 5 * 20, [](uint64_t k) {
      int rx = k % 5, tx = k / 5 % 5, at = k / 25, need = 2 + 2 * rx + tx;
      w->tx.boot(true); mc::skipMallocs = at; mc::failMallocs = 1; bool ok = w->tx.ex->allocateContexts(rx, 9, tx); mc::failMallocs = mc::skipMallocs = 0;
      mc::countCheck(); if (!ok && at >= 2 * need) mc::fail("allocateContexts returned false with memory for everything"); // room for other ways to allocate
      if (ok)
      {
        // all of it must be there then
        w->node = &w->tx; w->nsend = tx; w->rx = w->tx; w->ref.init(w->ids, w->nids, rx, 9, T, false); w->rx.ex->subscribe(w->ids, w->nids, lmHandler); w->delay = 20; w->crc = false;
        for (int i = 0; i < rx; ++i) deliver(lmHeader(w->ids[i], 9));
        for (int f = 1; f < 3; ++f) for (int i = 0; i < rx; ++i) deliver(lmData(w->ids[i], f, 9));
        for (int i = 0; i < tx; ++i) send(5 + i, 7, i, false);
        drain(false);
      }
    }, [](uint64_t k) { return std::to_string(k % 5) + " receive and " + std::to_string(k / 5 % 5) + " send slots, allocation " + std::to_string(k / 25 + 1) + " fails"; });
    sc.push_back(scen("memory", 1, &l, 6, [](int k) { buildRx(2, 64, tc[k].crc); buildTx(tc[k].slots, tc[k].delay, tc[k].crc); }, [](int k) { return std::to_string(tc[k].slots) + " send slots"; }));
  }
  // two services in one program do not share anything
  {
    static OpList l5;
    l5.add(3, [](uint64_t k) { if (k == 0) send(5, 16, 1, false); if (k == 1) send(6, 6, 2, false); if (k == 2) loopTx(20, false); }, [](uint64_t k) { return std::string(k == 0 ? "send 16 bytes" : k == 1 ? "send 6 bytes" : "loop"); });
    l5.add(1, [](uint64_t) { w->other.loop(); if (w->other.can->nout) mc::fail("the other service sent a frame"); }, [](uint64_t) { return std::string("loop of the other service"); });
    mc::Scenario x = scen("two services", mc::pick(8, 11), &l5, 4, [](int k) { buildRx(1, 8, false); buildTx(1 + k % 2, 20, false); w->other.boot(true); w->other.ex->allocateContexts(1, 8, k < 2 ? 4 : 1); }, nullptr);
    x.finish = [] { drain(false); };
    sc.push_back(x);
  }
  // sending and receiving in one service
  {
    static OpList l7;
    l7.add(4, [](uint64_t k) { send((int[]){5, 1, 2, 6}[k], (int[]){11, 6, 0, 16}[k], k + 1, false); }, [](uint64_t k) { return std::string((const char *[]){"send 11 bytes on stream 5", "send 6 bytes on stream 1", "send nothing on stream 2", "send 16 bytes on stream 6"}[k]); });
    l7.add(3, [](uint64_t k) { hw::now += (int[]){0, 20, T}[k]; w->ref.tick(); w->rx.loop(); frames("loop", false); compare("in the loop"); }, [](uint64_t k) { return std::string(k == 0 ? "loop" : k == 1 ? "loop after 20 ms" : "loop after 5 s"); });
    static const std::vector<Msg> in = {lmHeader(1, 11), lmData(1, 1), lmData(1, 2), lmData(1, 3), lmHeader(2, 6, 0x1234), lmData(2, 1), lmData(2, 2), lmHeader(5, 6), lmData(5, 1)};
    l7.msgs(in, [](const Msg &m) { deliver(m); frames("after a fragment", false); });
    mc::Scenario x = scen("both directions", mc::pick(5, 6), &l7, 4, [](int k) { buildRx(1 + k % 2, 16, k == 1, T, 1 + k % 2); if (k > 1) hw::now = 0ul - 50; buildTx(1 + k % 2, 20, k == 1, true); }, [](int k) { return std::to_string(1 + k % 2) + " slots each way" + (k == 1 ? ", checksums on" : "") + (k > 1 ? ", the clock wraps" : ""); });
    x.finish = [] { drain(false); w->ref.tick(); compare("after all was sent"); wait(T + 1); whole(1, 7); whole(2, 9); };
    sc.push_back(x);
  }
  // every number of slots and of subscribed streams
  {
    static OpList l8;
    l8.add(256, [](uint64_t k) {
      buildRx(k, 12, false); buildTx(0, 0, false); // not more messages at a time than slots
      for (int i = 0; i < (int)k + 1; ++i) deliver(lmHeader(w->ids[i % 5], 6 + i % 9));
      for (int i = 0; i < 5; ++i) for (int f = 1; f < 4; ++f) deliver(lmData(w->ids[i], f));
      wait(T + 1); whole(1, 6);
    }, [](uint64_t k) { return std::to_string(k) + " receive slots, 5 streams"; });
    l8.add(256, [](uint64_t k) {
      // one more message than there are slots
      buildRx(k, 12, k & 1, T, 1, 255); buildTx(0, 0, false);
      int n = k < 254 ? k + 1 : 255;
      for (int i = 0; i < n; ++i) { hw::now += 2; deliver(lmHeader(w->ids[i], 1 + i % 12, i % 3 ? 0 : crcOf(w->ids[i], 1 + i % 12))); }
      for (int f = 1; f < 4; ++f) for (int i = n; i--;) if (i % 12 + 1 > (f - 1) * 5 && i % 7 != 5) { hw::now += 2; deliver(lmData(w->ids[i], f)); }
      ++hw::now; for (int t = 0; t < T + 2000; t += 2) wait(2);
      whole(w->ids[0], 6); whole(w->ids[254], 6);
    }, [](uint64_t k) { return std::to_string(k) + " receive slots, 255 streams, one message more than slots"; });
    l8.add(256, [](uint64_t k) {
      buildRx(2, 12, false, T, 1, k); buildTx(0, 0, false);
      for (int s = 0; s < 256; ++s) whole(s, 6);
    }, [](uint64_t k) { return std::to_string(k) + " subscribed streams"; });
    l8.add(256 * 2, [](uint64_t k) {
      int n = k & 255; buildRx(1, 8, false); buildTx(n, k >> 8 ? 3 : 0, n & 1);
      for (int i = 0; i < (n < 255 ? n + 1 : 256); ++i) send(i, 1 + i * 5 % 12, i, false);
      send(0, 3, 1, false);
      for (int i = 0; i < 40; ++i) loopTx(i & 1, false);
      send(n < 255 ? n : 255, 7, 2, false); drain(false);
      if (n) { send(n, 7, 2, false); drain(false); }
    }, [](uint64_t k) { return std::to_string(k & 255) + " send slots, one message more than slots, delay " + (k >> 8 ? "3" : "0"); });
    sc.push_back(scen("every number of slots and streams", 1, &l8, 1, [](int) { buildRx(1, 8, false); }, nullptr));
  }
  // end to end
  {
    static OpList l6;
    static const struct { int st, len; } so[] = {{1, 6}, {2, 16}, {3, 11}, {4, 0}, {1, 21}};
    l6.add(5, [](uint64_t k) {
      if (send(so[k].st, so[k].len, k, true))
      { uint8_t b[64]; unsigned n = std::min<unsigned>(so[k].len, w->ref.cap); for (unsigned i = 0; i < n; ++i) b[i] = lmByte(k, i); add(w->final, ev(n < (unsigned)so[k].len ? 5 : 1, so[k].st, b, n)); }
      }, [](uint64_t k) { return "send " + std::to_string(so[k].len) + " bytes on stream " + std::to_string(so[k].st); });
    l6.add(1, [](uint64_t) { loopTx(20, true); w->ref.tick(); w->rx.loop(); }, [](uint64_t) { return std::string("loop"); });
    mc::Scenario x = scen("end to end", mc::pick(8, 10), &l6, 3, [](int k) { buildRx(4, k == 0 ? 16 : 64, k == 2); buildTx(k == 1 ? 2 : 4, 20, k > 0); }, nullptr);
    x.finish = [] {
      drain(true);
      // order between streams is free
      sortEv(w->rx.log); sortEv(w->final); compareEv(w->rx.log, w->final, "after all messages were sent"); };
    sc.push_back(x);
    static std::vector<int> el; for (int n = 0; n < (th ? 600 : 130); ++n) el.push_back(n); for (int n = 1270; n < 1290; ++n) el.push_back(n); for (int n : {2550, 2551, 4000, 32767, 32768, 65535}) el.push_back(n);
    mc::Scenario y; y.name = "every length end to end, two at a time"; y.depth = 1; y.dedup = false; y.nconfigs = 4; y.nops = el.size();
    y.setup = [](int k) { buildRx(2, k & 1 ? 4096 : 64, k & 2); buildTx(4, 0, k & 2); };
    y.opname = [](uint64_t op) { return std::to_string(el[op]) + " bytes"; };
    y.apply = [](uint64_t op) {
      unsigned n = el[op]; uint8_t b[4096]; auto want = [&](int st, int salt, unsigned l) { unsigned m = std::min(l, w->ref.cap); for (unsigned i = 0; i < m; ++i) b[i] = lmByte(salt, i); add(w->final, ev(m < l ? 5 : 1, st, b, m)); };
      send(2, n, 3, true); want(2, 3, n); loopTx(1, true); send(0xFE, 33, 4, true); want(0xFE, 4, 33);
      unsigned guard = 0; while (active()) { loopTx(1, true); if (++guard > 70000) mc::fail("sending does not end"); }
      sortEv(w->rx.log); sortEv(w->final); compareEv(w->rx.log, w->final, "after both messages were sent");
      for (int i = 0; i < 5; ++i) loopTx(300, true);
    };
    sc.push_back(y);
  }
  longer(sc, "fragment sequences", false, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  longer(sc, "sending sequences", false, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  longer(sc, "both directions", false, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  const char *as[] = {"fragments are 8 bytes long", "the user's loop calls the service's process() after each change of time", "the same stream id is used by one sender at a time", "a stream's header arriving exactly when its sequence number has wrapped to 0 cannot be told from data (protocol)", "allocateContexts has succeeded"};
  return mc::run(argc, argv, "C15", sc.data(), sc.size(), "exhaustive exploration of the real sender and receiver against reference reassemblers", as, 5);
}
