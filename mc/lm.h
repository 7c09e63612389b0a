// Long messages: a small real node (controller, CAN service, long message
// service) and independent reference models of the two receivers.
#pragma once
#include "world.h"
#include "alpha.h"
#include <memory>
struct Ev { uint8_t status, stream; uint32_t len; uint64_t h; uint8_t b[8]; };
enum { NEV = 40 };
struct EvLog { int n = 0; Ev e[NEV]; };
extern EvLog *g_log;                           // log the handler writes to
inline Ev ev(uint8_t status, uint8_t stream, const uint8_t *p, uint32_t len)
{
  Ev e; memset(&e, 0, sizeof e); e.status = status; e.stream = stream; e.len = len;
  memcpy(e.b, p, len < 8 ? len : 8); e.h = len ? mc::hash(p, len) : 0; return e;
}
inline void add(EvLog &l, const Ev &e) { if (l.n < NEV) l.e[l.n] = e; ++l.n; }
inline void lmHandler(void *p, unsigned int len, uint8_t stream, uint8_t status) { add(*g_log, ev(status, stream, (uint8_t *)p, len)); }
inline std::string str(const Ev &e)
{
  static const char *s[] = {"incomplete", "complete", "sequence error", "timeout", "checksum error", "truncated"};
  char t[160]; snprintf(t, sizeof t, "stream %d %s %u bytes", e.stream, e.status < 6 ? s[e.status] : "?", e.len);
  std::string r = t; for (unsigned i = 0; i < e.len && i < 8; ++i) { snprintf(t, sizeof t, " %02X", e.b[i]); r += t; }
  return r + (e.len > 8 ? " ..." : "");
}
inline void compareEv(EvLog &got, EvLog &want, const char *what)
{
  for (int i = 0; i < got.n || i < want.n; ++i)
  {
    if (i >= NEV) mc::fail("%s: too many reports", what);
    if (i >= want.n) mc::fail("%s: unexpected report: %s", what, str(got.e[i]).c_str());
    if (i >= got.n) mc::fail("%s: missing report: %s", what, str(want.e[i]).c_str());
    const Ev &a = got.e[i], &b = want.e[i];
    if (a.status != b.status || a.stream != b.stream || a.len != b.len || a.h != b.h)
      mc::fail("%s: reported: %s, expected: %s", what, str(a).c_str(), str(b).c_str());
  }
  if (mc::replaying()) for (int i = 0; i < got.n; ++i) mc::note("reported: %s", str(got.e[i]).c_str());
  got.n = want.n = 0;
  mc::countCheck();
}
// a node with one long message service
struct LmNode
{
  FakeStorage *st; FakeCan *can; VLCB::Configuration *cfg; VLCB::Controller *ctl; VLCB::CanService *cs;
  VLCB::LongMessageService *lms; VLCB::LongMessageServiceEx *ex;
  EvLog log;
  void boot(bool extended)
  {
    using namespace VLCB;
    st = mc::make<FakeStorage>(20); memset(st->mem, 0, 20); st->mem[0] = 1; st->mem[1] = 5; st->mem[2] = 1; st->mem[3] = 4;
    can = mc::make<FakeCan>(8, 2);
    cfg = mc::make<Configuration>(st);
    cfg->EE_NVS_START = 10; cfg->EE_NUM_NVS = 1; cfg->EE_MAX_EVENTS = 1; cfg->EE_NUM_EVS = 1;
    cfg->begin();
    cs = mc::make<CanService>(can);
    lms = extended ? (ex = mc::make<LongMessageServiceEx>()) : (ex = nullptr, mc::make<LongMessageService>());
    ctl = mc::make<Controller>(cfg, std::initializer_list<Service *>{cs, lms});
    unsigned char *p = (unsigned char *)mc::arenaAlloc(21, true); ctl->setParams(p);
    ctl->begin();
  }
  void pump() { for (int i = 0; i < 4; ++i) ctl->process(); while (ctl->pendingAction() || can->n) ctl->process(); }
  // the user's loop
  void loop() { g_log = &log; pump(); ex ? ex->process() : lms->process(); pump(); }
  void arrive(const Msg &m) { can->pushMsg(m); g_log = &log; pump(); }
};
inline Msg lmHeader(int stream, int len, int crc = 0, int flags = 0) { return Msg{8, {0xE9, (uint8_t)stream, 0, (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)(crc >> 8), (uint8_t)crc, (uint8_t)flags}}; }
// the byte at a position of the message of a stream; includes zeros and values above 127
inline uint8_t lmByte(int stream, unsigned pos) { return pos % 6 == 2 ? 0 : (uint8_t)(stream * 83 + pos * 37 + pos / 256 + 129); }
// fragment with sequence number seq (1 first), padded with zeros beyond len (len < 0: not padded)
inline Msg lmData(int stream, unsigned frag, long len = -1)
{
  Msg m; memset(&m, 0, sizeof m); m.len = 8; m.d[0] = 0xE9; m.d[1] = stream; m.d[2] = frag;
  for (unsigned j = 0; j < 5; ++j) { unsigned p = (frag - 1) * 5 + j; m.d[3 + j] = len >= 0 && p >= (unsigned long)len ? 0 : lmByte(stream, p); }
  return m;
}
// CRC-16/X-25 with its bytes swapped, bitwise by definition
inline int lmCrc(const uint8_t *p, unsigned n)
{
  unsigned c = 0xFFFF;
  for (unsigned i = 0; i < n; ++i) for (int b = 0; b < 8; ++b) { unsigned x = (c ^ (p[i] >> b)) & 1; c = (c >> 1) ^ (x ? 0x8408 : 0); }
  c = ~c & 0xFFFF; return ((c << 8) | (c >> 8)) & 0xFFFF;
}
inline bool inSet(const uint8_t *ids, int n, int s) { for (int i = 0; i < n; ++i) if (ids[i] == s) return true; return false; }
// reference of one reception
struct Rx
{
  bool on; uint8_t stream, seq; unsigned len, got, idx, crc; unsigned long last; uint8_t *buf;
};
struct RefBasic
{
  Rx r; uint8_t *ids; int nids; unsigned cap; unsigned long timeout; EvLog want;
  void init(uint8_t *i, int n, unsigned c, unsigned long t) { ids = i; nids = n; cap = c; timeout = t; memset(&r, 0, sizeof r); r.buf = (uint8_t *)mc::arenaAlloc(c + 8, true); want.n = 0; }
  void frame(const Msg &m)
  {
    if (m.d[0] != 0xE9) return;
    if (!r.on)
    {
      if (m.d[2] || m.d[7] || !inSet(ids, nids, m.d[1])) return;
      r.stream = m.d[1]; r.len = m.d[3] * 256 + m.d[4]; r.got = r.idx = 0; r.seq = 1; r.last = hw::now;
      if (!r.len) { add(want, ev(1, r.stream, r.buf, 0)); return; }
      r.on = true; return;
    }
    if (m.d[1] != r.stream) return;
    if (m.d[2] != r.seq) { add(want, ev(2, r.stream, r.buf, r.idx)); r.on = false; return; }
    ++r.seq; r.last = hw::now;
    for (int j = 0; j < 5; ++j)
    {
      r.buf[r.idx++] = m.d[3 + j]; ++r.got;
      if (r.got == r.len) { add(want, ev(1, r.stream, r.buf, r.idx)); r.on = false; r.idx = 0; return; }
      if (r.idx == cap) { add(want, ev(0, r.stream, r.buf, r.idx)); r.idx = 0; }
    }
  }
  void tick() { if (r.on && hw::now - r.last >= timeout) { add(want, ev(3, r.stream, r.buf, r.idx)); r.on = false; } }
};
struct RefEx
{
  Rx *r; int n; uint8_t *ids; int nids; unsigned cap; unsigned long timeout; bool crc; EvLog want;
  void init(uint8_t *i, int ni, int nrx, unsigned c, unsigned long t, bool useCrc)
  {
    ids = i; nids = ni; n = nrx; cap = c; timeout = t; crc = useCrc; want.n = 0;
    r = (Rx *)mc::arenaAlloc(sizeof(Rx) * (nrx ? nrx : 1), true);
    for (int k = 0; k < n; ++k) r[k].buf = (uint8_t *)mc::arenaAlloc(c + 8, true);
  }
  Rx *of(int s) { for (int k = 0; k < n; ++k) if (r[k].on && r[k].stream == s) return &r[k]; return nullptr; }
  void frame(const Msg &m)
  {
    if (m.d[0] != 0xE9) return;
    Rx *x = of(m.d[1]);
    if (m.d[2] == 0 && !(x && x->seq == 0))
    {
      if (m.d[7]) return;
      if (x) { add(want, ev(2, x->stream, x->buf, x->idx)); x->on = false; }
      if (!inSet(ids, nids, m.d[1])) return;
      for (int k = 0; k < n; ++k) if (!r[k].on)
      {
        x = &r[k]; x->stream = m.d[1]; x->len = m.d[3] * 256 + m.d[4]; x->crc = m.d[5] * 256 + m.d[6]; x->got = x->idx = 0; x->seq = 1; x->last = hw::now;
        if (!x->len) add(want, ev(1, x->stream, x->buf, 0)); else x->on = true;
        return;
      }
      return;
    }
    if (!x) return;
    if (m.d[2] != x->seq) { add(want, ev(2, x->stream, x->buf, x->idx)); x->on = false; return; }
    ++x->seq; x->last = hw::now;
    for (int j = 0; j < 5; ++j)
    {
      x->buf[x->idx++] = m.d[3 + j]; ++x->got;
      if (x->got == x->len) { bool bad = crc && x->crc && (int)x->crc != lmCrc(x->buf, x->idx); add(want, ev(bad ? 4 : 1, x->stream, x->buf, x->idx)); x->on = false; return; }
      if (x->idx == cap) { add(want, ev(5, x->stream, x->buf, x->idx)); x->on = false; return; }
    }
  }
  void tick() { for (int k = 0; k < n; ++k) if (r[k].on && hw::now - r[k].last >= timeout) { add(want, ev(3, r[k].stream, r[k].buf, r[k].idx)); r[k].on = false; } }
};
