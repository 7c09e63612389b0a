#include <algorithm>
#include "world.h"
namespace VLCB { Configuration config(nullptr); }
Callback g_cb[32];
int g_ncb;
void (*g_onEvent)(uint8_t, uint8_t, const VLCB::VlcbMessage *);
static void rec(int kind, byte index, const VLCB::VlcbMessage *m)
{
  if (g_ncb < 32) { g_cb[g_ncb].kind = kind; g_cb[g_ncb].index = index; g_cb[g_ncb].m.len = m->len; memcpy(g_cb[g_ncb].m.d, m->data, 8); }
  ++g_ncb;
  if (g_onEvent) g_onEvent(kind, index, m);
}
void cbEvent(byte index, const VLCB::VlcbMessage *m) { rec(1, index, m); }
void cbRequest(byte index, const VLCB::VlcbMessage *m) { rec(2, index, m); }

std::string frameStr(const VLCB::CANFrame &f)
{
  char b[100]; int k = snprintf(b, sizeof b, "id=%x%s%s [%d:", (unsigned)f.id, f.ext ? " ext" : "", f.rtr ? " rtr" : "", f.len);
  for (int i = 0; i < f.len && i < 8; ++i) k += snprintf(b + k, sizeof b - k, " %02X", f.data[i]);
  snprintf(b + k, sizeof b - k, "]");
  return b;
}
static Msg frameMsg(const VLCB::CANFrame &f) { Msg m; memset(&m, 0, sizeof m); m.len = f.len; memcpy(m.d, f.data, f.len > 8 ? 8 : f.len); return m; }

void clearStep(NodeWorld &w, RefNode &r)
{
  w.can->nout = 0; g_ncb = 0; r.out.clear(); r.cb.clear(); r.rtrOut = r.emptyOut = 0; r.now = hw::now; w.spy->nActivity = w.spy->nin = 0;
}

void compareOut(NodeWorld &w, RefNode &r, const char *what, bool ordered)
{
  mc::countCheck();
  int rtr = 0, empty = 0, n = 0;
  if (w.can->nout <= w.can->capOut)
    for (int i = 0; i < w.can->nout; ++i)
    {
      VLCB::CANFrame &f = w.can->out[i];
      if (f.rtr) { ++rtr; if (f.len || f.ext) mc::fail("%s: malformed remote frame %s", what, frameStr(f).c_str()); }
      else if (f.len == 0) { ++empty; if (f.ext) mc::fail("%s: extended empty frame", what); }
      else if (r.heartbeat && !r.hbModel && f.len == 6 && f.data[0] == P::HEARTB && std::find(r.out.begin(), r.out.end(), frameMsg(f)) == r.out.end()) continue; // judged by C21
      else w.can->out[n++] = f;
    }
  else n = w.can->nout;
  if (rtr != r.rtrOut || empty != r.emptyOut) mc::fail("%s: %d remote and %d empty frames sent, expected %d and %d", what, rtr, empty, r.rtrOut, r.emptyOut);
  bool bad = (size_t)n != r.out.size() || n > w.can->capOut;
  if (!bad)
  {
    if (ordered) { for (int i = 0; i < n; ++i) if (!(frameMsg(w.can->out[i]) == r.out[i])) bad = true; }
    else if (n == 1) bad = !(frameMsg(w.can->out[0]) == r.out[0]);
    else
    {
      uint64_t used[8] = {0};
      for (int i = 0; i < n && !bad; ++i)
      {
        Msg m = frameMsg(w.can->out[i]); bool f = false;
        for (int k = 0; k < n; ++k) { int j = (i + k) % n; if (!(used[(j >> 6) & 7] >> (j & 63) & 1) && m == r.out[j]) { used[(j >> 6) & 7] |= 1ull << (j & 63); f = true; break; } }
        if (!f) bad = true;
      }
    }
    for (int i = 0; i < n && !bad; ++i)
    {
      const VLCB::CANFrame &f = w.can->out[i];
      if (f.ext || f.rtr) bad = true;
    }
  }
  w.can->nout = 0;
  if (bad && r.out.size() > 30 && n == 30 && n <= w.can->capOut)
  {
    // the 30-entry action queue keeps exactly the newest 30 of a longer list of replies
    bool tail = true;
    size_t off = r.out.size() - 30;
    for (int i = 0; i < 30 && tail; ++i) tail = frameMsg(w.can->out[i]) == r.out[off + i];
    if (tail && mc::known("queue30", "%s: %d replies due, only the last 30 sent", what, (int)r.out.size())) return;
  }
  if (bad)
  {
    // report only what does not match when the lists are long
    std::vector<Msg> got, want(r.out);
    for (int i = 0; i < n && i < w.can->capOut; ++i) got.push_back(frameMsg(w.can->out[i]));
    if (got.size() > 6)
      for (size_t i = 0; i < got.size();)
      {
        size_t j = 0; while (j < want.size() && !(want[j] == got[i])) ++j;
        if (j < want.size()) { want.erase(want.begin() + j); got.erase(got.begin() + i); } else ++i;
      }
    std::string a, b;
    for (size_t i = 0; i < got.size() && i < 12; ++i) a += " " + str(got[i]);
    for (size_t i = 0; i < want.size() && i < 12; ++i) b += " " + str(want[i]);
    mc::fail("%s: messages sent (%d):%s ; expected (%d):%s%s", what, n, a.c_str(), (int)r.out.size(), b.c_str(), got.size() != (size_t)n ? " (differences only)" : "");
  }
}
void compareCallbacks(RefNode &r, const char *what)
{
  mc::countCheck();
  bool bad = (size_t)g_ncb != r.cb.size();
  for (int i = 0; i < g_ncb && !bad && i < 32; ++i) bad = !(g_cb[i] == r.cb[i]);
  if (bad)
  {
    std::string a, b;
    for (int i = 0; i < g_ncb && i < 8; ++i) a += " " + str(g_cb[i]);
    for (auto &c : r.cb) b += " " + str(c);
    mc::fail("%s: application callbacks (%d):%s ; expected (%d):%s", what, g_ncb, a.c_str(), (int)r.cb.size(), b.c_str());
  }
}
void compareTable(NodeWorld &w, RefNode &r, const char *what)
{
  mc::countCheck();
  for (int i = 0; i < r.c.maxEvents; ++i)
  {
    bool used = w.cfg->getEvTableEntry(i) != 0;
    byte id[4]; w.cfg->readEvent(i, id);
    const Slot &s = r.slots[i];
    if (used != s.used) mc::fail("%s: table entry %d %s but expected %s", what, i, used ? "in use" : "free", s.used ? "in use" : "free");
    if (!used) continue;
    if ((id[0] << 8 | id[1]) != s.nn || (id[2] << 8 | id[3]) != s.en)
      mc::fail("%s: table entry %d holds event %d:%d, expected %d:%d", what, i, id[0] << 8 | id[1], id[2] << 8 | id[3], s.nn, s.en);
    for (int k = 1; k <= r.c.numEvs; ++k)
      if (w.cfg->getEventEVval(i, k) != r.evAt(i, k))
        mc::fail("%s: table entry %d variable %d is %d, expected %d", what, i, k, w.cfg->getEventEVval(i, k), r.evAt(i, k));
    if (r.find(s.nn, s.en) != w.cfg->findExistingEvent(s.nn, s.en)) mc::fail("%s: lookup of %d:%d gives %d, expected %d", what, s.nn, s.en, w.cfg->findExistingEvent(s.nn, s.en), r.find(s.nn, s.en));
  }
  if (w.cfg->numEvents() != r.count()) mc::fail("%s: %d events counted, expected %d", what, w.cfg->numEvents(), r.count());
}
void compareIdentity(NodeWorld &w, RefNode &r, const char *what)
{
  mc::countCheck();
  if (w.cfg->nodeNum != r.nn) mc::fail("%s: node number %u, expected %u", what, w.cfg->nodeNum, r.nn);
  if (w.cfg->CANID != r.canid) mc::fail("%s: CAN id %d, expected %d", what, w.cfg->CANID, r.canid);
  if ((uint8_t)w.cfg->currentMode != r.pmode) mc::fail("%s: stored mode %d, expected %d", what, w.cfg->currentMode, r.pmode);
  if (w.cfg->heartbeat != r.heartbeat) mc::fail("%s: heartbeat setting %d, expected %d", what, w.cfg->heartbeat, r.heartbeat);
  if (w.ctl->getParam(8) != r.flags()) mc::fail("%s: flags parameter %02X, expected %02X", what, w.ctl->getParam(8), r.flags());
  if (w.cfg->isResetFlagSet() != r.resetFlag) mc::fail("%s: reset indication %d, expected %d", what, w.cfg->isResetFlagSet(), r.resetFlag);
  if (w.spy->nMode && (uint8_t)w.spy->lastMode != r.mode) mc::fail("%s: indicated mode %d, expected %d", what, w.spy->lastMode, r.mode);
  for (int i = 1; i <= r.c.numNvs; ++i) if (w.cfg->readNV(i) != r.nv[i - 1]) mc::fail("%s: node variable %d is %d, expected %d", what, i, w.cfg->readNV(i), r.nv[i - 1]);
}
void syncRef(NodeWorld &w, RefNode &r)
{
  static const uint8_t base[21] = {20, 250, 'b', 0x63, 0, 0, 0, 2, 0, 50, 1, 0, 0, 0, 0, '?', '?', '?', '?', 2, 7};
  memcpy(r.params, base, 21);
  r.params[4] = r.c.maxEvents; r.params[5] = r.c.numEvs; r.params[6] = r.c.numNvs;
  memcpy(r.name, "MCNoDe7", 8);
  r.services.clear();
  const NodeCfg &c = r.c;
  if (c.mns) r.services.push_back({P::S_MNS, 1});
  if (c.ui) r.services.push_back({0, 0});
  if (c.sui) r.services.push_back({0, 0});
  if (c.can) r.services.push_back({P::S_CAN, 2});
  if (c.nv) r.services.push_back({P::S_NV, 1});
  if (c.cons) r.services.push_back({P::S_CONS, 1});
  if (c.teach) r.services.push_back({P::S_TEACH, 1});
  if (c.prod) r.services.push_back({P::S_PROD, 1});
  if (c.coe) r.services.push_back({P::S_COE, 1});
  if (c.longm) r.services.push_back({P::S_LONG, 1});
  for (int i = 0; i < c.hidden; ++i) r.services.push_back({0, 0});
  permute(r.services.data(), (int)r.services.size(), c.perm);
}
void bootFactory(NodeWorld &w, RefNode &r, const NodeCfg &c)
{
  w.create(c);
  r.init(c);
  syncRef(w, r);
  r.provision = c.prod;
  w.settle();
  clearStep(w, r);
}
void bootNormal(NodeWorld &w, RefNode &r, const NodeCfg &c, int nn, int canid)
{
  w.c = c; w.globalCfg = mc::profile() & c.vary & 8;
  unsigned need = c.need();
  w.st = mc::make<FakeStorage>(need < 24 ? 24 : need);
  w.can = mc::make<FakeCan>(c.maxEvents > 20 || c.numNvs > 20 || c.numEvs > 20 ? 300 : 48);
  uint8_t *m = w.st->mem;
  m[0] = P::M_NORMAL; m[1] = canid; m[2] = nn >> 8; m[3] = nn; m[4] = 0; m[5] = 0;
  int p = mc::profile() & c.vary; // settings that most properties do not depend on
  if (p & 1) m[VLCB::LOCATION_FLAGS] |= 1 << VLCB::EVENT_ACK_BIT;
  if (p & 2) m[VLCB::LOCATION_FLAGS] |= 1 << VLCB::HEARTBEAT_BIT;
  if (p & 4) m[VLCB::LOCATION_RESET_FLAG] = 99;
  for (int i = 0; i < c.numNvs; ++i) m[c.nvStart + i] = 0;
  w.boot();
  r.init(c);
  syncRef(w, r);
  r.mode = r.pmode = P::M_NORMAL; r.nn = nn; r.canid = canid; r.eventAck = p & 1; r.heartbeat = p & 2; r.resetFlag = p & 4;
  w.settle();
  clearStep(w, r);
}
void stepCheck(NodeWorld &w, RefNode &r, const char *what, int flags)
{
  if (!(flags & NO_OUT)) compareOut(w, r, what, flags & ORDERED);
  if (!(flags & NO_CB)) compareCallbacks(r, what);
  if (flags & CMP_FLAGS) { mc::countCheck(); if (w.ctl->getParam(8) != r.flags()) mc::fail("%s: flags parameter %02X, expected %02X", what, w.ctl->getParam(8), r.flags()); }
  if (flags & CMP_TABLE) compareTable(w, r, what);
  if (flags & CMP_ID) compareIdentity(w, r, what);
}
void stepMsg(NodeWorld &w, RefNode &r, const Msg &m, int flags)
{
  clearStep(w, r);
  w.can->pushMsg(m, r.canid == 0x7E ? 0x7D : 0x7E); // the sender has an id of its own
  w.settle();
  r.receive(m);
  std::string s = "after " + str(m);
  if (r.restartAsked) { stepCheck(w, r, s.c_str(), flags & (NO_OUT | NO_CB)); stepRestart(w, r, flags); return; }
  stepCheck(w, r, s.c_str(), flags);
}
void stepFrame(NodeWorld &w, RefNode &r, uint32_t id, bool ext, bool rtr, const Msg &m, int flags)
{
  clearStep(w, r);
  VLCB::CANFrame f; memset(&f, 0xEE, sizeof f);
  f.id = id; f.ext = ext; f.rtr = rtr; f.len = m.len; memcpy(f.data, m.d, m.len);
  w.can->push(f);
  w.settle();
  r.frame(id, ext, rtr, m);
  std::string s = "after frame " + frameStr(f);
  stepCheck(w, r, s.c_str(), flags);
}
void stepAction(NodeWorld &w, RefNode &r, int which, int flags)
{
  static const VLCB::ACTION a[] = {VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_START_CAN_ENUMERATION};
  static const char *n[] = {"change-mode action", "renegotiate action", "enumeration action"};
  clearStep(w, r);
  w.ctl->putAction(a[which]);
  w.settle();
  if (which == 0) r.actChangeMode(); else if (which == 1) r.actRenegotiate(); else r.startEnum(false);
  std::string s = std::string("after ") + n[which];
  stepCheck(w, r, s.c_str(), flags);
}
void stepTime(NodeWorld &w, RefNode &r, unsigned long ms, int flags)
{
  clearStep(w, r);
  hw::now += ms;
  w.settle();
  r.tick(hw::now);
  std::string s = "after " + std::to_string(ms) + " ms";
  stepCheck(w, r, s.c_str(), flags);
}
void stepRestart(NodeWorld &w, RefNode &r, int flags)
{
  w.powerCycle();
  clearStep(w, r);
  w.settle();
  r.restart();
  r.tick(hw::now);
  stepCheck(w, r, "after restart", flags);
}

static void sendEvent(NodeWorld &w, bool on, uint8_t v, int nd, const uint8_t *d)
{
  switch (nd)
  {
  case 0: w.eps->sendEvent(on, v); break;
  case 1: w.eps->sendEvent(on, v, d[0]); break;
  case 2: w.eps->sendEvent(on, v, d[0], d[1]); break;
  default: w.eps->sendEvent(on, v, d[0], d[1], d[2]); break;
  }
}
void stepProduce(NodeWorld &w, RefNode &r, bool on, uint8_t evv, int nd, const uint8_t *data, int flags)
{
  clearStep(w, r);
  sendEvent(w, on, evv, nd, data);
  w.settle();
  r.produce(on, evv, nd, data);
  char b[80]; snprintf(b, sizeof b, "after producing %s for input %d with %d data bytes", on ? "on" : "off", evv, nd);
  stepCheck(w, r, b, flags);
}
void stepRespond(NodeWorld &w, RefNode &r, bool on, int i, int nd, const uint8_t *d, int flags)
{
  clearStep(w, r);
  switch (nd)
  {
  case 0: w.eps->sendEventResponse(on, i); break;
  case 1: w.eps->sendEventResponse(on, i, d[0]); break;
  case 2: w.eps->sendEventResponse(on, i, d[0], d[1]); break;
  default: w.eps->sendEventResponse(on, i, d[0], d[1], d[2]); break;
  }
  w.settle();
  r.respond(on, i, nd, d);
  char b[80]; snprintf(b, sizeof b, "after responding %s for entry %d with %d data bytes", on ? "on" : "off", i, nd);
  stepCheck(w, r, b, flags);
}
uint64_t nodeKey(NodeWorld &w, RefNode &r)
{
  uint64_t h = mc::hash(w.st->mem, w.st->size);
  for (int i = 0; i < r.c.maxEvents; ++i) { uint8_t b = w.cfg->getEvTableEntry(i); h = mc::hash(&b, 1, h); }
  uint8_t x[12] = {w.ctl->getParam(8), (uint8_t)w.spy->lastMode, r.mode, r.learn, r.enumActive, r.enumFrom, r.provision, r.pmode, w.cfg->heartbeat, w.cfg->eventAck, w.cfg->CANID, (uint8_t)w.cfg->currentMode};
  h = mc::hash(x, sizeof x, h);
  unsigned long t[2] = {r.enumActive ? r.now - r.enumT0 : 0, w.cfg->nodeNum};
  h = mc::hash(t, sizeof t, h);
  if (r.enumActive) h = mc::hash(r.enumSeen, 16, h);
  return h;
}
