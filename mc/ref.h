// Reference model of a VLCB node, written from the protocol, in lock-step with
// which the real node is explored.  Protocol numbers are literal on purpose.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <cstdio>

namespace P {
enum : uint8_t {
  QNN = 0x0D, RQNP = 0x10, RQMN = 0x11, SNN = 0x42, NNRSM = 0x4F, RQNN = 0x50, NNREL = 0x51, NNACK = 0x52,
  NNLRN = 0x53, NNULN = 0x54, NNCLR = 0x55, NNEVN = 0x56, NERD = 0x57, RQEVN = 0x58, WRACK = 0x59, ENUM = 0x5D,
  NNRST = 0x5E, CMDERR = 0x6F, EVNLF = 0x70, NVRD = 0x71, NENRD = 0x72, RQNPN = 0x73, NUMEV = 0x74, CANID = 0x75,
  MODE = 0x76, RQSD = 0x78, RDGN = 0x87, NVSETRD = 0x8E, ACON = 0x90, ACOF = 0x91, AREQ = 0x92, ARON = 0x93,
  AROF = 0x94, EVULN = 0x95, NVSET = 0x96, NVANS = 0x97, ASON = 0x98, ASOF = 0x99, ASRQ = 0x9A, PARAN = 0x9B,
  REVAL = 0x9C, ARSON = 0x9D, ARSOF = 0x9E, HEARTB = 0xAB, SD = 0xAC, GRSP = 0xAF, ACON1 = 0xB0, ACOF1 = 0xB1,
  REQEV = 0xB2, ARON1 = 0xB3, AROF1 = 0xB4, NEVAL = 0xB5, PNN = 0xB6, ASON1 = 0xB8, ASOF1 = 0xB9, ARSON1 = 0xBD,
  ARSOF1 = 0xBE, DGN = 0xC7, ACON2 = 0xD0, ACOF2 = 0xD1, EVLRN = 0xD2, EVANS = 0xD3, ARON2 = 0xD4, AROF2 = 0xD5,
  ASON2 = 0xD8, ASOF2 = 0xD9, ARSON2 = 0xDD, ARSOF2 = 0xDE, NAME = 0xE2, ESD = 0xE7, DTXC = 0xE9, PARAMS = 0xEF,
  ACON3 = 0xF0, ACOF3 = 0xF1, ENRSP = 0xF2, ARON3 = 0xF3, AROF3 = 0xF4, EVLRNI = 0xF5, ASON3 = 0xF8, ASOF3 = 0xF9,
  ARSON3 = 0xFD, ARSOF3 = 0xFE
};
enum : uint8_t { E_INV_CMD = 1, E_NOT_LRN = 2, E_TOO_MANY = 4, E_INV_EV_IDX = 6, E_INVALID_EVENT = 7, E_INV_EN_IDX = 8,
  E_INV_PARAM = 9, E_INV_NV = 10, G_OK = 0, G_INV_DIAG = 253, G_INV_SVC = 252, G_INV_MODE = 250 };
enum : uint8_t { S_HIDDEN = 0, S_MNS = 1, S_NV = 2, S_CAN = 3, S_TEACH = 4, S_PROD = 5, S_CONS = 6, S_COE = 8, S_LONG = 17 };
enum : uint8_t { M_SETUP = 0, M_NORMAL = 1, M_UNINIT = 0xFF, M_LEARN_ON = 8, M_LEARN_OFF = 9, M_HB_ON = 12, M_HB_OFF = 13 };
enum : uint8_t { F_CONS = 1, F_PROD = 2, F_NORMAL = 4, F_COE = 16, F_LRN = 32, F_VLCB = 64 };
}

struct Msg
{
  uint8_t len;
  uint8_t d[8];
  bool operator==(const Msg &o) const { return len == o.len && !memcmp(d, o.d, len > 8 ? 8 : len); }
};
inline Msg M(std::initializer_list<int> l)
{
  Msg m; memset(&m, 0, sizeof m);
  for (int v : l) m.d[m.len++] = (uint8_t)v;
  return m;
}
inline std::string str(const Msg &m)
{
  char b[64]; int k = snprintf(b, sizeof b, "[%d:", m.len);
  for (int i = 0; i < m.len && i < 8; ++i) k += snprintf(b + k, sizeof b - k, " %02X", m.d[i]);
  snprintf(b + k, sizeof b - k, "]");
  return b;
}

struct Callback { uint8_t kind; uint8_t index; Msg m; }; // kind 1 = event, 2 = request
inline bool operator==(const Callback &a, const Callback &b) { return a.kind == b.kind && a.index == b.index && a.m == b.m; }
inline std::string str(const Callback &c) { return std::string(c.kind == 1 ? "event(" : "request(") + std::to_string(c.index) + ")" + str(c.m); }

struct NodeCfg
{
  int maxEvents = 3, numEvs = 2, numNvs = 2, produced = 0;
  bool coe = false, eventHandler = true, requestHandler = true;
  bool mns = true, can = true, nv = true, teach = true, cons = true, prod = true;
  int longm = 0;   // 1 basic, 2 extended long message service
  int perm = 0;    // order of construction of the services
  bool ui = false; // LED and button interface
  bool sui = false; // serial command interface
  int hidden = 1;  // number of services without id
  int vary = 15;   // settings that differ between base states: 1 event acknowledge, 2 heartbeat, 4 reset flag, 8 global configuration object
  bool diag = true;
  unsigned nvStart = 10; unsigned evStart = 0;
  unsigned need() const { unsigned e = effEvStart() + maxEvents * (4 + numEvs), v = nvStart + numNvs; return (e > v ? e : v) + 8; } // storage size
  unsigned effEvStart() const { return evStart ? evStart : nvStart + numNvs; }
};

// order number p of n items: 0 as is, 1 reversed, then rotations, then reversed rotations
template <class T> void permute(T *a, int n, int p)
{
  T t[16]; int rot = p / 2 % n;
  for (int i = 0; i < n; ++i) t[i] = a[(i + rot) % n];
  for (int i = 0; i < n; ++i) a[i] = p & 1 ? t[n - 1 - i] : t[i];
}
struct Slot { bool used; uint16_t nn, en; };

struct RefNode
{
  NodeCfg c;
  uint8_t mode = P::M_UNINIT, pmode = P::M_UNINIT;
  uint16_t nn = 0;
  uint8_t canid = 0;
  bool heartbeat = false, eventAck = false, resetFlag = false, learn = false, provision = false;
  // CAN id enumeration
  bool enumActive = false, enumFrom = false; unsigned long enumT0 = 0; uint8_t enumSeen[16];
  // heartbeat timing
  bool hbModel = false; int hbRun = -1; unsigned long lastHb = 0; uint8_t hbSeq = 0; // hbRun: set by the application until the next restart
  int rtrOut = 0, emptyOut = 0; // remote / empty frames due in this step
  unsigned long now = 0;
  std::vector<Slot> slots;
  std::vector<uint8_t> ev;       // raw EV memory per slot (kept across unlearn)
  std::vector<uint8_t> nv;
  uint8_t params[21];
  char name[8] = "       ";
  uint16_t dProduced = 0, dConsumed = 0, dTaught = 0, dNN = 0;
  // results of the current step
  std::vector<Msg> out;
  std::vector<Callback> cb;
  bool restartAsked = false, resetDone = false;

  void init(const NodeCfg &cfg)
  {
    c = cfg;
    slots.assign(c.maxEvents, Slot{false, 0xFFFF, 0xFFFF});
    ev.assign((size_t)c.maxEvents * c.numEvs, 0xFF);
    nv.assign(c.numNvs, 0);
  }
  uint8_t flags() const
  {
    uint8_t f = 0;
    if (c.mns) f |= P::F_VLCB;
    if (c.prod) f |= P::F_PROD;
    if (c.cons) f |= P::F_CONS;
    if (c.coe) f |= P::F_COE;
    if (mode == P::M_NORMAL) f |= P::F_NORMAL;
    if (learn) f |= P::F_LRN;
    return f;
  }
  // ---- output helpers
  void put(std::initializer_list<int> l) { out.push_back(M(l)); }
  void own(int opc, std::initializer_list<int> l = {})
  {
    Msg m = M({opc, nn >> 8, nn & 255});
    for (int v : l) m.d[m.len++] = (uint8_t)v;
    out.push_back(m);
  }
  void grsp(int opc, int svc, int code) { own(P::GRSP, {opc, svc, code}); }
  void cmderr(int e) { own(P::CMDERR, {e}); }
  void wrack() { own(P::WRACK); }
  // ---- table helpers
  uint8_t &evAt(int i, int n) { return ev[(size_t)i * c.numEvs + n - 1]; }
  int find(uint16_t n, uint16_t e) const { for (size_t i = 0; i < slots.size(); ++i) if (slots[i].used && slots[i].nn == n && slots[i].en == e) return i; return -1; }
  int findFree() const { for (size_t i = 0; i < slots.size(); ++i) if (!slots[i].used) return i; return -1; }
  int findEv1(uint8_t v) { for (size_t i = 0; i < slots.size(); ++i) if (slots[i].used && evAt(i, 1) == v) return i; return -1; }
  int count() const { int k = 0; for (auto &s : slots) k += s.used; return k; }
  void setId(int i, uint16_t n, uint16_t e) { slots[i].nn = n; slots[i].en = e; slots[i].used = !(n == 0xFFFF && e == 0xFFFF); }
  void clearSlot(int i) { slots[i] = Slot{false, 0xFFFF, 0xFFFF}; }

  // ---- a message from the bus
  void receive(const Msg &in)
  {
    Msg m = in; for (int i = m.len; i < 8; ++i) m.d[i] = 0;
    int opc = m.d[0]; uint16_t n = m.d[1] << 8 | m.d[2]; uint16_t e = m.d[3] << 8 | m.d[4];
    bool me = n == nn; // node number addressed
    if (c.mns) mns(m, opc, n, me);
    if (c.can) can(m, opc, me);
    if (c.nv) nvs(m, opc, me);
    if (c.teach) teach(m, opc, n, e, me);
    if (c.cons) consume(in, m, opc, n, e);
    provisionIfDue();
    if (c.prod) request(in, m, opc, n, e);
  }
  void provisionIfDue()
  {
    if (c.prod && provision && pmode == P::M_NORMAL) { provision = false; for (int i = 1; i <= c.produced; ++i) createDefault(i); }
  }
  // ---- enumeration
  void startEnum(bool from)
  {
    if (!c.can || enumActive) return;
    enumActive = true; enumFrom = from; enumT0 = now; memset(enumSeen, 0, sizeof enumSeen); ++rtrOut;
  }
  void tick(unsigned long t)
  {
    now = t;
    if (enumActive && now - enumT0 >= 100)
    {
      enumActive = false;
      int id = 1; while (id < 128 && (enumSeen[id / 8] >> (id % 8) & 1)) ++id;
      canid = id > 127 ? 1 : id;
      if (enumFrom) own(P::NNACK);
    }
    heartbeatTick();
  }
  void heartbeatTick()
  {
    if (hbModel && c.mns && pmode == P::M_NORMAL && mode != P::M_SETUP && (hbRun >= 0 ? hbRun : heartbeat) && now - lastHb > 5000)
    { own(P::HEARTB, {hbSeq, 0, 0}); ++hbSeq; lastHb = now; }
  }
  // a frame from the bus; returns without effect for the kinds that are not messages
  void frame(uint32_t id, bool ext, bool rtr, const Msg &m)
  {
    if (ext) return;
    if (rtr) { ++emptyOut; return; }
    int rid = id & 0x7F;
    bool clash = rid == canid && m.len > 0;
    if (enumActive && m.len == 0) { if (rid) enumSeen[rid / 8] |= 1 << (rid % 8); return; }
    if (clash) startEnum(false);
    receive(m);
  }
  // power cycle
  void restart()
  {
    if (resetDone)
    {
      resetDone = false; pmode = P::M_UNINIT; nn = 0; canid = 0; heartbeat = eventAck = false; resetFlag = true;
      for (size_t i = 0; i < slots.size(); ++i) clearSlot(i);
      ev.assign(ev.size(), 0xFF); nv.assign(nv.size(), 0);
    }
    mode = pmode; learn = false; enumActive = false; restartAsked = false; dProduced = dConsumed = dTaught = dNN = 0; hbSeq = 0; lastHb = 0; hbRun = -1;
    provision = c.prod && pmode == P::M_UNINIT;
  }
  void setUninit()
  {
    if (nn != 0 && mode == P::M_NORMAL) own(P::NNREL);
    mode = pmode = P::M_UNINIT; nn = 0; canid = 0;
  }
  void enterSetup() { mode = P::M_SETUP; own(P::RQNN); }
  void actChangeMode()
  {
    if (mode == P::M_UNINIT) { startEnum(false); enterSetup(); }
    else setUninit();
  }
  void actRenegotiate()
  {
    if (mode == P::M_SETUP) { mode = pmode; if (nn != 0) own(P::NNACK); }
    else if (mode == P::M_NORMAL) enterSetup();
  }
  void mns(const Msg &m, int opc, uint16_t n, bool me)
  {
    switch (opc)
    {
    case P::RQNP:
      if (mode == P::M_SETUP) put({P::PARAMS, params[1], params[2], params[3], params[4], params[5], params[6], params[7]});
      break;
    case P::RQNPN:
      if (!me) break;
      if (m.len < 4) grsp(opc, P::S_MNS, P::E_INV_CMD);
      else if (m.d[3] == 0) for (int i = 0; i <= params[0]; ++i) own(P::PARAN, {i, par(i)});
      else if (m.d[3] <= params[0]) own(P::PARAN, {m.d[3], par(m.d[3])});
      else { cmderr(P::E_INV_PARAM); grsp(opc, P::S_MNS, P::E_INV_PARAM); }
      break;
    case P::SNN:
      if (mode != P::M_SETUP) break;
      if (m.len < 3) grsp(opc, P::S_MNS, P::E_INV_CMD);
      else { mode = pmode = P::M_NORMAL; nn = n; own(P::NNACK); ++dNN; }
      break;
    case P::RQNN:
      if (mode == P::M_SETUP) mode = pmode;
      break;
    case P::QNN:
      if (nn > 0) own(P::PNN, {params[1], params[3], flags()});
      break;
    case P::RQMN:
      if (mode == P::M_SETUP || learn) { Msg r = M({P::NAME}); memcpy(r.d + 1, name, 7); r.len = 8; out.push_back(r); }
      break;
    case P::RQSD: if (me) serviceDiscovery(m); break;
    case P::MODE:
      if (!me) break;
      if (m.len < 4) { grsp(opc, P::S_MNS, P::E_INV_CMD); break; }
      switch (m.d[3])
      {
      case P::M_UNINIT: if (mode != P::M_UNINIT) { grsp(opc, P::S_MNS, P::G_OK); setUninit(); } break;
      case P::M_SETUP:
        if (mode == P::M_NORMAL) { grsp(opc, P::S_MNS, P::G_OK); enterSetup(); }
        else if (mode == P::M_SETUP) grsp(opc, P::S_MNS, P::G_INV_MODE);
        break;
      case P::M_NORMAL:
        if (mode == P::M_NORMAL) grsp(opc, P::S_MNS, P::G_OK);
        else if (mode == P::M_SETUP) grsp(opc, P::S_MNS, P::G_INV_MODE);
        break;
      case P::M_HB_ON: heartbeat = true; hbRun = -1; break;
      case P::M_HB_OFF: heartbeat = false; hbRun = -1; break;
      default: if (mode != P::M_NORMAL) grsp(opc, P::S_MNS, P::E_INV_CMD); break;
      }
      break;
    case P::NNRSM: if (me) { own(P::NNREL); factoryReset(); restartAsked = true; } break;
    case P::NNRST: if (me) restartAsked = true; break;
    case P::RDGN: if (c.diag && me) diagnostics(m); break;
    }
  }
  uint8_t par(int i) { return i == 8 ? flags() : params[i]; }
  void factoryReset()
  {
    resetDone = true;
    // effective after the restart
  }
  struct Svc { uint8_t id, ver; };
  std::vector<Svc> services; // in order of construction, id 0 = hidden
  void serviceDiscovery(const Msg &m)
  {
    if (m.len < 4) { grsp(P::RQSD, P::S_MNS, P::E_INV_CMD); return; }
    int ix = m.d[3];
    if (ix == 0)
    {
      int k = 0; for (auto &s : services) k += s.id > 0;
      own(P::SD, {0, 0, k});
      for (size_t i = 0; i < services.size(); ++i) if (services[i].id) own(P::SD, {(int)i + 1, services[i].id, services[i].ver});
    }
    else if ((size_t)ix <= services.size() && services[ix - 1].id) own(P::ESD, {ix, services[ix - 1].id, 0, 0, 0});
    else grsp(P::RQSD, P::S_MNS, P::G_INV_SVC);
  }
  // diagnostics are modelled by the check that needs them
  void (*diagHook)(RefNode &, const Msg &) = nullptr;
  void diagnostics(const Msg &m) { if (diagHook) diagHook(*this, m); }
  void can(const Msg &m, int opc, bool me)
  {
    if (opc == P::CANID && me)
    {
      int id = m.d[3];
      if (id < 1 || id > 99) { cmderr(P::E_INV_EN_IDX); grsp(opc, P::S_CAN, P::E_INV_EN_IDX); }
      else { canid = id; wrack(); grsp(opc, P::S_CAN, P::G_OK); }
    }
    if (opc == P::ENUM && me) startEnum(true);
  }
  void nvs(const Msg &m, int opc, bool me)
  {
    if (!me || (opc != P::NVRD && opc != P::NVSET && opc != P::NVSETRD)) return;
    if (m.len < (opc == P::NVRD ? 4 : 5)) { grsp(opc, P::S_NV, P::E_INV_CMD); return; }
    int ix = m.d[3];
    bool bad = ix > c.numNvs || (ix == 0 && opc != P::NVRD);
    if (bad) { grsp(opc, P::S_NV, P::E_INV_NV); cmderr(P::E_INV_NV); return; }
    if (opc == P::NVRD && ix == 0) { own(P::NVANS, {0, c.numNvs}); for (int i = 1; i <= c.numNvs; ++i) own(P::NVANS, {i, nv[i - 1]}); return; }
    if (opc == P::NVRD) { own(P::NVANS, {ix, nv[ix - 1]}); return; }
    nv[ix - 1] = m.d[4];
    if (opc == P::NVSET) wrack(); else own(P::NVANS, {ix, nv[ix - 1]});
  }
  void ok(int opc) { wrack(); grsp(opc, P::S_TEACH, P::G_OK); }
  void err(int opc, int e) { cmderr(e); grsp(opc, P::S_TEACH, e); }
  void enrsp(int i) { own(P::ENRSP, {slots[i].nn >> 8, slots[i].nn & 255, slots[i].en >> 8, slots[i].en & 255, i}); }
  void teach(const Msg &m, int opc, uint16_t n, uint16_t e, bool me)
  {
    int max = c.maxEvents;
    switch (opc)
    {
    case P::MODE:
      if (me && m.len >= 4 && m.d[3] == P::M_LEARN_ON) learn = true;
      if (me && m.len >= 4 && m.d[3] == P::M_LEARN_OFF) learn = false;
      break;
    case P::NNLRN: learn = me; break;
    case P::NNULN: if (me) learn = false; break;
    case P::RQEVN: if (me) own(P::NUMEV, {count()}); break;
    case P::NNEVN: if (me) own(P::EVNLF, {max - count()}); break;
    case P::NERD: if (me) for (int i = 0; i < max; ++i) if (slots[i].used) enrsp(i); break;
    case P::NENRD:
      if (!me) break;
      if (m.d[3] < max && slots[m.d[3]].used) enrsp(m.d[3]); else err(opc, P::E_INV_EN_IDX);
      break;
    case P::REVAL:
      if (!me) break;
      if (m.len < 5) { grsp(opc, P::S_TEACH, P::E_INV_CMD); break; }
      if (m.d[3] >= max || !slots[m.d[3]].used) { err(opc, P::E_INV_EN_IDX); break; }
      if (m.d[4] > c.numEvs) { err(opc, P::E_INV_EV_IDX); break; }
      if (m.d[4]) own(P::NEVAL, {m.d[3], m.d[4], evAt(m.d[3], m.d[4])});
      else { own(P::NEVAL, {m.d[3], 0, c.numEvs}); for (int i = 1; i <= c.numEvs; ++i) own(P::NEVAL, {m.d[3], i, evAt(m.d[3], i)}); }
      break;
    case P::NNCLR:
      if (!me) break;
      if (!learn) { err(opc, P::E_NOT_LRN); break; }
      for (int i = 0; i < max; ++i) clearSlot(i);
      if (c.prod) resetFlag = true;
      ok(opc);
      break;
    case P::EVULN:
      if (!learn) break;
      if (m.len < 5) grsp(opc, P::S_TEACH, P::E_INV_CMD);
      else { int i = find(n, e); if (i < 0) err(opc, P::E_INVALID_EVENT); else { clearSlot(i); ok(opc); } }
      break;
    case P::EVLRN:
    {
      if (!learn) break;
      if (m.len < 7) { grsp(opc, P::S_TEACH, P::E_INV_CMD); break; }
      int evn = m.d[5], evv = m.d[6];
      if (evn == 0 || evn > c.numEvs) { err(opc, P::E_INV_EV_IDX); break; }
      int i;
      if (evn == 1 && evv > 0 && (i = findEv1(evv)) >= 0) { setId(i, n, e); ok(opc); ++dTaught; break; }
      i = find(n, e);
      if (i < 0) i = findFree();
      if (i < 0) { err(opc, P::E_TOO_MANY); break; }
      setId(i, n, e); evAt(i, evn) = evv; ok(opc); ++dTaught;
      break;
    }
    case P::EVLRNI:
    {
      if (!learn) break;
      if (m.len < 8) { grsp(opc, P::S_TEACH, P::E_INV_CMD); break; }
      int i = m.d[5], evn = m.d[6];
      if (i >= max) { grsp(opc, P::S_TEACH, P::E_INV_EN_IDX); break; }
      if (evn == 0 || evn > c.numEvs) { err(opc, P::E_INV_EV_IDX); break; }
      setId(i, n, e); evAt(i, evn) = m.d[7]; ok(opc); ++dTaught;
      break;
    }
    case P::REQEV:
    {
      if (!learn) break;
      if (m.len < 6) { grsp(opc, P::S_TEACH, P::E_INV_CMD); break; }
      int i = find(n, e);
      if (i < 0) { err(opc, P::E_INVALID_EVENT); break; }
      if (m.d[5] > c.numEvs) { err(opc, P::E_INV_EV_IDX); break; }
      auto ans = [&](int k, int v) { put({P::EVANS, m.d[1], m.d[2], m.d[3], m.d[4], k, v}); };
      if (m.d[5]) ans(m.d[5], evAt(i, m.d[5]));
      else { ans(0, c.numEvs); for (int k = 1; k <= c.numEvs; ++k) ans(k, evAt(i, k)); }
      break;
    }
    }
  }
  static int eventForm(int opc) // 0 none, 1 long, 2 short
  {
    switch (opc)
    {
    case P::ACON: case P::ACOF: case P::ACON1: case P::ACOF1: case P::ACON2: case P::ACOF2: case P::ACON3: case P::ACOF3:
    case P::ARON: case P::AROF: return 1;
    case P::ASON: case P::ASOF: case P::ASON1: case P::ASOF1: case P::ASON2: case P::ASOF2: case P::ASON3: case P::ASOF3: return 2;
    }
    return 0;
  }
  void consume(const Msg &in, const Msg &m, int opc, uint16_t n, uint16_t e)
  {
    int f = eventForm(opc);
    if (!f || !c.eventHandler) return;
    int i = find(f == 2 ? 0 : n, e);
    if (i >= 0) { cb.push_back(Callback{1, (uint8_t)i, in}); ++dConsumed; }
  }
  void request(const Msg &in, const Msg &m, int opc, uint16_t n, uint16_t e)
  {
    if (!c.requestHandler) return;
    if (opc == P::ASRQ) { if (n != nn && n != 0) return; n = 0; }
    else if (opc != P::AREQ) return;
    int i = find(n, e);
    if (i >= 0 && evAt(i, 1) != 0) cb.push_back(Callback{2, (uint8_t)i, in});
  }
  // ---- application calls
  // returns index or -1 if the table is full
  int createDefault(uint8_t evv)
  {
    int i = findFree(); if (i < 0) return -1;
    int en = 1; while (find(nn, en) >= 0) ++en;
    setId(i, nn, en); evAt(i, 1) = evv;
    for (int k = 2; k <= c.numEvs; ++k) evAt(i, k) = 0;
    return i;
  }
  // data: number of data bytes 0..3
  void produce(bool on, uint8_t evv, int nd, const uint8_t *data)
  {
    int i = findEv1(evv);
    if (i < 0) i = createDefault(evv);
    if (i < 0) return;
    emit(slots[i], on, nd, data, false);
    ++dProduced;
  }
  void respond(bool on, int i, int nd, const uint8_t *data) { emit(slots[i], on, nd, data, true); }
  void emit(const Slot &s, bool on, int nd, const uint8_t *data, bool resp)
  {
    static const uint8_t L[2][4] = {{P::ACON, P::ACON1, P::ACON2, P::ACON3}, {P::ACOF, P::ACOF1, P::ACOF2, P::ACOF3}};
    static const uint8_t Sh[2][4] = {{P::ASON, P::ASON1, P::ASON2, P::ASON3}, {P::ASOF, P::ASOF1, P::ASOF2, P::ASOF3}};
    static const uint8_t RL[2][4] = {{P::ARON, P::ARON1, P::ARON2, P::ARON3}, {P::AROF, P::AROF1, P::AROF2, P::AROF3}};
    static const uint8_t RS[2][4] = {{P::ARSON, P::ARSON1, P::ARSON2, P::ARSON3}, {P::ARSOF, P::ARSOF1, P::ARSOF2, P::ARSOF3}};
    bool sh = s.nn == 0;
    uint8_t opc = (resp ? (sh ? RS : RL) : (sh ? Sh : L))[!on][nd];
    uint16_t n = sh ? nn : s.nn;
    Msg m = M({opc, n >> 8, n & 255, s.en >> 8, s.en & 255});
    for (int i = 0; i < nd; ++i) m.d[m.len++] = data[i];
    out.push_back(m);
    if (c.coe && c.cons && !resp) { Msg z = m; consume(m, z, opc, n, s.en); }
    else if (c.coe && c.cons) { Msg z = m; consume(m, z, opc, n, s.en); }
  }
};
