// C27: the serial command interface acts exactly as documented.
#include "world.h"
#include "alpha.h"
#include <sys/mman.h>
#include <ctype.h>
static NodeWorld *w; static RefNode *r;
enum { FL = CMP_ID | CMP_TABLE };
// text written since the last clear, kept outside the explored image (it is judged within one step)
enum { TEXT = 1 << 22 };
static char *text; static unsigned *textLen;
static void sink(const char *s, int port) { if (port == 0) while (*s && *textLen < TEXT - 1) text[(*textLen)++] = *s++; text[*textLen] = 0; }
static void clearText() { *textLen = 0; text[0] = 0; if (w) w->spy->nMode = 0; }
static bool has(const char *s) { return strstr(text, s) != nullptr; }
// the numbers in the text: decimal or 0x.., not part of a word
struct Numbers // outside the explored image too
{
  uint32_t *v; size_t n = 0;
  Numbers() { v = (uint32_t *)(text + TEXT + 4096); }
  Numbers(uint32_t *p) : v(p) {}
  void push_back(unsigned long x) { if (n < 1 << 20) v[n++] = x; }
};
static Numbers numbers()
{
  Numbers v((uint32_t *)(text + TEXT + 4096 + (1 << 22)));
  for (const char *p = text; *p;)
  {
    if (isdigit((unsigned char)*p) && (p == text || !isalnum((unsigned char)p[-1]))) { char *e; v.push_back(strtoul(p, &e, p[0] == '0' && p[1] == 'x' ? 16 : 10)); p = e; while (isalnum((unsigned char)*p)) ++p; }
    else ++p;
  }
  return v;
}
static void expectNumbers(const char *what, const Numbers &want)
{
  Numbers v = numbers(); mc::countCheck();
  size_t i = 0; while (i < v.n && i < want.n && v.v[i] == want.v[i]) ++i;
  if (i == v.n && i == want.n) return;
  mc::fail("%s: %zu numbers, expected %zu; number %zu is %ld, expected %ld; text: %.300s", what, v.n, want.n, i + 1, i < v.n ? (long)v.v[i] : -1L, i < want.n ? (long)want.v[i] : -1L, text);
}
static const char *modeName(int m) { return m == P::M_NORMAL ? "Normal" : m == P::M_SETUP ? "Setup" : "Uninitialised"; }
static const char *modeCaps(int m) { return m == P::M_NORMAL ? "NORMAL" : m == P::M_SETUP ? "SETUP" : "UNINITIALISED"; }
static void judgeAnnouncement(const char *what)
{
  static const int M[3] = {P::M_NORMAL, P::M_SETUP, P::M_UNINIT};
  for (int i = 0; i < 3; ++i)
  {
    bool said = has((std::string("Module in ") + modeCaps(M[i]) + " mode").c_str());
    bool due = w->spy->nMode && (uint8_t)w->spy->lastMode == M[i];
    if (said != due && (due || !w->spy->nMode)) mc::fail("%s: mode %s %s; text: %.200s", what, modeCaps(M[i]), due ? "not announced" : "announced", text);
  }
}
static uint8_t before[70000];
static void settle() { for (int i = 0; i < 400 && hw::serPending(); ++i) { w->ctl->process(); mc::countCheck(); } if (hw::serPending()) mc::fail("typed characters are not read"); w->settle(); }
static void judgeText(char c)
{
  std::string what = std::string("after '") + (c >= 32 && c < 127 ? std::string(1, c) : "\\x" + std::to_string((unsigned char)c)) + "'";
  bool known = c && strchr("nevchmy*s\r\n", c);
  if (has("unknown command") == known) mc::fail("%s: answered%s as unknown", what.c_str(), known ? "" : " not");
  Numbers n;
  switch (c)
  {
  case 'n':
    for (unsigned long x : std::initializer_list<unsigned long>{w->cfg->CANID, w->cfg->nodeNum}) n.push_back(x); expectNumbers(what.c_str(), n);
    if (r->mode == r->pmode && !has(modeName(r->mode))) mc::fail("%s: mode %s is not shown: %.200s", what.c_str(), modeName(r->mode), text);
    if (r->mode != r->pmode && !has(modeName(r->mode)) && !has(modeName(r->pmode))) mc::fail("%s: mode %s is not shown: %.200s", what.c_str(), modeName(r->mode), text);
    for (int m : {(int)P::M_NORMAL, (int)P::M_SETUP, (int)P::M_UNINIT}) if (m != r->mode && m != r->pmode && has(modeName(m))) mc::fail("%s: mode %s is shown in mode %d", what.c_str(), modeName(m), r->mode);
    break;
  case 'e':
  {
    const NodeCfg &k = r->c; int used = 0; for (auto &s : r->slots) used += s.used;
    for (unsigned x : {(unsigned)k.maxEvents, (unsigned)k.numEvs, (unsigned)k.numEvs + 4, (unsigned)used, (unsigned)(k.maxEvents - used), (unsigned)(used * (k.numEvs + 4)), (unsigned)(k.maxEvents * (k.numEvs + 4))}) n.push_back(x);
    for (int i = 0; i < k.maxEvents; ++i) if (r->slots[i].used)
    {
      n.push_back(i); n.push_back(r->slots[i].nn >> 8); n.push_back(r->slots[i].nn & 255); n.push_back(r->slots[i].en >> 8); n.push_back(r->slots[i].en & 255);
      for (int q = 0; q < k.numEvs; ++q) n.push_back(w->cfg->getEventEVval(i, q + 1));
      n.push_back(w->cfg->getEvTableEntry(i));
    }
    expectNumbers(what.c_str(), n);
    break;
  }
  case 'v':
    for (int i = 1; i <= r->c.numNvs; ++i) { n.push_back(i); n.push_back(r->nv[i - 1]); n.push_back(r->nv[i - 1]); }
    expectNumbers(what.c_str(), n);
    break;
  case 'c': for (unsigned long x : std::initializer_list<unsigned long>{w->can->rx, w->can->tx, w->can->rxe, w->can->txe, w->can->es}) n.push_back(x); expectNumbers(what.c_str(), n); break;
  case 'm': for (unsigned long x : std::initializer_list<unsigned long>{1000}) n.push_back(x); expectNumbers(what.c_str(), n); break;
  }
  mc::countCheck();
}
// characters typed in one go
static void type(const std::string &s)
{
  clearStep(*w, *r); clearText();
  memcpy(before, w->st->mem, w->st->size);
  int resets = w->can->resets, restarts = hw::restarts; bool mode = false; int wantResets = 0, wantRestarts = 0;
  for (char c : s)
  {
    hw::serPut(c);
    if (c == 's') { r->actChangeMode(); mode = true; }
    wantResets += c == 'y'; wantRestarts += c == '*';
  }
  settle();
  std::string what = "after typing"; for (char c : s) { char b[8]; snprintf(b, sizeof b, " %02x", (unsigned char)c); what += b; }
  if (w->can->resets - resets != wantResets) mc::fail("%s: transport reset %d times", what.c_str(), w->can->resets - resets);
  if (hw::restarts - restarts != wantRestarts) mc::fail("%s: module restarted %d times", what.c_str(), hw::restarts - restarts);
  if (!mode && memcmp(before, w->st->mem, w->st->size)) mc::fail("%s: storage changed", what.c_str());
  judgeAnnouncement(what.c_str());
  stepCheck(*w, *r, what.c_str(), FL);
  if (s.size() == 1) judgeText(s[0]);
  if (wantRestarts) { clearText(); stepRestart(*w, *r, FL); judgeAnnouncement("after the restart"); }
}
static void send(const Msg &m) { clearText(); stepMsg(*w, *r, m, FL); judgeAnnouncement(str(m).c_str()); }
static void act(int k) { clearText(); stepAction(*w, *r, k, FL); judgeAnnouncement("after an action"); }
enum { NN = 0x0203 };
static void create(const NodeCfg &c0, bool fresh)
{
  NodeCfg c = c0; c.sui = true;
  if (!text) { text = (char *)mmap(nullptr, TEXT + 4096 + (2 << 22), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); textLen = (unsigned *)(text + TEXT); }
  w = nullptr; clearText(); hw::serSink = sink; hw::now = 1000; hw::restarts = 0; g_ncb = 0;
  w = mc::make<NodeWorld>(); r = new RefNode;
  if (fresh) bootFactory(*w, *r, c); else bootNormal(*w, *r, c, NN);
}
// 0 normal with events, 1 uninitialised, 2 in setup, 3 renegotiating, 4 learning
static void state(int k)
{
  NodeCfg c; c.maxEvents = 3; c.numEvs = 2; c.numNvs = 2; c.produced = 1; c.diag = k & 1;
  create(c, k == 1 || k == 2);
  if (k == 2) act(0);
  if (k == 0 || k == 3 || k == 4)
  {
    send(M({P::NVSET, NN >> 8, NN & 255, 1, 200})); send(M({P::NNLRN, NN >> 8, NN & 255})); send(M({P::EVLRN, 1, 2, 3, 4, 1, 99}));
    if (k != 4) send(M({P::NNULN, NN >> 8, NN & 255}));
  }
  if (k == 3) act(1);
}
static const char *stName[] = {"normal", "uninitialised", "setup", "renegotiating", "learning"};
static void probe()
{
  send(M({P::QNN}));
  send(M({P::ACON, 1, 2, 3, 4}));
  if (r->mode == P::M_NORMAL) send(M({P::NVRD, r->nn >> 8, r->nn & 255, 1}));
}
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  {
    auto *l = new OpList;
    l->add(256, [](uint64_t k) { type(std::string(1, (char)k)); probe(); type("n"); }, [](uint64_t k) { return "type character " + std::to_string(k); });
    sc.push_back(scen("every character", 1, l, 10, [](int k) { state(k % 5); if (k > 4) w->can->rx = w->can->tx = w->can->rxe = w->can->txe = w->can->es = 0; }, [](int k) { return std::string(stName[k % 5]) + (k > 4 ? ", counters zero" : ""); }));
  }
  {
    auto *l = new OpList; static const char cs[] = "nevchmy*s\r\nxr";
    l->add((sizeof cs - 1) * (sizeof cs - 1), [](uint64_t k) { char a = cs[k / (sizeof cs - 1)], b = cs[k % (sizeof cs - 1)]; if (a == '*' ) { type("*"); type(std::string(1, b)); } else type(std::string(1, a) + b); probe(); }, [](uint64_t k) { return std::string("type ") + std::to_string(cs[k / (sizeof cs - 1)]) + " and at once " + std::to_string(cs[k % (sizeof cs - 1)]); });
    sc.push_back(scen("two at once", 2, l, 5, [](int k) { state(k); }, [](int k) { return std::string(stName[k]); }));
    if (mc::tier() == mc::QUICK) sc.back().depth = 1;
  }
  {
    auto *l = new OpList;
    for (char c : std::string("nevchmy*s\rx")) l->add(1, [c](uint64_t) { type(std::string(1, c)); }, [c](uint64_t) { return "type " + std::to_string(c); });
    l->msgs({M({P::ACON, 1, 2, 3, 4}), M({P::EVULN, 1, 2, 3, 4}), M({P::EVLRN, 5, 6, 7, 8, 2, 9}), M({P::NNLRN, NN >> 8, NN & 255}), M({P::NNULN, NN >> 8, NN & 255}), M({P::SNN, NN >> 8, NN & 255}), M({P::NVSET, NN >> 8, NN & 255, 2, 66})}, send);
    l->add(1, [](uint64_t) { act(1); }, [](uint64_t) { return std::string("renegotiate"); });
    l->add(1, [](uint64_t) { clearText(); stepTime(*w, *r, 100, FL); judgeAnnouncement("after 100 ms"); }, [](uint64_t) { return std::string("100 ms pass"); });
    sc.push_back(scen("sequences", mc::pick(4, 5), l, 5, [](int k) { state(k); }, [](int k) { return std::string(stName[k]); }));
  }
  {
    static const int NV[] = {1, 2, 127, 254, 255}, ME[] = {1, 20, 127, 254, 255}, EV[] = {1, 20, 250, 251};
    auto *l = new OpList;
    for (char c : std::string("venchm")) l->add(1, [c](uint64_t) { type(std::string(1, c)); probe(); type("n"); }, [c](uint64_t) { return "type " + std::to_string(c); });
    sc.push_back(scen("sizes", 1, l, 5 * 5 * 4, [](int k) {
      NodeCfg c; c.numNvs = NV[k % 5]; c.maxEvents = ME[k / 5 % 5]; c.numEvs = EV[k / 25]; c.diag = false;
      create(c, false);
      // fill the table directly: every entry, then one removed
      for (int i = 0; i < c.maxEvents; ++i)
      {
        if (i == c.maxEvents / 2 && i) continue;
        byte d[4] = {(byte)(i / 7), (byte)(i + 1), (byte)(255 - i), (byte)(i * 3)}; w->cfg->writeEvent(i, d); w->cfg->updateEvHashEntry(i);
        r->slots[i].used = true; r->slots[i].nn = d[0] << 8 | d[1]; r->slots[i].en = d[2] << 8 | d[3];
        for (int q = 1; q <= c.numEvs; ++q) { w->cfg->writeEventEV(i, q, i + q); r->ev[i * c.numEvs + q - 1] = i + q; }
      }
      w->cfg->updateEvHashEntry(0);
      for (int i = 1; i <= c.numNvs; ++i) { w->cfg->writeNV(i, i * 37 + 1); r->nv[i - 1] = i * 37 + 1; }
    }, [](int k) { return std::to_string(NV[k % 5]) + " variables, " + std::to_string(ME[k / 5 % 5]) + " events of " + std::to_string(EV[k / 25]) + " EVs"; }));
    sc.back().use = [](int k) { return mc::tier() == mc::THOROUGH || k / 25 == 0 || k % 25 == 24; };
  }
  {
    // the numbers shown: transport counters, node number and CAN id over their ranges
    auto *l = new OpList;
    static const unsigned V[] = {0, 1, 9, 127, 128, 255, 256, 9999, 32767, 32768, 65535};
    enum { NV = 11 };
    l->add(5 * NV * NV, [](uint64_t k) {
      unsigned *f[] = {&w->can->rx, &w->can->tx, &w->can->rxe, &w->can->txe, &w->can->es};
      *f[k % 5] = V[k / 5 % NV]; *f[(k % 5 + 1) % 5] = V[k / 5 / NV]; type("c");
    }, [](uint64_t k) { return "counters " + std::to_string(k); });
    sc.push_back(scen("counters", 1, l, 1, [](int) { state(0); }, [](int) { return std::string(stName[0]); }));
    auto *l2 = new OpList;
    l2->add(1, [](uint64_t) { type("n"); type("s"); type("n"); type("s"); type("n"); clearText(); stepTime(*w, *r, 200, FL); }, [](uint64_t) { return std::string("n s n s n"); });
    static const int CI[] = {0, 1, 9, 64, 99, 127};
    sc.push_back(scen("identities", 1, l2, 6 * mc::pick(300, 1200), [](int k) {
      NodeCfg c; c.sui = true; c.maxEvents = 2; c.numEvs = 1; c.numNvs = 1;
      create(c, false);
      int n = k / 6, nn = n < 260 ? n : n < 280 ? 65535 - (n - 260) : (n - 280) * 71 + 256;
      w->cfg->setNodeNum(nn & 65535); w->cfg->setCANID(CI[k % 6]); r->nn = nn; r->canid = CI[k % 6];
    }, [](int k) { return "identity " + std::to_string(k); }));
    // any number of entries in use
    auto *l4 = new OpList;
    l4->add(256, [](uint64_t n) {
      for (unsigned i = 0; i < n; ++i)
      {
        int at = 254 - i;
        byte d[4] = {2, (byte)i, 0, 7}; w->cfg->writeEvent(at, d); r->slots[at].used = true; r->slots[at].nn = 0x200 | i; r->slots[at].en = 7;
        w->cfg->writeEventEV(at, 1, i); r->ev[at] = i; w->cfg->updateEvHashEntry(at);
      }
      type("e"); type("n"); type("c");
    }, [](uint64_t n) { return "with " + std::to_string(n) + " entries in use"; });
    sc.push_back(scen("entries in use", 1, l4, 1, [](int) { NodeCfg c; c.maxEvents = 255; c.numEvs = 1; c.numNvs = 1; create(c, false); }, [](int) { return std::string("table of 255"); }));
    // a node that never becomes idle still obeys
    auto *l3 = new OpList;
    l3->add(256 * 2, [](uint64_t k) {
      int c = k / 2, resets = w->can->resets, restarts = hw::restarts; clearStep(*w, *r); clearText();
      hw::serPut((char)c); if (c == 's') r->actChangeMode();
      for (int i = 0; i < 3; ++i) w->ctl->putAction(VLCB::ACT_INDICATE_ACTIVITY);
      for (int i = 0; i < 30; ++i) { if (k & 1) w->can->pushMsg(M({P::ACON, 9, 9, 9, 9})); else w->ctl->putAction(VLCB::ACT_INDICATE_ACTIVITY); w->process(1 + 2 * (k & 1)); }
      mc::countCheck();
      if ((w->can->resets - resets != (c == 'y')) || (hw::restarts - restarts != (c == '*'))) mc::fail("character %d typed on a busy node: %d resets, %d restarts", c, w->can->resets - resets, hw::restarts - restarts);
      if ((c == 'n' || c == 'e' || c == 'v' || c == 'c' || c == 'm' || c == '\r') && !*textLen) mc::fail("character %d typed on a busy node has no answer", c);
      w->settle(); clearText();
      g_ncb = 0; w->can->nout = 0;
      stepCheck(*w, *r, "after a command on a busy node", CMP_ID | CMP_TABLE | NO_OUT | NO_CB);
    }, [](uint64_t k) { return "type " + std::to_string(k / 2) + " while busy " + std::to_string(k & 1); });
    sc.push_back(scen("busy node", 1, l3, 5, [](int k) { state(k); }, [](int k) { return std::string(stName[k]); }));
  }
  longer(sc, "sequences", true, mc::pick(66000, 140000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C27", sc.data(), sc.size(), "explicit-state exploration of the real node with the serial interface against a reference model");
}
