// C20: every storage back-end returns what was last written, and nothing else changes.
#include "world.h"
#include "alpha.h"
#include "c20.h"
namespace medium {
uint8_t *mem, *ram; unsigned size, bad, page = 64; char what[120];
void error(const char *s, unsigned a) { if (!bad++) snprintf(what, sizeof what, "%s at %u", s, a); }
}
static Backend *b;
static uint8_t *want;   // what the medium must hold
static int g_kind;
enum { AVR, RP, EXT, EXT32, EXT2, FLASH, DUE, NKIND };
static const char *kindName[] = {"on-chip EEPROM", "emulated EEPROM (commit)", "serial EEPROM, 64-byte pages", "serial EEPROM, 32-byte pages", "serial EEPROM on another bus", "AVR-Dx flash", "Due flash"};
static const unsigned kindSize[] = {4096, 4096, 4096, 4096, 4096, 2048, 4096};
static void power() // object as after power up
{
  if (g_kind == RP) { memcpy(medium::ram, medium::mem, medium::size); }
  switch (g_kind)
  {
  case AVR: b = makeAvr(); break;
  case RP: b = makeRp(); break;
  case EXT: b = makeExt(false, 0x50); break;
  case EXT32: b = makeExt(false, 0x57); break;
  case EXT2: b = makeExt(true, 0x51); break;
  case FLASH: b = makeFlash(); break;
  case DUE: b = makeDue(); break;
  }
  b->begin();
}
// wire set-up lives in the bus model's translation unit: set through these
#include "stubs/Wire.h"
static uint8_t pat(unsigned a, int fill) { return fill == 0 ? 0xFF : fill == 1 ? 0x00 : (uint8_t)(a * 37 + a / 256 * 11 + 5); }
static void setup(int cfg)
{
  g_kind = cfg % NKIND; int fill = cfg / NKIND;
  hw::now = 1000;
  medium::size = kindSize[g_kind]; medium::bad = 0;
  medium::mem = (uint8_t *)mc::arenaAlloc(medium::size, false);
  want = (uint8_t *)mc::arenaAlloc(medium::size, false);
  medium::ram = g_kind == RP ? (uint8_t *)mc::arenaAlloc(medium::size, false) : nullptr;
  for (unsigned a = 0; a < medium::size; ++a) want[a] = medium::mem[a] = pat(a, fill);
  medium::page = g_kind == EXT32 ? 32 : 64;
  Wire.present = g_kind == EXT32 ? 0x57 : 0x50; Wire1.present = 0x51; Wire.other = g_kind == EXT2; Wire1.other = g_kind != EXT2;
  power();
}
static std::string cfgName(int c) { static const char *f[] = {"erased", "all zero", "patterned"}; return std::string(kindName[c % NKIND]) + ", " + f[c / NKIND]; }
static void checkRead(unsigned a, unsigned n)
{
  if (a >= medium::size) return;
  if (a + n > medium::size) n = medium::size - a;
  uint8_t d[256]; memset(d, 0xA7, sizeof d);
  unsigned k = b->readBytes(a, n, d);
  if (k > n || (k < n && (k < 30 || k < 1))) mc::fail("block read of %u bytes at %u returned %u", n, a, k);
  for (unsigned i = 0; i < k; ++i) if (d[i] != want[a + i]) mc::fail("block read of %u bytes at %u: byte %u is %u, expected %u", n, a, i, d[i], want[a + i]);
  for (unsigned i = n; i < 256; ++i) if (d[i] != 0xA7) mc::fail("block read of %u bytes at %u wrote byte %u of the destination", n, a, i);
}
static void judge(unsigned a, unsigned n, const char *op)
{
  mc::countCheck();
  if (medium::bad) mc::fail("%s: %s", op, medium::what);
  if (memcmp(medium::mem, want, medium::size))
    for (unsigned i = 0; i < medium::size; ++i) if (medium::mem[i] != want[i]) mc::fail("%s: medium holds %u at address %u, expected %u", op, medium::mem[i], i, want[i]);
  unsigned lo = a > 2 ? a - 2 : 0;
  for (unsigned i = lo; i < a + n + 2 && i < medium::size; ++i) { uint8_t v = b->read(i); if (v != want[i]) mc::fail("%s: read of address %u gives %u, expected %u", op, i, v, want[i]); }
  checkRead(a, n ? n : 4); checkRead(lo, 8); checkRead(a, 4);
  if (medium::bad) mc::fail("%s: %s", op, medium::what);
}
static void wr(unsigned a, uint8_t v)
{
  if (a >= medium::size) return;
  b->write(a, v); want[a] = v;
  char s[60]; snprintf(s, sizeof s, "after writing %u at %u", v, a); judge(a, 1, s);
}
static void wrb(unsigned a, unsigned n, int seed)
{
  if (a >= medium::size || a + n > medium::size) return;
  uint8_t d[260]; for (int i = 0; i < 260; ++i) d[i] = (uint8_t)(seed == 0 ? i * 7 + 1 : seed == 1 ? 0xFF - i : 0);
  b->writeBytes(a, d, n);
  for (unsigned i = 0; i < n; ++i) want[a + i] = d[i];
  char s[60]; snprintf(s, sizeof s, "after writing a block of %u at %u", n, a); judge(a, n, s);
}
static void reset()
{
  uint8_t id[10]; memcpy(id, want, 10);
  b->reset();
  memset(want, 0xFF, medium::size);
  if (g_kind != FLASH) memcpy(want, id, 10);              // the node's identity is not part of the area cleared
  else if (!memcmp(medium::mem, id, 10)) memcpy(want, id, 10);
  judge(0, 12, "after a reset"); judge(medium::size - 4, 4, "after a reset");
}
static void restart() { power(); judge(0, 16, "after a restart"); }
// a complete node on this medium
struct MediumStorage : FakeStorage
{
  MediumStorage() : FakeStorage(1) {}
  void begin() override { b->begin(); }
  uint8_t read(unsigned a) override { return b->read(a); }
  void write(unsigned a, uint8_t v) override { b->write(a, v); }
  uint8_t readBytes(unsigned a, uint8_t n, uint8_t *d) override { return b->readBytes(a, n, d); }
  void writeBytes(unsigned a, const uint8_t *s, uint8_t n) override { b->writeBytes(a, s, n); }
  void reset() override { b->reset(); }
};
static NodeWorld *w; static RefNode *r;
static const int FL = NO_OUT | NO_CB | CMP_TABLE | CMP_ID;
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  const bool thorough = mc::tier() == mc::THOROUGH;
  {
    static OpList *l = new OpList;
    static const int lens[] = {0, 1, 2, 4, 14, 15, 16, 17, 29, 30, 31, 32, 33, 48, 62, 63, 64, 65, 127, 128, 129, 255};
    l->add(4096 * 4, [](uint64_t k) { static const uint8_t v[] = {0, 1, 0x80, 0xFF}; wr(k >> 2, v[k & 3]); }, [](uint64_t k) { return "write " + std::to_string(k >> 2) + " #" + std::to_string(k & 3); });
    l->add(256 * 5, [](uint64_t k) { static const int a[] = {0, 10, 511, 512, 2047}; wr(a[k >> 8], k & 255); }, [](uint64_t k) { return "write value " + std::to_string(k & 255); });
    l->add(4096 * 22, [](uint64_t k) { wrb(k / 22, lens[k % 22], 0); }, [](uint64_t k) { return "write block of " + std::to_string(lens[k % 22]) + " at " + std::to_string(k / 22); });
    l->add(256 * 70, [](uint64_t k) { wrb(440 + k / 256, k % 256, 1); }, [](uint64_t k) { return "write block of " + std::to_string(k % 256) + " at " + std::to_string(440 + k / 256); });
    l->add(1, [](uint64_t) { reset(); for (unsigned a = 0; a < medium::size; ++a) if (b->read(a) != want[a]) mc::fail("read of %u after a reset", a); }, [](uint64_t) { return std::string("reset"); });
    l->add(4096, [](uint64_t k) { for (unsigned n = 0; n < 256; n += n < 34 ? 1 : 17) checkRead(k, n); if (medium::bad) mc::fail("%s", medium::what); }, [](uint64_t k) { return "block reads at " + std::to_string(k); });
    auto s = scen("every write", 1, l, thorough ? NKIND * 3 : NKIND, [thorough](int k) { setup(thorough ? k : k + 2 * NKIND); }, [thorough](int k) { return cfgName(thorough ? k : k + 2 * NKIND); });
    sc.push_back(s);
  }
  {
    // sequences: page cache, commit and busy handling
    static OpList *l = new OpList;
    static const int ad[] = {0, 9, 10, 511, 512, 1023, 1024, 2044, 2047, 63};
    l->add(20, [](uint64_t k) { wr(ad[k >> 1], k & 1 ? 0x3C : 0xC3); }, [](uint64_t k) { return "write " + std::to_string(ad[k >> 1]) + " #" + std::to_string(k & 1); });
    static const int ba[] = {8, 60, 509, 511, 512, 1020, 1021, 1500, 2044};
    l->add(9 * 3, [](uint64_t k) { static const int n[] = {4, 5, 40}; wrb(ba[k / 3], n[k % 3], k % 2); }, [](uint64_t k) { return "block " + std::to_string(k % 3) + " at " + std::to_string(ba[k / 3]); });
    l->add(1, [](uint64_t) { wrb(480, 255, 0); }, [](uint64_t) { return std::string("block of 255 at 480"); });
    l->add(1, [](uint64_t) { reset(); }, [](uint64_t) { return std::string("reset"); });
    l->add(1, [](uint64_t) { restart(); }, [](uint64_t) { return std::string("restart"); });
    sc.push_back(scen("sequences", mc::pick(3, 4), l, NKIND * 3, setup, cfgName));
  }
  {
    // a node whose variables and events lie across page boundaries, on each medium
    static OpList *l = new OpList;
    auto send = [](const Msg &m) { stepMsg(*w, *r, m, FL); if (medium::bad) mc::fail("%s", medium::what); };
    l->add(24, [=](uint64_t k) { int n = k % 12; send(M({P::EVLRN, 0, 1 + n / 6, 0, 1 + n % 6, 1, (int)(10 + n)})); if (k >= 12) send(M({P::EVLRN, 0, 1 + n / 6, 0, 1 + n % 6, 3, 200 - n})); }, [](uint64_t k) { return "teach " + std::to_string(k); });
    l->add(1, [=](uint64_t) { for (int i = 0; i < 12; ++i) send(M({P::EVLRN, 0, 1 + i / 6, 0, 1 + i % 6, 1, i + 1})); }, [](uint64_t) { return std::string("fill the table"); });
    l->add(12, [=](uint64_t k) { send(M({P::EVULN, 0, 1 + (int)k / 6, 0, 1 + (int)k % 6})); }, [](uint64_t k) { return "unlearn " + std::to_string(k); });
    l->msgs({M({P::NNCLR, 1, 4}), M({P::NVSET, 1, 4, 1, 7}), M({P::NVSET, 1, 4, 4, 9}), M({P::EVLRNI, 0, 3, 0, 3, 1, 2, 8}), M({P::NNRSM, 1, 4}), M({P::SNN, 1, 4}), M({P::NNLRN, 1, 4})}, send);
    l->add(1, [](uint64_t) { stepAction(*w, *r, 0, FL); stepTime(*w, *r, 200, FL); }, [](uint64_t) { return std::string("change mode"); });
    l->add(1, [](uint64_t) { stepRestart(*w, *r, FL); }, [](uint64_t) { return std::string("restart"); });
    static const int start[] = {500, 54, 1010, 22, 505, 2048 - 10 - 8 * 11};
    auto s = scen("node on each medium", mc::pick(2, 3), l, NKIND * 6, [=](int k) {
      setup(k % NKIND);
      w = mc::make<NodeWorld>(); r = new RefNode;
      NodeCfg c; c.maxEvents = 12; c.numEvs = 3; c.numNvs = 5; c.evStart = start[k / NKIND]; c.nvStart = c.evStart - 6; c.diag = false;
      if (k / NKIND == 5) { c.maxEvents = 12; c.evStart = 2048 - 12 * 7; c.nvStart = 508; }
      w->c = c; w->st = mc::make<MediumStorage>(); w->can = mc::make<FakeCan>(60); w->boot();
      r->init(c); syncRef(*w, *r); r->provision = true;
      w->settle(); clearStep(*w, *r);
      stepAction(*w, *r, 0, FL); stepTime(*w, *r, 200, FL); send(M({P::SNN, 1, 4})); send(M({P::NNLRN, 1, 4}));
    }, [](int k) { return std::string(kindName[k % NKIND]) + ", events at " + std::to_string(k / NKIND == 5 ? 2048 - 84 : start[k / NKIND]); });
    sc.push_back(s);
  }
  longer(sc, "sequences", true, mc::pick(3000, 66000), mc::pick(300, 1000), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C20", sc.data(), sc.size(), "explicit-state exploration of the real storage classes on models of their media, against a byte-array reference");
}
