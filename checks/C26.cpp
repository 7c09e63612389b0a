// C26: the CAN controller driver passes frames and counters through faithfully.
// The ACAN2515 library and the chip behind it are modelled here from the interface in Arduino/ACAN2515.h: received
// frames wait in the chip (two buffers) until the driver is interrupted or polled, and then in its software buffer.
#include "alpha.h"
#include "world.h"
#include <array>
#include "c26/drv.h"
enum { HWBUF = 2, SWBUF = 16 };
static bool sameFrame(const CANMessage &a, const CANMessage &b) { return a.id == b.id && a.ext == b.ext && a.rtr == b.rtr && a.len == b.len && !memcmp(a.data, b.data, a.len > 8 ? 8 : a.len); }
static std::string str(const CANMessage &m) { char b[100]; int n = snprintf(b, sizeof b, "%s%s id=%x len=%d", m.ext ? "ext" : "std", m.rtr ? " rtr" : "", m.id, m.len); for (int i = 0; i < m.len && i < 8; ++i) n += snprintf(b + n, sizeof b - n, " %02x", m.data[i]); return b; }
// the chip and what is wired to it
struct Chip
{
  CANMessage hw[HWBUF]; int nhw;
  CANMessage sw[SWBUF]; int nsw, cap;
  bool running; int cs, pin; SPIClass *spi; void (*isr)(); ACAN2515 *drv;
  unsigned long osc; unsigned rate; int mode, txcap, txcap1, txcap2, begins, result;
  bool accept; CANMessage sent[4]; int nsent;
  int rxe, txe, flags;
};
static Chip *chip;
// what the user chose, and what is expected of the driver
struct Want { int plat; bool poll; int bus; int cs, pin, rx, tx; unsigned long osc; unsigned nrx, ntx; CANMessage q[SWBUF]; int nq; int unpolled; /* arrivals since the driver was last asked for frames */ };
static Want *want; static Drv *can; static int begins;
// the driver is compiled for three kinds of platform: most, ESP8266, RP2040
enum { PLAIN, ESP, RP, NPLAT };
BusPins *busPins;
static SPIClass *busOf(int plat, int i) { return plat == PLAIN ? avrBus[i] : plat == ESP ? espBus[i] : rpBus[i]; }
static const char *platName(int p) { return p == PLAIN ? "" : p == ESP ? ", ESP8266" : ", RP2040"; }
static void drain() { for (int i = 0; i < chip->nhw; ++i) if (chip->nsw < chip->cap && chip->nsw < SWBUF) chip->sw[chip->nsw++] = chip->hw[i]; chip->nhw = 0; memset(chip->hw, 0, sizeof chip->hw); }
ACAN2515Settings::ACAN2515Settings(unsigned long f, unsigned int r) : mRequestedMode(NormalMode), mReceiveBufferSize(32), mTransmitBuffer0Size(16), mTransmitBuffer1Size(0), mTransmitBuffer2Size(0) { chip->osc = f; chip->rate = r; }
ACAN2515::ACAN2515(uint8_t cs, SPIClass &spi, uint8_t pin) { chip->cs = cs; chip->spi = &spi; chip->pin = pin; chip->drv = this; }
unsigned short ACAN2515::begin(const ACAN2515Settings &s, void (*isr)())
{
  ++chip->begins; chip->cap = s.mReceiveBufferSize; chip->txcap = s.mTransmitBuffer0Size; chip->txcap1 = s.mTransmitBuffer1Size; chip->txcap2 = s.mTransmitBuffer2Size; chip->mode = s.mRequestedMode; chip->isr = isr;
  if (!busPins[0].begun && chip->spi == busOf(want->plat, 0) || !busPins[1].begun && chip->spi == busOf(want->plat, 1)) mc::fail("controller started before its SPI bus");
  chip->nsw = chip->nhw = 0; memset(chip->sw, 0, sizeof chip->sw); memset(chip->hw, 0, sizeof chip->hw);
  chip->running = chip->result == 0;
  return chip->result;
}
static void own(ACAN2515 *p, const char *what) { if (p != chip->drv) mc::fail("%s called on a driver object that is no longer in use", what); if (!chip->running && chip->result == 0) mc::fail("%s called on a stopped controller", what); }
void ACAN2515::isr() { own(this, "isr"); drain(); }
void ACAN2515::poll() { own(this, "poll"); drain(); }
bool ACAN2515::available() { own(this, "available"); return chip->nsw > 0; }
void ACAN2515::receive(CANMessage &m)
{
  own(this, "receive");
  if (!chip->nsw) return;
  m = chip->sw[0]; for (int i = 1; i < chip->nsw; ++i) chip->sw[i - 1] = chip->sw[i];
  --chip->nsw; memset(&chip->sw[chip->nsw], 0, sizeof(CANMessage));
}
bool ACAN2515::tryToSend(const CANMessage &m) { own(this, "tryToSend"); if (chip->nsent < 4) chip->sent[chip->nsent] = m; ++chip->nsent; return chip->accept; }
void ACAN2515::end() { own(this, "end"); chip->running = false; chip->isr = nullptr; }
uint16_t ACAN2515::receiveBufferCount() { return chip->nsw; }
uint16_t ACAN2515::receiveBufferPeakCount() { return chip->nsw; }
uint16_t ACAN2515::receiveBufferSize() { return chip->cap; }
uint16_t ACAN2515::transmitBufferCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferPeakCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferSize(uint8_t) { return chip->txcap; }
uint8_t ACAN2515::receiveErrorCounter() { return chip->rxe; }
uint8_t ACAN2515::transmitErrorCounter() { return chip->txe; }
uint8_t ACAN2515::errorFlagRegister() { return chip->flags; }

static CANMessage fr(uint32_t id, bool ext, bool rtr, int len, int fill) { CANMessage m; memset((void *)&m, 0, sizeof m); m.id = id; m.ext = ext; m.rtr = rtr; m.len = len; for (int i = 0; i < len; ++i) m.data[i] = fill + i * 37; return m; }
static void arrive(const CANMessage &m)
{
  if (!chip->running) return;
  if (chip->nhw < HWBUF) chip->hw[chip->nhw++] = m;
  if (chip->isr && chip->pin == want->pin) chip->isr(); // the chip pulls its interrupt line low
}
static void checkSetup()
{
  mc::countCheck();
  if (chip->begins != begins) mc::fail("controller started %d times, expected %d", chip->begins, begins);
  if (chip->cs != want->cs) mc::fail("chip select pin %d, user chose %d", chip->cs, want->cs);
  if (chip->spi != busOf(want->plat, want->bus)) mc::fail("not the SPI bus the user chose");
  if (want->poll ? chip->isr != nullptr : !chip->isr) mc::fail(want->poll ? "interrupts in use although the user chose polling" : "polling although the user chose interrupts");
  if (!want->poll && chip->pin != want->pin) mc::fail("interrupt pin %d, user chose %d", chip->pin, want->pin);
  if (chip->cap != want->rx || chip->txcap != want->tx) mc::fail("buffers %d/%d, user chose %d/%d", chip->cap, chip->txcap, want->rx, want->tx);
  if (chip->osc != want->osc || chip->rate != 125000) mc::fail("oscillator %lu bit rate %u, user chose %lu", chip->osc, chip->rate, want->osc);
  // an empty transmit buffer cannot be allocated on this platform
  if (want->plat == ESP && (chip->txcap1 < 1 || chip->txcap2 < 1)) mc::fail("unused transmit buffers of size %d and %d", chip->txcap1, chip->txcap2);
  const BusPins *b = busPins + want->bus;
  if (want->plat == RP && (b->tx != PIN_TX(want->cs, want->pin) || b->rx != PIN_RX(want->cs, want->pin) || b->sck != PIN_SCK(want->cs, want->pin) || b->cs != want->cs))
    mc::fail("SPI bus started on pins tx %d rx %d sck %d cs %d, user chose %d %d %d %d", b->tx, b->rx, b->sck, b->cs, PIN_TX(want->cs, want->pin), PIN_RX(want->cs, want->pin), PIN_SCK(want->cs, want->pin), want->cs);
}
static void checkCounters()
{
  mc::countCheck();
  if (can->received() != want->nrx || can->sent() != want->ntx) mc::fail("counters received %u sent %u, expected %u and %u", can->received(), can->sent(), want->nrx, want->ntx);
  if (can->rxErrors() != (unsigned)chip->rxe || can->txErrors() != (unsigned)chip->txe || can->status() != (unsigned)chip->flags) mc::fail("error counters %u %u %u, controller has %d %d %d", can->rxErrors(), can->txErrors(), can->status(), chip->rxe, chip->txe, chip->flags);
}
static void receiveOne()
{
  bool a = can->available(); want->unpolled = 0;
  if (a != (want->nq > 0)) mc::fail("available() returned %d with %d frames waiting", a, want->nq);
  mc::countCheck();
  if (!a) return;
  CANMessage g = can->next();
  if (!sameFrame(g, want->q[0])) mc::fail("received %s, expected %s", str(g).c_str(), str(want->q[0]).c_str());
  for (int i = 1; i < want->nq; ++i) want->q[i - 1] = want->q[i]; --want->nq; ++want->nrx;
}
static void sendOne(const CANMessage &m, bool accept)
{
  chip->accept = accept; chip->nsent = 0; memset(chip->sent, 0, sizeof chip->sent);
  bool r = can->send(m);
  if (r != accept) mc::fail("send returned %d although the controller %s the frame", r, accept ? "accepted" : "refused");
  int ok = 0; // a driver may try again, but only one frame may get out
  for (int i = 0; i < chip->nsent && i < 4; ++i) if (!sameFrame(chip->sent[i], m)) mc::fail("sent %s, expected %s", str(chip->sent[i]).c_str(), str(m).c_str());
  if (chip->nsent < 1 || (accept && chip->nsent != 1)) mc::fail("frame given to the controller %d times", chip->nsent);
  chip->nsent = 0; memset(chip->sent, 0, sizeof chip->sent);
  want->ntx += accept; (void)ok; mc::countCheck();
}
static void expectArrival(const CANMessage &m) { ++want->unpolled; if (want->nq < want->rx) want->q[want->nq++] = m; arrive(m); }
static bool beginOn(int how) { return can->begin(how, want->poll, want->bus); }
static void start(int plat, bool poll, int bus, int setup)
{
  hw::now = 1000; chip = mc::make<Chip>(); chip->accept = true; chip->rxe = 3; chip->txe = 5; chip->flags = 9;
  want = mc::make<Want>(); want->plat = plat; want->poll = poll; want->bus = bus; busPins = mc::make<std::array<BusPins, 2>>()->data(); for (int i = 0; i < 2; ++i) busPins[i].tx = busPins[i].rx = busPins[i].sck = busPins[i].cs = -1; hw::spiBegin = [](SPIClass *p) { for (int i = 0; i < 2; ++i) if (p == busOf(want->plat, i)) busPins[i].begun = 1; }; want->cs = 10; want->pin = 2; want->rx = 4; want->tx = 2; want->osc = 16000000;
  can = plat == PLAIN ? makeAvr() : plat == ESP ? makeEsp() : makeRp();
  if (plat == RP) can->setPins(10, 2); // this platform has no usual pins
  if (setup & 1) { can->setPins(7, 3); want->cs = 7; want->pin = 3; }
  if (setup & 2) { can->setNumBuffers(9, 1); want->rx = 9; want->tx = 1; }
  if (setup & 4) { can->setOscFreq(8000000); want->osc = 8000000; }
  if (setup & 8) { can->setNumBuffers(3); want->rx = 3; want->tx = 0; }
  begins = 1;
  bool ok = beginOn(bus ? 2 : poll ? 1 : 0);
  if (!ok) mc::fail("begin() failed although the controller started");
  checkSetup(); checkCounters();
}
static const CANMessage F[4] = {fr(0x5AB, false, false, 8, 0x11), fr(0x1ABCDE12, true, false, 3, 0xF0), fr(0x7F, false, true, 0, 0), fr(0x580, false, false, 0, 0)};
static CANMessage patternFrame(uint64_t op, int &ok)
{
  ok = 1;
  if (op < 2048 * 4) return fr(op >> 2, false, op & 1, op & 2 ? 8 : 0, op);
  op -= 2048 * 4;
  if (op < 30 * 30 * 4) { int a = op / 4 / 30, b = op / 4 % 30; uint32_t id = (a < 29 ? 1u << a : 0) | (b < 29 ? 1u << b : 0); if (op & 2) id ^= 0x1FFFFFFF; return fr(id, true, op & 1, 4, op); }
  op -= 30 * 30 * 4;
  CANMessage m = fr(0x5A3, false, false, op / 2048 % 9, 0x40); if (m.len) m.data[op / 256 % 8 % m.len] = op; return m;
}
enum { NPAT = 2048 * 4 + 30 * 30 * 4 + 9 * 2048 };
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  // 1. single frames in both directions
  {
    mc::Scenario s; s.name = "every frame"; s.nconfigs = 2 * NPLAT; s.nops = NPAT; s.depth = 1;
    s.setup = [](int k) { start(k >> 1, k & 1, 0, 0); };
    s.apply = [](uint64_t op) { int ok; CANMessage m = patternFrame(op, ok); expectArrival(m); receiveOne(); receiveOne(); sendOne(m, true); sendOne(m, false); checkCounters(); };
    s.opname = [](uint64_t op) { int ok; return "frame " + str(patternFrame(op, ok)); };
    s.cfgname = [](int k) { return std::string(k & 1 ? "polling" : "interrupts") + platName(k >> 1); };
    sc.push_back(s);
  }
  // 2. sequences
  {
    mc::Scenario s; s.name = "sequences"; s.nconfigs = 2 * 2 * 4 * NPLAT; s.nops = 18; s.depth = mc::pick(6, 8);
    s.setup = [](int k) { static const int set[4] = {0, 1 | 2, 4 | 8, 15 - 8}; start(k >> 4, k & 1, k >> 1 & 1, set[k >> 2 & 3]); };
    s.enabled = [](uint64_t op) { return op >= 4 || (want->nq < SWBUF - 1 && (!want->poll || want->unpolled < HWBUF)); };
    s.apply = [](uint64_t op) {
      if (op < 4) expectArrival(F[op]);
      else if (op == 4) receiveOne();
      else if (op == 5) { want->unpolled = 0; bool a = can->available(), b = can->available(); if (a != (want->nq > 0) || b != a) mc::fail("available() returned %d then %d with %d frames waiting", a, b, want->nq); }
      else if (op < 8) sendOne(F[op - 6], true);
      else if (op < 10) sendOne(F[op - 6], false);
      else if (op == 10) { chip->rxe = (chip->rxe + 100) % 256; chip->txe = (chip->txe + 90) % 256; chip->flags = (chip->flags + 77) % 256; }
      else if (op == 12) { can->setPins(4, 5); want->cs = 4; want->pin = 5; begins = chip->begins; goto restart; } // takes effect at the next start
      else if (op == 13) { can->setNumBuffers(6, 3); want->rx = 6; want->tx = 3; goto restart; }
      else if (op == 14) { can->setOscFreq(20000000); want->osc = 20000000; goto restart; }
      else if (op == 11) { restart: can->reset(); ++begins; want->nq = 0; memset(want->q, 0, sizeof want->q); want->unpolled = 0; want->nrx = want->ntx = 0; checkSetup(); }
      else { bool p = op == 17 ? want->poll : !want->poll; if (op > 15) want->bus = !want->bus; want->poll = p; chip->drv->end(); bool ok = beginOn(2); if (!ok) mc::fail("begin() failed"); ++begins; want->nq = 0; memset(want->q, 0, sizeof want->q); want->unpolled = 0; want->nrx = want->ntx = 0; checkSetup(); }
      checkCounters();
    };
    s.finish = [] { for (int i = want->nq; i >= 0; --i) receiveOne(); checkCounters(); };
    s.opname = [](uint64_t op) { static const char *n[] = {"arrive", "arrive ext", "arrive rtr", "arrive empty", "receive", "available", "send", "send ext", "send rtr, refused", "send empty, refused", "error counters change", "reset", "setPins, reset", "setNumBuffers, reset", "setOscFreq, reset", "begin in the other mode", "begin in the other mode on the other bus", "begin on the other bus"}; return std::string(n[op]); };
    s.cfgname = [](int k) { return std::string(k & 1 ? "polling" : "interrupts") + (k & 2 ? ", other SPI" : "") + ", settings " + std::to_string(k >> 2 & 3) + platName(k >> 4); };
    sc.push_back(s);
  }
  // every choice of pins, oscillator and buffers is passed on, at the start and by a later reset
  {
    mc::Scenario s; s.name = "every setting"; s.nconfigs = 4 * NPLAT; s.nops = 65536 + 256 * 32 + 600; s.depth = 1;
    s.setup = [](int k) { start(k >> 2, k & 1, k >> 1 & 1, 0); };
    s.apply = [](uint64_t op) {
      if (op < 65536) { want->cs = op & 255; want->pin = op >> 8; can->setPins(want->cs, want->pin); }
      else if (op < 65536 + 256 * 32) { op -= 65536; want->rx = op & 255; want->tx = op >> 8; can->setNumBuffers(want->rx, want->tx); }
      else { op -= 65536 + 256 * 32; want->osc = op < 120 ? (op + 1) * 500000ul : op < 152 ? 1ul << (op - 120) : (op - 151) * 97003ul; can->setOscFreq(want->osc); }
      can->reset(); ++begins; checkSetup();
      chip->drv->end(); if (!beginOn(2)) mc::fail("begin() failed"); ++begins; checkSetup();
      if (want->rx) { expectArrival(F[0]); receiveOne(); }
    };
    s.opname = [](uint64_t op) { return "setting " + std::to_string(op); };
    s.cfgname = [](int k) { return std::string(k & 1 ? "polling" : "interrupts") + (k & 2 ? ", other SPI" : "") + platName(k >> 2); };
    sc.push_back(s);
  }
  // 3. a controller that does not start: begin() says so, with every error code, and a later reset recovers
  {
    mc::Scenario s; s.name = "start failure"; s.nconfigs = 2 * NPLAT; s.nops = 17; s.depth = 1;
    s.setup = [](int k) { start(k >> 1, k & 1, 0, 0); };
    s.apply = [](uint64_t op) {
      chip->result = op ? 1 << (op - 1) : 0; chip->drv->end();
      if (beginOn(1) != (op == 0)) mc::fail("begin() returned %d with controller result %d", op != 0, chip->result);
      begins = 2; chip->result = 0; if (op) { chip->running = true; } can->reset(); ++begins; checkSetup();
      expectArrival(F[0]); receiveOne(); sendOne(F[1], true); checkCounters();
    };
    s.cfgname = [](int k) { return std::string(k & 1 ? "polling" : "interrupts") + platName(k >> 1); };
    sc.push_back(s);
  }
  // 4. counters over long runs
  {
    mc::Scenario s; s.name = "counters"; s.nconfigs = 2 * NPLAT; s.nops = 4; s.depth = 1;
    s.setup = [](int k) { start(k >> 1, k & 1, 0, 0); };
    s.apply = [](uint64_t op) {
      if (op == 3)
      {
        size_t m = 0; for (int i = 0; i < 40; ++i) { if (i == 4) m = mc::arenaInUse(); can->reset(); ++begins; checkSetup(); }
        if (mc::arenaInUse() > m) mc::fail("memory in use grows with resets");
        expectArrival(F[0]); receiveOne(); return;
      }
      for (int i = 0; i < 70000; ++i) { if (op == 0) { expectArrival(F[i & 1]); receiveOne(); } else if (op == 1) sendOne(F[i & 3], true); else sendOne(F[i & 3], i % 3 != 0); if (i % 251 == 0 || i > 65530) checkCounters(); } };
    s.opname = [](uint64_t op) { return op == 0 ? "70000 received" : op == 1 ? "70000 sent" : op == 3 ? "reset 40 times" : "70000 sent, every third refused"; };
    s.cfgname = [](int k) { return std::string(k & 1 ? "polling" : "interrupts") + platName(k >> 1); };
    sc.push_back(s);
  }
  longer(sc, "sequences", true, mc::pick(6000, 66000), mc::pick(300, 600), mc::pick(1000000, 20000000), mc::pick(3000000, 60000000));
  return mc::run(argc, argv, "C26", sc.data(), sc.size(), "explicit-state exploration of the real driver on a model of the CAN controller library");
}
