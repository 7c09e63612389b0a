// C13: the message queue is a bounded FIFO that overwrites only the oldest entry.
#include "engine.h"
#include "world.h"
#include "alpha.h"
#include <deque>
using VLCB::CircularBuffer;
struct Item { uint32_t v; uint8_t pad[3]; bool operator==(const Item &o) const { return v == o.v && !memcmp(pad, o.pad, 3); } };
static Item mk(uint32_t v) { Item i; i.v = v * 2654435761u; i.pad[0] = v; i.pad[1] = v >> 8; i.pad[2] = ~v; return i; }
struct W
{
  CircularBuffer<Item> *q; int cap;
  // reference: ring of item numbers
  uint32_t items[256]; int n = 0; uint32_t next = 1;
  unsigned puts = 0, gets = 0, over = 0, hwm = 0;
  uint32_t at(int i) { return items[i]; }
};
static W *w;
static void build(int cap) { w = mc::make<W>(); w->next = 1; w->cap = cap; w->q = mc::make<CircularBuffer<Item>>((uint8_t)cap); }
static void check(bool all = true)
{
  if (w->q->available() != (w->n > 0)) mc::fail("available() is %d with %d items", w->q->available(), w->n);
  Item *p = w->q->peek();
  if ((p != nullptr) != (w->n > 0)) mc::fail("peek() is %s with %d items", p ? "not null" : "null", w->n);
  if (p && !(*p == mk(w->items[0]))) mc::fail("peek() shows the wrong item");
  if (w->q->getNumberOfPuts() != (w->puts & 255)) mc::fail("insertions %u, expected %u", w->q->getNumberOfPuts(), w->puts & 255);
  if (w->q->getNumberOfGets() != (w->gets & 255)) mc::fail("removals %u, expected %u", w->q->getNumberOfGets(), w->gets & 255);
  if (w->q->getOverflows() != (w->over & 255)) mc::fail("overflows %u, expected %u", w->q->getOverflows(), w->over & 255);
  if (w->q->getHighWaterMark() != w->hwm) mc::fail("high-water mark %u, expected %u", w->q->getHighWaterMark(), w->hwm);
  if (all) mc::countCheck();
}
static void put()
{
  uint32_t v = w->next++; w->q->put(mk(v)); ++w->puts;
  if (w->n == w->cap) { memmove(w->items, w->items + 1, sizeof(uint32_t) * (w->n - 1)); --w->n; ++w->over; }
  w->items[w->n++] = v; if ((unsigned)w->n > w->hwm) w->hwm = w->n;
}
static void pop()
{
  Item i = w->q->pop(); ++w->gets;
  if (!(i == mk(w->items[0]))) mc::fail("wrong item removed");
  --w->n; memmove(w->items, w->items + 1, sizeof(uint32_t) * w->n);
}
static void clear() { w->q->clear(); w->n = 0; }
static void drain() { while (w->n) { pop(); check(); } }
int main(int argc, char **argv)
{
  std::vector<mc::Scenario> sc;
  mc::checkArena = true;
  {
    mc::Scenario s; s.name = "sequences"; s.nconfigs = 9; s.depth = mc::pick(13, 16); s.nops = 3; s.dedup = false;
    s.setup = [](int k) { build(k + 1); check(); };
    s.apply = [](uint64_t op) { op == 0 ? put() : op == 1 ? pop() : clear(); check(); };
    s.enabled = [](uint64_t op) { return op != 1 || w->n > 0; };
    s.opname = [](uint64_t op) { return std::string(op == 0 ? "put" : op == 1 ? "pop" : "clear"); };
    s.cfgname = [](int k) { return "capacity " + std::to_string(k + 1); };
    s.finish = drain;
    sc.push_back(s);
    // longer sequences without clear, on small capacities
    s.name = "put and pop sequences"; s.nops = 2; s.depth = mc::pick(18, 22); s.nconfigs = 5; sc.push_back(s);
  }
  {
    // every capacity, every starting position, every fill
    mc::Scenario s; s.name = "every capacity, position and fill"; s.nconfigs = 255; s.depth = 1; s.dedup = false; s.nops = 255;
    s.setup = [](int k) { build(k + 1); };
    s.enabled = [](uint64_t op) { return (int)op < w->cap; };
    s.apply = [](uint64_t op) {
      for (unsigned i = 0; i < op; ++i) { put(); pop(); }
      check();
      for (int i = 0; i < w->cap + 3; ++i) { put(); check(); }
      for (int i = 0; i < w->cap / 2; ++i) { pop(); check(); }
      for (int i = 0; i < w->cap; i += 3) { put(); check(); }
      if (op & 1) { clear(); check(); for (int i = 0; i < 3; ++i) { put(); check(); } }
      drain();
    };
    s.opname = [](uint64_t op) { return "starting position " + std::to_string(op); };
    s.cfgname = [](int k) { return "capacity " + std::to_string(k + 1); };
    sc.push_back(s);
  }
  {
    // periodic loads, long enough for all counters to wrap
    mc::Scenario s; s.name = "periodic loads"; s.nconfigs = 40; s.depth = 1; s.dedup = false; s.nops = 12 * 12;
    s.setup = [](int k) { build(k < 33 ? k + 1 : (int[]){64, 100, 127, 128, 129, 200, 255}[k - 33]); };
    s.apply = [](uint64_t op) {
      int p = op % 12 + 1, g = op / 12 + 1;
      for (int i = 0; i < 700; ++i) { for (int a = 0; a < p; ++a) { put(); check(false); } for (int a = 0; a < g && w->n; ++a) { pop(); check(false); } }
      mc::countCheck(); drain();
    };
    s.opname = [](uint64_t op) { return std::to_string(op % 12 + 1) + " puts and " + std::to_string(op / 12 + 1) + " pops repeated"; };
    s.cfgname = [](int k) { return "capacity index " + std::to_string(k); };
    sc.push_back(s);
  }
  const char *as[] = {"items are removed only when the queue says one is available"};
  return mc::run(argc, argv, "C13", sc.data(), sc.size(), "exhaustive exploration of the real queue template against a reference FIFO", as, 1);
}
