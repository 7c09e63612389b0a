// Operation alphabets: parameterised message spaces enumerated by mixed radix.
#pragma once
#include "ref.h"
#include <functional>
// A list of op groups, each with its own size and decoder.
struct Op { uint64_t n; std::function<void(uint64_t)> run; std::function<std::string(uint64_t)> name; };
struct OpList
{
  std::vector<Op> g;
  uint64_t total() const { uint64_t t = 0; for (auto &o : g) t += o.n; return t; }
  const Op &at(uint64_t op, uint64_t &k) const { for (auto &o : g) { if (op < o.n) { k = op; return o; } op -= o.n; } abort(); }
  void run(uint64_t op) const { uint64_t k; const Op &o = at(op, k); o.run(k); }
  std::string name(uint64_t op) const { uint64_t k; const Op &o = at(op, k); return o.name(k); }
  void add(uint64_t n, std::function<void(uint64_t)> r, std::function<std::string(uint64_t)> nm) { g.push_back(Op{n, r, nm}); }
  // one fixed message list
  void msgs(const std::vector<Msg> &v, std::function<void(const Msg &)> send)
  {
    auto *p = new std::vector<Msg>(v);
    add(v.size(), [p, send](uint64_t k) { send((*p)[k]); }, [p](uint64_t k) { return str((*p)[k]); });
  }
};
// a message whose bytes each come from a set, plus a set of lengths
struct MsgSpace
{
  std::vector<std::vector<int>> b; std::vector<int> lens;
  uint64_t size() const { uint64_t n = lens.size(); for (auto &v : b) n *= v.size(); return n; }
  Msg at(uint64_t k) const
  {
    Msg m; memset(&m, 0, sizeof m);
    m.len = lens[k % lens.size()]; k /= lens.size();
    for (size_t i = 0; i < b.size(); ++i) { m.d[i] = b[i][k % b[i].size()]; k /= b[i].size(); }
    return m;
  }
};
inline std::vector<int> range(int lo, int hi) { std::vector<int> v; for (int i = lo; i <= hi; ++i) v.push_back(i); return v; }
// bytes beyond the length of a message are not varied
inline void addSpace(OpList &l, const MsgSpace &s, std::function<void(const Msg &)> send)
{
  for (int len : s.lens)
  {
    auto *p = new MsgSpace(s);
    p->lens = {len};
    if ((int)p->b.size() > len) p->b.resize(len);
    l.add(p->size(), [p, send](uint64_t k) { send(p->at(k)); }, [p](uint64_t k) { return str(p->at(k)); });
  }
}
#include "engine.h"
#include <cstdlib>
#include <vector>
// a scenario over one fixed operation list
inline mc::Scenario scen(const char *name, int depth, OpList *l, int nconfigs, std::function<void(int)> setup, std::function<std::string(int)> cfgname = nullptr)
{
  mc::Scenario s; s.name = name; s.depth = depth; s.nconfigs = nconfigs; s.setup = setup; s.cfgname = cfgname;
  s.nops = l->total(); s.apply = [l](uint64_t op) { l->run(op); }; s.opname = [l](uint64_t op) { return l->name(op); };
  if (depth == 1) s.dedup = false;
  return s;
}
// long histories: every period of one operation, repeated r1 times, and of two operations, repeated r2 times
inline mc::Scenario periodic(const mc::Scenario &b, const char *name, int r1, int r2, int nconfigs = 0)
{
  mc::Scenario s = b; s.name = name; s.depth = 1; s.dedup = false; s.key = nullptr; s.reach = false; s.enabled = nullptr;
  if (nconfigs) s.nconfigs = nconfigs;
  auto n = new uint64_t(b.nops);
  auto of = [b](int c) { return b.nopsOf ? b.nopsOf(c) : b.nops; };
  s.setup = [b, n, of](int c) { b.setup(c); *n = of(c); };
  s.nopsOf = [n, of](int c) { uint64_t k = *n = of(c); return k * k; };
  s.nops = b.nops * b.nops;
  s.apply = [b, n, r1, r2](uint64_t op) {
    uint64_t x = op % *n, y = op / *n; size_t was = mc::arenaTop();
    for (int i = 0, r = x == y ? r1 : r2; i < r && mc::arenaTop() < was + 100000; ++i) // a restart leaves memory behind
    {
      if (!b.enabled || b.enabled(x)) b.apply(x);
      if (x != y && (!b.enabled || b.enabled(y))) b.apply(y);
    }
  };
  s.opname = [b, n, r1, r2](uint64_t op) { uint64_t x = op % *n, y = op / *n; return x == y ? std::to_string(r1) + " times: " + b.opname(x) : std::to_string(r2) + " times: " + b.opname(x) + "; " + b.opname(y); };
  return s;
}

// Sequences that use only a few different operations, but longer: every sequence over at most `kinds` distinct operations of
// b's alphabet, as deep as about `budget` steps allow. Exact states: finds what code remembers beside its documented state.
struct FewState { uint32_t used[4]; int n; };
static FewState g_few;
inline mc::Scenario few(const mc::Scenario &b, const char *name, int kinds, double budget)
{
  mc::Scenario s = b; s.name = name; s.key = nullptr; s.dedup = true;
  int d = 0;
  for (double c = 0; d < 14; ++d, c = 0)
  {
    for (int k = 0; k < b.nconfigs; ++k)
    {
      double n = b.nopsOf ? b.nopsOf(k) : b.nops, x = 1;
      for (int i = 0; i < kinds; ++i) x = x * (n - i) / (i + 1);
      for (int i = 0; i <= d; ++i) x *= kinds;
      c += x;
    }
    if (c > budget) break;
  }
  if (d <= (b.key ? 2 : b.depth)) d = 0; // b itself covers this
  s.depth = d;
  s.setup = [b](int c) { b.setup(c); g_few = FewState(); };
  s.enabled = [b, kinds](uint64_t op) {
    if (b.enabled && !b.enabled(op)) return false;
    for (int i = 0; i < g_few.n; ++i) if (g_few.used[i] == op) return true;
    return g_few.n < kinds;
  };
  s.apply = [b](uint64_t op) {
    int i = 0; while (i < g_few.n && g_few.used[i] < op) ++i;
    if (i == g_few.n || g_few.used[i] != op) { for (int j = g_few.n++; j > i; --j) g_few.used[j] = g_few.used[j - 1]; g_few.used[i] = op; }
    b.apply(op);
  };
  return s;
}
// all of these for the scenario called `base`
inline void longer(std::vector<mc::Scenario> &sc, const char *base, bool only, int r1, int r2, double b2, double b3)
{
  auto nm = [=](const char *n) { auto *s = new std::string(n); if (!only) *s += std::string(": ") + base; return s->c_str(); };
  for (size_t i = 0; i < sc.size(); ++i)
    if (sc[i].name == base)
    {
      mc::Scenario b = sc[i], s;
      sc.push_back(periodic(b, nm("long histories"), r1, r2));
      s = few(b, nm("two operations, longer"), 2, b2); if (s.depth) sc.push_back(s);
      s = few(b, nm("three operations, longer"), 3, b3); if (s.depth) sc.push_back(s);
      return;
    }
  abort();
}
