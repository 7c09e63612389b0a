// Exhaustive bounded explorer for real C++ code ("software model checking by
// snapshotting"): the world under test -- every byte of this executable's
// .data/.bss plus a private heap arena that all allocations are routed to -- is
// copied before a step and copied back after it, so that all operation
// sequences up to a depth are executed on the real code without restarting.
// Engine bookkeeping lives in separate shared mappings, outside the snapshot.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>

namespace mc {

struct Violation { char msg[1500]; };

// Called by harness code (never from inside a VUT callback) on oracle mismatch.
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// A known, listed finding: counted and reported as KNOWN-FINDING, not a violation.
// returns true if `key` is listed for the property, otherwise fails.
bool known(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

enum Tier { QUICK, THOROUGH };
Tier tier();
inline int pick(int q, int t) { return tier() == QUICK ? q : t; }
inline uint64_t pick64(uint64_t q, uint64_t t) { return tier() == QUICK ? q : t; }

// One exploration problem.
struct Scenario
{
  std::string name;
  int nconfigs = 1;                                // setup variants
  std::function<void(int cfg)> setup;              // builds the world (arena is empty before)
  std::function<bool(int cfg)> use;                // optional: which of them to explore (in this tier)
  uint64_t nops = 0;                               // number of operations
  std::function<uint64_t(int cfg)> nopsOf;         // optional: per-config
  std::function<void(uint64_t op)> apply;          // executes op on world and model; fail() on mismatch
  std::function<bool(uint64_t op)> enabled;        // optional
  std::function<std::string(uint64_t op)> opname;  // for reports
  std::function<std::string(int cfg)> cfgname;
  int depth = 1;                                   // bound on sequence length
  bool deepen = true;                              // iterative deepening (shortest counterexample first)
  bool reach = false;                              // explore the reachable states: paths end by themselves before
                                                   // `depth` (finish must reject longer ones); workers share the table
  bool dedup = true;                               // prune on exact image of the world
  std::function<void()> finish;                    // optional: run at every maximal sequence end (leaf)
  std::function<uint64_t()> key;                   // optional: state abstraction used for pruning instead of
                                                   // the exact image (deep scenarios; stated in the evidence)
};

// Runs everything, writes evidence, prints verdict; returns exit status.
int run(int argc, char **argv, const char *property, Scenario *scenarios, int n,
        const char *method, const char *const *assumptions = nullptr, int nassumptions = 0);

// accounting hooks for harness code
void countCheck(uint64_t n = 1);                   // oracle comparisons made
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace text in replay mode
uint64_t hash(const void *p, size_t n, uint64_t h = 0x1234567);
bool replaying();
// number of steps executed so far in this path
int pathLen();
// a number that differs between scenarios and configurations: lets base states vary in settings that should not matter
int profile();

// --- arena ---
void *arenaAlloc(size_t n, bool zero);
void arenaFree(void *p);
bool arenaCheck();          // redzones intact?
size_t arenaInUse();        // bytes allocated
size_t arenaTop();          // extent of the arena
extern int failMallocs, skipMallocs; // after skipMallocs more calls, the next failMallocs malloc() calls of the program under test fail
extern bool checkArena;     // check them after every operation
template <class T, class... A> T *make(A &&...a);  // zeroed placement-new in arena

}

#include <new>
#include <utility>
namespace mc {
template <class T, class... A> T *make(A &&...a)
{
  void *p = arenaAlloc(sizeof(T), true);
  return new (p) T(std::forward<A>(a)...);
}
}
