#include "engine.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sched.h>

// the engine itself is never instrumented; MC_ASAN tells that the rest is
#if MC_ASAN+0
// the engine is compiled without instrumentation, where asan_interface.h would turn these into nothing
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#define ASAN_POISON_MEMORY_REGION(p, n) __asan_poison_memory_region((p), (n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) __asan_unpoison_memory_region((p), (n))
#define NOASAN __attribute__((no_sanitize("address"), no_sanitize("undefined")))
#else
#undef MC_ASAN
#define MC_ASAN 0
#define NOASAN
#endif

extern "C" char __data_start, _end;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);

namespace mc {

// ---------------------------------------------------------------- layout
const size_t ARENA_SIZE = 1 << 20;
const size_t REDZONE = 16;
const unsigned char RZ_BYTE = 0xFB;
const int MAXDEPTH = 500;
const int MAXWORKERS = 8;
const int MAXPATH = 512;

struct Chunk { uint32_t size; uint32_t cap; uint32_t used; uint32_t magic; }; // 16 bytes
struct Arena
{
  uint32_t bump;      // next free offset in mem
  uint32_t firstFree; // unused
  uint32_t nalloc;
  uint32_t pad;
  unsigned char mem[ARENA_SIZE];
};

struct WorkerSlot
{
  std::atomic<uint64_t> ticks;
  uint64_t transitions, leaves, checks, pruned, states;
  int len;
  int running;
  uint64_t path[MAXPATH];
};

struct KnownHit { char key[80]; char msg[300]; uint64_t count; };

struct Shared
{
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  std::atomic<int> violated;
  Violation viol;
  int vlen; uint64_t vpath[MAXPATH];
  WorkerSlot w[MAXWORKERS];
  std::atomic<uint64_t> tableFull;
  std::atomic<int> knownLock;
  int nknownHits;
  KnownHit hits[32];
};

struct Entry { std::atomic<uint64_t> h; std::atomic<uint64_t> rem; };

struct Known { char key[80]; char text[400]; };

struct Engine
{
  Shared *sh;
  Arena *arena;       // MAP_PRIVATE: one copy per worker
  Entry *table; uint64_t tableMask; uint64_t epoch;
  unsigned char *dataLo; size_t dataLen;
  Tier tier;
  bool replay;
  int worker;
  Scenario *sc; int cfg; int depth; uint64_t nops;
  uint64_t path[MAXPATH]; int len;
  struct Snap { unsigned char *data; unsigned char *mem; size_t memCap; uint32_t bump; Arena hdr0; } *dummy;
  unsigned char *snapData[MAXDEPTH + 2];
  unsigned char *snapMem[MAXDEPTH + 2];
  uint32_t snapBump[MAXDEPTH + 2];
  uint32_t hiwater;
  const char *property;
  Known *known; int nknown;
  char verif[256];
  bool inFail;
  bool dedup;
};

static Engine *E __attribute__((section(".data.mcengine"))) = nullptr;

static double now()
{
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void *shmap(size_t n)
{
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}
static void *pvmap(size_t n)
{
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}

// ---------------------------------------------------------------- arena
NOASAN static void rawcopy(void *d, const void *s, size_t n)
{
#if MC_ASAN
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); // memcpy would be intercepted
#else
  memcpy(d, s, n);
#endif
}

NOASAN static Chunk *firstChunk() { return (Chunk *)E->arena->mem; }

static inline size_t rnd(size_t n) { return (n + 15) & ~size_t(15); }

#if MC_ASAN
NOASAN static void repoison()
{
  Arena *a = E->arena;
  uint32_t off = 0;
  if (E->hiwater < a->bump) E->hiwater = a->bump;
  ASAN_UNPOISON_MEMORY_REGION(a->mem, a->bump);
  while (off < a->bump)
  {
    Chunk *c = (Chunk *)(a->mem + off);
    unsigned char *p = a->mem + off + sizeof(Chunk);
    uint32_t total = sizeof(Chunk) + c->cap + REDZONE;
    uint32_t cap = c->cap, size = c->size, used = c->used;
    ASAN_POISON_MEMORY_REGION(c, sizeof(Chunk));
    ASAN_POISON_MEMORY_REGION(p, cap + REDZONE);
    if (used) ASAN_UNPOISON_MEMORY_REGION(p, size);
    off += total;
  }
  if (E->hiwater > a->bump) ASAN_POISON_MEMORY_REGION(a->mem + a->bump, E->hiwater - a->bump);
}
#else
static void repoison() {}
#endif

NOASAN void *arenaAlloc(size_t n, bool zero)
{
  Arena *a = E->arena;
  size_t cap = rnd(n ? n : 1);
  // reuse a freed chunk of the same capacity, else bump
  uint32_t off = 0;
  Chunk *found = nullptr;
  while (off < a->bump)
  {
    Chunk *c = (Chunk *)(a->mem + off);
    if (!c->used && c->cap == cap) { found = c; break; }
    off += sizeof(Chunk) + c->cap + REDZONE;
  }
  if (!found)
  {
    off = a->bump;
    if (off + sizeof(Chunk) + cap + REDZONE > ARENA_SIZE) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
#if MC_ASAN
    ASAN_UNPOISON_MEMORY_REGION(a->mem + off, sizeof(Chunk) + cap + REDZONE);
#endif
    found = (Chunk *)(a->mem + off);
    a->bump += sizeof(Chunk) + cap + REDZONE;
    found->cap = cap;
    found->magic = 0x5AFEC0DE;
  }
#if MC_ASAN
  ASAN_UNPOISON_MEMORY_REGION((unsigned char *)found, sizeof(Chunk) + cap + REDZONE);
#endif
  found->size = n;
  found->used = 1;
  unsigned char *p = (unsigned char *)found + sizeof(Chunk);
  for (size_t i = 0; i < cap; ++i) { p[i] = i < n ? (zero ? 0 : 0xCD) : RZ_BYTE; asm volatile("" ::: "memory"); }
  for (size_t i = 0; i < REDZONE; ++i) { p[cap + i] = RZ_BYTE; asm volatile("" ::: "memory"); }
#if MC_ASAN
  ASAN_POISON_MEMORY_REGION(found, sizeof(Chunk));
  ASAN_POISON_MEMORY_REGION(p, cap + REDZONE);
  ASAN_UNPOISON_MEMORY_REGION(p, n);
  if (E->hiwater < a->bump) E->hiwater = a->bump;
#endif
  return p;
}

NOASAN void arenaFree(void *p)
{
  if (!p) return;
  Arena *a = E->arena;
  if ((unsigned char *)p < a->mem || (unsigned char *)p >= a->mem + ARENA_SIZE)
  {
    __real_free(p);
    return;
  }
  Chunk *c = (Chunk *)((unsigned char *)p - sizeof(Chunk));
#if MC_ASAN
  ASAN_UNPOISON_MEMORY_REGION(c, sizeof(Chunk));
#endif
  if (c->magic != 0x5AFEC0DE || !c->used)
  {
    fprintf(stderr, "invalid or double free\n");
    abort();
  }
  c->used = 0;
  unsigned char *q = (unsigned char *)p;
#if MC_ASAN
  ASAN_UNPOISON_MEMORY_REGION(q, c->cap);
#endif
  for (uint32_t i = 0; i < c->cap; ++i) { q[i] = 0xDD; asm volatile("" ::: "memory"); }
#if MC_ASAN
  uint32_t cap = c->cap;
  ASAN_POISON_MEMORY_REGION(c, sizeof(Chunk));
  ASAN_POISON_MEMORY_REGION(p, cap + REDZONE);
#endif
}

bool checkArena;
NOASAN bool arenaCheck()
{
  Arena *a = E->arena;
  uint32_t off = 0;
  while (off < a->bump)
  {
    Chunk *c = (Chunk *)(a->mem + off);
    if (c->magic != 0x5AFEC0DE || c->used > 1 || c->size > c->cap) return false;
    unsigned char *p = a->mem + off + sizeof(Chunk);
    if (c->used) for (uint32_t i = c->size; i < c->cap + REDZONE; ++i) if (p[i] != RZ_BYTE) return false;
    off += sizeof(Chunk) + c->cap + REDZONE;
  }
  return off == a->bump;
}

NOASAN size_t arenaInUse()
{
  Arena *a = E->arena; size_t n = 0;
  for (uint32_t off = 0; off < a->bump;) { Chunk *c = (Chunk *)(a->mem + off); if (c->used) n += c->size; off += sizeof(Chunk) + c->cap + REDZONE; }
  return n;
}
size_t arenaTop() { return E->arena->bump; }
int failMallocs, skipMallocs;

// ---------------------------------------------------------------- snapshots
NOASAN static void save(int d)
{
  rawcopy(E->snapData[d], E->dataLo, E->dataLen);
  E->snapBump[d] = E->arena->bump;
  rawcopy(E->snapMem[d], E->arena, offsetof(Arena, mem) + E->arena->bump);
}
NOASAN static void restore(int d)
{
  rawcopy(E->dataLo, E->snapData[d], E->dataLen);
  rawcopy(E->arena, E->snapMem[d], offsetof(Arena, mem) + E->snapBump[d]);
  repoison();
}

static inline uint64_t mix(uint64_t a, uint64_t b)
{
  __uint128_t m = (__uint128_t)(a ^ 0x9E3779B97F4A7C15ull) * (b ^ 0xD1B54A32D192ED03ull);
  return (uint64_t)m ^ (uint64_t)(m >> 64);
}
NOASAN static uint64_t hashBytes(const unsigned char *p, size_t n, uint64_t h)
{
  size_t i = 0;
  uint64_t h2 = h ^ 0x123456789ull;
  for (; i + 16 <= n; i += 16)
  {
    uint64_t a, b;
    a = *(const uint64_t *)(p + i); b = *(const uint64_t *)(p + i + 8);
    h = mix(h ^ a, h2 ^ b); h2 = h2 * 0x9FB21C651E98DF25ull + b + (h >> 7);
  }
  uint64_t a = 0;
  for (; i < n; ++i) { a = (a << 8) | p[i]; if ((i & 7) == 7) { h = mix(h ^ a, h2); a = 0; } }
  return mix(h ^ a, h2 ^ n);
}
NOASAN static uint64_t imageHash()
{
  uint64_t h = hashBytes(E->dataLo, E->dataLen, 0x1234567);
  h = hashBytes((unsigned char *)E->arena, offsetof(Arena, mem) + E->arena->bump, h);
  return h ? h : 1;
}

// returns true if already explored with at least `rem` levels remaining
static bool seen(uint64_t h, int rem, bool &isNew)
{
  isNew = false;
  uint64_t key = h ^ (E->epoch * 0x9E3779B97F4A7C15ull);
  if (!key) key = 1;
  uint64_t i = key & E->tableMask;
  for (int probe = 0; probe < 64; ++probe, i = (i + 1) & E->tableMask)
  {
    uint64_t cur = E->table[i].h.load(std::memory_order_relaxed);
    if (cur == 0)
    {
      uint64_t exp = 0;
      if (E->table[i].h.compare_exchange_strong(exp, key)) { E->table[i].rem.store(rem + 1); isNew = true; return false; }
      cur = exp;
    }
    if (cur == key)
    {
      uint64_t r = E->table[i].rem.load();
      while (true)
      {
        if (r >= (uint64_t)rem + 1) return r > 0;
        if (E->table[i].rem.compare_exchange_weak(r, rem + 1)) return false;
      }
    }
  }
  E->sh->tableFull++;
  isNew = true;
  return false;
}

// ---------------------------------------------------------------- failure
void fail(const char *fmt, ...)
{
  Violation v;
  va_list ap; va_start(ap, fmt);
  vsnprintf(v.msg, sizeof v.msg, fmt, ap);
  va_end(ap);
  throw v;
}

bool known(const char *key, const char *fmt, ...)
{
  char msg[1200];
  va_list ap; va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  for (int i = 0; i < E->nknown; ++i)
    if (!strcmp(E->known[i].key, key))
    {
      Shared *s = E->sh;
      int z = 0;
      while (!s->knownLock.compare_exchange_weak(z, 1)) { z = 0; sched_yield(); }
      int j;
      for (j = 0; j < s->nknownHits; ++j) if (!strcmp(s->hits[j].key, key)) break;
      if (j < 32)
      {
        if (j == s->nknownHits)
        {
          snprintf(s->hits[j].key, 80, "%s", key);
          snprintf(s->hits[j].msg, 300, "%s", msg);
          s->nknownHits++;
        }
        s->hits[j].count++;
      }
      s->knownLock = 0;
      return true;
    }
  fail("%s", msg);
}

Tier tier() { return E->tier; }
void countCheck(uint64_t n) { E->sh->w[E->worker].checks += n; }
bool replaying() { return E->replay; }
int pathLen() { return E->len; }
void note(const char *fmt, ...)
{
  if (!E->replay) return;
  va_list ap; va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
}

// ---------------------------------------------------------------- search
static void tick() { E->sh->w[E->worker].ticks.fetch_add(1, std::memory_order_relaxed); }

static void reset_world()
{
  restore(MAXDEPTH + 1);
}

static void setup_world(int cfg)
{
  restore(MAXDEPTH + 1);
  E->sc->setup(cfg);
}

int profile() { if (!E || !E->sc) return 0; unsigned h = 0; for (char c : E->sc->name) h = h * 31 + (unsigned char)c; return (h + E->cfg) & 0xFF; }
static void recordViolation(const Violation &v)
{
  Shared *s = E->sh;
  int z = 0;
  if (s->violated.compare_exchange_strong(z, 1))
  {
    s->viol = v;
    s->vlen = E->len;
    memcpy(s->vpath, E->path, sizeof(uint64_t) * E->len);
    s->violated.store(2);
  }
  s->stop = 1;
}

static bool stepOp(uint64_t op)
{
  WorkerSlot &w = E->sh->w[E->worker];
  E->path[E->len] = op;
  w.path[E->len] = op;
  E->len++;
  w.len = E->len;
  tick();
  w.transitions++;
  E->sc->apply(op);
  if (checkArena && !arenaCheck()) fail("memory outside an allocated object was changed");
  return true;
}

static uint64_t stateHash()
{
  if (!E->sc->key) return imageHash();
  uint64_t h = E->sc->key();
  return h ? h : 1;
}
uint64_t hash(const void *p, size_t n, uint64_t h) { return hashBytes((const unsigned char *)p, n, h); }

static void dfs(int d)
{
  Scenario &sc = *E->sc;
  WorkerSlot &w = E->sh->w[E->worker];
  if (d == E->depth)
  {
    w.leaves++;
    if (sc.finish) sc.finish();
    bool isNew; seen(stateHash(), 0, isNew);
    if (isNew) w.states++;
    return;
  }
  {
    bool isNew;
    bool old = seen(stateHash(), sc.reach ? 1 : E->depth - d, isNew);
    if (isNew) w.states++;
    if (old && E->dedup && d > 0) { w.pruned++; return; }
  }
  save(d);
  bool any = false;
  const uint64_t turn = sc.reach ? E->worker * E->nops / MAXWORKERS : 0; // workers start with different operations
  for (uint64_t k = 0; k < E->nops; ++k)
  {
    uint64_t op = k + turn; if (op >= E->nops) op -= E->nops;
    if (E->sh->stop.load(std::memory_order_relaxed)) return;
    if (sc.enabled && !sc.enabled(op)) continue;
    any = true;
    stepOp(op);
    dfs(d + 1);
    restore(d);
    E->len--;
  }
  if (!any) { w.leaves++; if (sc.finish) sc.finish(); }
}

static void workerMain(int prefixLen, uint64_t total, uint64_t chunk)
{
  Shared *s = E->sh;
  WorkerSlot &w = s->w[E->worker];
  Scenario &sc = *E->sc;
  E->len = 0;
  try
  {
    setup_world(E->cfg);
    save(MAXDEPTH);
    while (!s->stop)
    {
      uint64_t b = s->next.fetch_add(chunk);
      if (b >= total) break;
      uint64_t e = b + chunk < total ? b + chunk : total;
      for (uint64_t i = b; i < e && !s->stop.load(std::memory_order_relaxed); ++i)
      {
        restore(MAXDEPTH);
        E->len = 0;
        uint64_t k = i;
        uint64_t ops[4];
        for (int j = prefixLen - 1; j >= 0; --j) { ops[j] = k % E->nops; k /= E->nops; }
        bool ok = true;
        for (int j = 0; j < prefixLen && ok; ++j)
        {
          if (sc.enabled && !sc.enabled(ops[j])) { ok = false; break; }
          stepOp(ops[j]);
        }
        if (!ok) { E->len = 0; continue; }
        dfs(prefixLen);
      }
    }
  }
  catch (const Violation &v)
  {
    recordViolation(v);
  }
  w.running = 0;
}

struct Result { bool violated; bool infra; bool hang; };

// run one path from scratch in a forked child; returns 0 ok, 1 violation, 2 crash, 3 hang
static int runPath(const uint64_t *path, int len, int cfg, char *msg, size_t msgLen, bool verbose)
{
  fflush(stdout);
  Shared *s = E->sh;
  s->violated = 0;
  s->w[0].len = 0;
  char errfile[300];
  snprintf(errfile, sizeof errfile, "%s/out/stderr.%d", E->verif, (int)getpid());
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!verbose)
    {
      int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) dup2(fd, 2);
    }
    E->worker = 0;
    E->replay = verbose;
    E->len = 0;
    try
    {
      setup_world(cfg);
      for (int i = 0; i < len; ++i)
      {
        if (verbose) printf("step %d: op %llu %s\n", i + 1, (unsigned long long)path[i],
                            E->sc->opname ? E->sc->opname(path[i]).c_str() : "");
        fflush(stdout);
        if (E->sc->enabled && !E->sc->enabled(path[i])) _exit(77);
        stepOp(path[i]);
      }
      if (E->sc->finish) E->sc->finish();
    }
    catch (const Violation &v) { recordViolation(v); }
    fflush(stdout);
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  while (true)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > 20) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(msg, msgLen, "does not terminate (hang) at step %d", s->w[0].len); return 3; }
    usleep(500);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { unlink(errfile); snprintf(msg, msgLen, "infeasible"); return 0; }
  if (s->violated) { snprintf(msg, msgLen, "%s", s->viol.msg); unlink(errfile); return 1; }
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
  {
    char det[400] = "";
    if (!verbose)
    {
      FILE *f = fopen(errfile, "r");
      if (f)
      {
        char line[400];
        while (fgets(line, sizeof line, f))
        {
          line[strcspn(line, "\n")] = 0;
          if (strstr(line, "ERROR:") || strstr(line, "runtime error") || strstr(line, "free") || strstr(line, " #0 ") || strstr(line, " #1 ") || strstr(line, " #2 "))
          {
            size_t l = strlen(det);
            snprintf(det + l, sizeof det - l, "%.150s | ", line);
          }
        }
        fclose(f);
      }
      unlink(errfile);
    }
    snprintf(msg, msgLen, "crash (signal %d, exit %d) at step %d: %s", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0, s->w[0].len, det);
    return 2;
  }
  unlink(errfile);
  return 0;
}

static std::string jesc(const char *s)
{
  std::string r;
  for (; *s; ++s)
  {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static std::string pathNames(const uint64_t *p, int len)
{
  std::string r;
  for (int i = 0; i < len; ++i)
  {
    if (i) r += " ; ";
    r += E->sc->opname ? E->sc->opname(p[i]) : std::to_string(p[i]);
  }
  return r;
}

struct Totals { uint64_t transitions = 0, states = 0, leaves = 0, checks = 0, pruned = 0; };

static int ncpu()
{
  int n = sysconf(_SC_NPROCESSORS_ONLN);
  return n < 1 ? 1 : n > MAXWORKERS ? MAXWORKERS : n;
}

// returns 0 ok, 1 violation (confirmed), 3 infrastructure problem
static int searchOne(Totals &tot, double deadline, bool &complete, std::string &vioText)
{
  Shared *s = E->sh;
  complete = true;
  int nw = ncpu();
  int prefixLen; uint64_t total, chunk;
  if (E->depth == 1) { prefixLen = 1; total = E->nops; chunk = total / (nw * 64); if (chunk < 1) chunk = 1; if (chunk > 4096) chunk = 4096; }
  else if (E->depth == 2 || E->nops * E->nops > 1000000) { prefixLen = 1; total = E->nops; chunk = 1; }
  else { prefixLen = 2; total = E->nops * E->nops; chunk = 1; }
  if (E->depth == 0) { prefixLen = 0; total = 1; chunk = 1; }
  if (E->sc->reach) { prefixLen = 0; total = nw; chunk = 1; }
  if (total < 64 && !E->sc->reach) nw = total < (uint64_t)nw ? (int)total : nw;
  s->next = 0; s->stop = 0; s->violated = 0;
  pid_t pids[MAXWORKERS];
  for (int i = 0; i < nw; ++i)
  {
    WorkerSlot &w = s->w[i];
    w.ticks = 0; w.transitions = w.leaves = w.checks = w.pruned = w.states = 0;
    w.len = 0; w.running = 1;
  }
  fflush(stdout); fflush(stderr);
  for (int i = 0; i < nw; ++i)
  {
    pids[i] = fork();
    if (pids[i] == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open("/dev/null", O_WRONLY);
      if (fd >= 0) { dup2(fd, 2); }
      E->worker = i;
      workerMain(prefixLen, total, chunk);
      _exit(0);
    }
    if (pids[i] < 0) { perror("fork"); return 3; }
  }
  int alive = nw;
  uint64_t last[MAXWORKERS]; double lastT[MAXWORKERS]; bool done[MAXWORKERS];
  for (int i = 0; i < nw; ++i) { last[i] = 0; lastT[i] = now(); done[i] = false; }
  int badWorker = -1;
  bool dead = false;
  while (alive)
  {
    for (int i = 0; i < nw; ++i)
    {
      if (done[i]) continue;
      int st;
      pid_t r = waitpid(pids[i], &st, WNOHANG);
      if (r == pids[i])
      {
        done[i] = true; --alive;
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
        {
          if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && dead)) { if (badWorker < 0) badWorker = i; s->stop = 1; }
        }
        continue;
      }
      uint64_t t = s->w[i].ticks;
      if (t != last[i]) { last[i] = t; lastT[i] = now(); }
      else if (now() - lastT[i] > 30 && s->w[i].running)
      {
        // stuck inside one operation
        if (badWorker < 0) badWorker = i;
        s->stop = 1;
        kill(pids[i], SIGKILL);
        lastT[i] = now();
      }
    }
    if (now() > deadline && !s->stop) { s->stop = 1; complete = false; }
    usleep(300);
  }
  for (int i = 0; i < nw; ++i)
  {
    WorkerSlot &w = s->w[i];
    tot.transitions += w.transitions; tot.leaves += w.leaves; tot.checks += w.checks; tot.pruned += w.pruned; tot.states += w.states;
  }
  uint64_t path[MAXPATH]; int len = 0; bool have = false;
  char orig[1600] = "";
  if (s->violated == 2) { len = s->vlen; memcpy(path, s->vpath, sizeof path); have = true; snprintf(orig, sizeof orig, "%s", s->viol.msg); }
  else if (badWorker >= 0) { len = s->w[badWorker].len; memcpy(path, s->w[badWorker].path, sizeof path); have = true; snprintf(orig, sizeof orig, "worker died or hung"); }
  if (!have) return 0;
  char m1[1700], m2[1700];
  int r1 = runPath(path, len, E->cfg, m1, sizeof m1, false);
  int r2 = runPath(path, len, E->cfg, m2, sizeof m2, false);
  if (r1 == 0 || r2 == 0 || r1 != r2)
  {
    fprintf(stderr, "unconfirmed: scenario %s cfg %d: '%s' did not reproduce (%d %d) path: %s\n", E->sc->name.c_str(), E->cfg, orig, r1, r2, pathNames(path, len).c_str());
    return 3;
  }
  // greedy shrink: drop steps while it still fails
  if (len > 1 && E->depth > 1)
  {
    for (int i = 0; i < len; )
    {
      uint64_t p2[MAXPATH]; int l2 = 0;
      for (int j = 0; j < len; ++j) if (j != i) p2[l2++] = path[j];
      char mm[1700];
      if (runPath(p2, l2, E->cfg, mm, sizeof mm, false) == r1)
      { len = l2; memcpy(path, p2, sizeof p2); snprintf(m1, sizeof m1, "%s", mm); }
      else ++i;
    }
  }
  char file[300];
  snprintf(file, sizeof file, "%s/out/%s-replay.json", E->verif, E->property);
  FILE *f = fopen(file, "w");
  if (f)
  {
    fprintf(f, "{\"property\":\"%s\",\"scenario\":\"%s\",\"config\":%d,\"tier\":\"%s\",\"path\":[", E->property, jesc(E->sc->name.c_str()).c_str(), E->cfg, E->tier == QUICK ? "quick" : "thorough");
    for (int i = 0; i < len; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)path[i]);
    fprintf(f, "],\"ops\":\"%s\",\"config_name\":\"%s\",\"message\":\"%s\"}\n", jesc(pathNames(path, len).c_str()).c_str(),
            jesc(E->sc->cfgname ? E->sc->cfgname(E->cfg).c_str() : "").c_str(), jesc(m1).c_str());
    fclose(f);
  }
  printf("scenario %s config %d (%s)\n  steps: %s\n  %s\n", E->sc->name.c_str(), E->cfg, E->sc->cfgname ? E->sc->cfgname(E->cfg).c_str() : "", pathNames(path, len).c_str(), m1);
  printf("VIOLATION property=%s replay=%s\n", E->property, file);
  vioText = m1;
  return 1;
}

static void loadKnown()
{
  char file[300];
  snprintf(file, sizeof file, "%s/known_findings.txt", E->verif);
  FILE *f = fopen(file, "r");
  if (!f) return;
  char line[1000];
  while (fgets(line, sizeof line, f))
  {
    line[strcspn(line, "\n")] = 0;
    char pid[16], key[80]; int n = 0;
    if (sscanf(line, "known: property=%15s key=%79s %n", pid, key, &n) >= 2 && n > 0 && !strcmp(pid, E->property) && E->nknown < 32)
    {
      snprintf(E->known[E->nknown].key, 80, "%s", key);
      snprintf(E->known[E->nknown].text, 400, "%s", line + n);
      E->nknown++;
    }
  }
  fclose(f);
}

int run(int argc, char **argv, const char *property, Scenario *scs, int n, const char *method,
        const char *const *assumptions, int nassumptions)
{
  // E is already set up by preinit(); see below.
  E->property = property;
  const char *v = getenv("VERIF_DIR");
  snprintf(E->verif, sizeof E->verif, "%s", v ? v : "/verif");
  char outdir[300];
  snprintf(outdir, sizeof outdir, "%s/out", E->verif); mkdir(outdir, 0755);
  snprintf(outdir, sizeof outdir, "%s/evidence", E->verif); mkdir(outdir, 0755);
  const char *t = getenv("VERIF_TIER");
  E->tier = (t && !strcmp(t, "thorough")) ? THOROUGH : QUICK;
  const char *replayFile = nullptr; const char *only = nullptr; bool evidence = true; double budget = E->tier == QUICK ? 600 : 3 * 3600;
  bool verbose = false; int onlyCfg = -1;
  for (int i = 1; i < argc; ++i)
  {
    if (!strcmp(argv[i], "--thorough")) E->tier = THOROUGH;
    else if (!strcmp(argv[i], "--quick")) E->tier = QUICK;
    else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replayFile = argv[++i];
    else if (!strcmp(argv[i], "--only") && i + 1 < argc) { only = argv[++i]; evidence = false; }
    else if (!strcmp(argv[i], "--cfg") && i + 1 < argc) { onlyCfg = atoi(argv[++i]); }
    else if (!strcmp(argv[i], "--budget") && i + 1 < argc) budget = atof(argv[++i]);
    else if (!strcmp(argv[i], "-v")) verbose = true;
  }
  const char *seedS = getenv("VERIF_SEED");
  int seed = seedS ? atoi(seedS) : 1;
  loadKnown();
  // pristine snapshot: whole image + empty arena, with E etc. fixed
  save(MAXDEPTH + 1);

  if (replayFile)
  {
    FILE *f = fopen(replayFile, "r");
    if (!f) { perror(replayFile); return 3; }
    char buf[20000]; size_t k = fread(buf, 1, sizeof buf - 1, f); buf[k] = 0; fclose(f);
    char scn[200] = ""; int cfg = 0; char tierS[20] = "quick";
    char *p = strstr(buf, "\"scenario\":\""); if (p) sscanf(p, "\"scenario\":\"%199[^\"]", scn);
    p = strstr(buf, "\"config\":"); if (p) cfg = atoi(p + 9);
    p = strstr(buf, "\"tier\":\""); if (p) sscanf(p, "\"tier\":\"%19[^\"]", tierS);
    if (!strcmp(tierS, "thorough")) E->tier = THOROUGH;
    uint64_t path[MAXPATH]; int len = 0;
    p = strstr(buf, "\"path\":[");
    if (p) { p += 8; while (*p && *p != ']') { path[len++] = strtoull(p, &p, 10); if (*p == ',') ++p; } }
    for (int i = 0; i < n; ++i) if (scs[i].name == scn)
    {
      E->sc = &scs[i]; E->cfg = cfg; E->nops = scs[i].nopsOf ? scs[i].nopsOf(cfg) : scs[i].nops; E->depth = len;
      char m[1700] = "";
      int r = runPath(path, len, cfg, m, sizeof m, true);
      printf(r ? "reproduced: %s\n" : "did not reproduce\n", m);
      return r ? 1 : 0;
    }
    fprintf(stderr, "scenario %s not found\n", scn);
    return 3;
  }

  double t0 = now();
  Totals all;
  std::string scj, samples;
  int rc = 0; bool exhaustive = true; int nsamples = 0; int violations = 0;
  for (int i = 0; i < n && rc == 0; ++i)
  {
    Scenario &sc = scs[i];
    if (only && sc.name != only) continue;
    double s0 = now();
    Totals st; int reached = sc.depth; bool scComplete = true; int used = 0;
    E->sc = &sc;
    for (int cfg = 0; cfg < sc.nconfigs && rc == 0; ++cfg)
    {
      if (onlyCfg >= 0 && cfg != onlyCfg) continue;
      if (sc.use && onlyCfg < 0 && !sc.use(cfg)) continue;
      ++used;
      E->cfg = cfg;
      E->nops = sc.nopsOf ? sc.nopsOf(cfg) : sc.nops;
      for (int d = (sc.deepen ? 1 : sc.depth); d <= sc.depth && rc == 0; ++d)
      {
        E->depth = d;
        E->epoch++;
        E->dedup = sc.dedup;
        { madvise(E->table, (E->tableMask + 1) * sizeof(Entry), MADV_REMOVE); }
        bool complete; std::string vt;
        Totals dt;
        rc = searchOne(dt, t0 + budget, complete, vt);
        st.transitions += dt.transitions; st.leaves += dt.leaves; st.checks += dt.checks; st.pruned += dt.pruned; st.states += dt.states;
        if (rc == 1) violations = 1;
        if (!complete) { scComplete = false; exhaustive = false; reached = d - 1 < reached ? d - 1 : reached; break; }
        if (verbose) printf("  %s cfg %d depth %d: trans %llu states %llu leaves %llu pruned %llu  %.1fs\n", sc.name.c_str(), cfg, d, (unsigned long long)dt.transitions, (unsigned long long)dt.states, (unsigned long long)dt.leaves, (unsigned long long)dt.pruned, now() - s0);
      }
      // sample: deterministic last-worker path
      if (nsamples < 12 && (cfg == 0 || cfg == sc.nconfigs - 1) && rc == 0)
      {
        WorkerSlot &w = E->sh->w[0];
        if (w.len > 0)
        {
          samples += std::string(nsamples ? "," : "") + "{\"scenario\":\"" + jesc(sc.name.c_str()) + "\",\"config\":\"" + jesc(sc.cfgname ? sc.cfgname(cfg).c_str() : std::to_string(cfg).c_str()) + "\",\"sequence\":\"" + jesc(pathNames(w.path, w.len).c_str()) + "\"}";
          ++nsamples;
        }
      }
    }
    char b[900];
    snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"configs\":%d,\"alphabet\":%llu,\"depth\":%d,\"transitions\":%llu,\"states\":%llu,\"maximal_sequences\":%llu,\"pruned_revisits\":%llu,\"oracle_comparisons\":%llu,\"pruning\":\"%s\",\"complete\":%s,\"wall_s\":%.2f}",
             scj.empty() ? "" : ",", jesc(sc.name.c_str()).c_str(), used, (unsigned long long)E->nops, reached, (unsigned long long)st.transitions, (unsigned long long)st.states, (unsigned long long)st.leaves, (unsigned long long)st.pruned, (unsigned long long)st.checks, sc.key ? "abstract state key" : sc.dedup ? "exact image" : "none", scComplete ? "true" : "false", now() - s0);
    scj += b;
    printf("%s: %s configs=%d depth=%d transitions=%llu states=%llu sequences=%llu checks=%llu %s%.1fs\n", property, sc.name.c_str(), used, reached, (unsigned long long)st.transitions, (unsigned long long)st.states, (unsigned long long)st.leaves, (unsigned long long)st.checks, scComplete ? "" : "INCOMPLETE ", now() - s0);
    fflush(stdout);
    all.transitions += st.transitions; all.leaves += st.leaves; all.checks += st.checks; all.pruned += st.pruned; all.states += st.states;
  }
  for (int j = 0; j < E->nknown && rc == 0 && !only; ++j)
  {
    const char *m = nullptr; uint64_t c = 0;
    for (int k = 0; k < E->sh->nknownHits; ++k) if (!strcmp(E->sh->hits[k].key, E->known[j].key)) { m = E->sh->hits[k].msg; c = E->sh->hits[k].count; }
    if (m) printf("KNOWN-FINDING: property=%s %s [seen %llu times, e.g. %s]\n", property, E->known[j].text, (unsigned long long)c, m);
  }
  if (evidence && rc != 3)
  {
    char file[300];
    snprintf(file, sizeof file, "%s/evidence/%s.json", E->verif, property);
    FILE *f = fopen(file, "w");
    if (!f) { perror(file); return 3; }
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{", property, E->tier == QUICK ? "quick" : "thorough", seed);
    fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"oracle_comparisons\":%llu,\"pruned_revisits\":%llu,\"exhaustive\":%s,", (unsigned long long)all.states, (unsigned long long)all.transitions, (unsigned long long)all.leaves, (unsigned long long)all.checks, (unsigned long long)all.pruned, exhaustive && rc == 0 ? "true" : "false");
    fprintf(f, "\"method\":\"%s\",\"scenarios\":[%s],\"samples\":[%s]},", jesc(method).c_str(), scj.c_str(), samples.c_str());
    fprintf(f, "\"assumptions\":[");
    for (int i = 0; i < nassumptions; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(assumptions[i]).c_str());
    fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, violations);
    fclose(f);
  }
  if (rc == 0) printf("%s: held on everything explored (%llu transitions, %.1fs)\n", property, (unsigned long long)all.transitions, now() - t0);
  return rc;
}

static void preinit()
{
  if (E) return;
  Engine *e = (Engine *)pvmap(sizeof(Engine));
  e->sh = (Shared *)shmap(sizeof(Shared));
  e->arena = (Arena *)pvmap(sizeof(Arena));
  uint64_t nent = 1ull << 26;
  e->table = (Entry *)shmap(nent * sizeof(Entry));
  e->tableMask = nent - 1;
  e->dataLo = (unsigned char *)&__data_start;
  e->dataLen = &_end - &__data_start;
  e->known = (Known *)pvmap(sizeof(Known) * 32);
  for (int i = 0; i < MAXDEPTH + 2; ++i)
  {
    e->snapData[i] = (unsigned char *)pvmap(e->dataLen + 4096);
    e->snapMem[i] = (unsigned char *)pvmap(sizeof(Arena));
  }
  E = e;
#if MC_ASAN
  ASAN_POISON_MEMORY_REGION(e->arena->mem, ARENA_SIZE);
#endif
}

}

// run before any other constructor, so that all allocations of this executable land in the arena
__attribute__((constructor(101))) static void mc_preinit() { mc::preinit(); }

void *operator new(size_t n) { mc::preinit(); return mc::arenaAlloc(n, false); }
void *operator new[](size_t n) { mc::preinit(); return mc::arenaAlloc(n, false); }
void operator delete(void *p) noexcept { mc::arenaFree(p); }
void operator delete[](void *p) noexcept { mc::arenaFree(p); }
void operator delete(void *p, size_t) noexcept { mc::arenaFree(p); }
void operator delete[](void *p, size_t) noexcept { mc::arenaFree(p); }

extern "C" void *__wrap_malloc(size_t n) { if (mc::failMallocs) { if (mc::skipMallocs) --mc::skipMallocs; else { --mc::failMallocs; return nullptr; } } return mc::arenaAlloc(n, false); }
extern "C" void __wrap_free(void *p) { mc::arenaFree(p); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { return mc::arenaAlloc(a * b, true); }
extern "C" void *__wrap_realloc(void *p, size_t n)
{
  void *q = mc::arenaAlloc(n, false);
  if (p) { memcpy(q, p, n); mc::arenaFree(p); }
  return q;
}
extern "C" char *__wrap_strdup(const char *s)
{
  size_t n = strlen(s) + 1;
  char *q = (char *)mc::arenaAlloc(n, false);
  memcpy(q, s, n);
  return q;
}
