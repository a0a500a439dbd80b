// dwsim runtime: a deterministic stand-in for libgomp, libtsan's hooks and the
// stdio/allocator calls of the code under test.
//
// Every worker of a simulated OpenMP team is a fiber; a seeded scheduler decides
// at every instrumented memory access, runtime call and file operation whether
// to hand over to another fiber (or to another simulated client thread).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
#define EXPORT __attribute__((visibility("default")))
#define MAXF 64
#define MAXC 16
#define STACK (512 * 1024)
#define MAXSW (1 << 20)

enum { EXIT_HANG = 91, EXIT_DEADLOCK = 92, EXIT_INTERNAL = 93, EXIT_MEMORY = 94 };

// ---------------------------------------------------------------- PRNG
static uint64_t rng_s;
static uint64_t rnd(void) {
  uint64_t z = (rng_s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }

// ---------------------------------------------------------------- fibers
typedef struct ctx { void *sp; } ctx_t;
void dwsim_switch(ctx_t *from, ctx_t *to);
__asm__(
    ".text\n.type dwsim_switch,@function\n.hidden dwsim_switch\n.globl dwsim_switch\ndwsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
    "movq %rsp,(%rdi)\nmovq (%rsi),%rsp\n"
    "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size dwsim_switch,.-dwsim_switch\n");

enum { FS_RUN, FS_BAR, FS_LOCK, FS_DONE };
typedef struct {
  ctx_t ctx;
  int state, id, err, nest;
  uint64_t prio;
  void *lock;
  // work sharing
  long ws_seq;
} fiber_t;

typedef struct ws {  // one work-sharing construct instance
  long seq;
  long next, end, incr, chunk;
  unsigned long long unext, uend, uincr, uchunk;
  int sched;  // 0 static 1 dynamic 2 guided
  bool up, init;
  int left;
  int claimed;
  void *copy;
} ws_t;
#define MAXWS 8

typedef struct {
  fiber_t f[MAXF];
  int n, cur, live, barcount;
  void (*fn)(void *);
  void *data;
  ctx_t main;
  ws_t ws[MAXWS];
  bool active;
  long region;
} team_t;

static team_t teams[MAXC];  // one per simulated client (0 = main thread)
static char *stacks[MAXC][MAXF];

// ---------------------------------------------------------------- config
enum { S_SEQ, S_RAND, S_LOCK, S_PCT, S_WRITE, S_EXPLICIT, S_BURST, S_CONFLICT };
typedef struct {
  int strategy;
  uint64_t seed;
  int64_t p1, p2;     // strategy parameters
  int team_limit;     // 0: as requested
  int shuffle;        // shuffle fiber order at start / at natural ends
  int assign;         // 0: keep static assignment
  int64_t step_cap;   // 0: none
  int client_mean;    // mean events between client switches
} cfg_t;

typedef struct {
  uint64_t clock;
  int32_t client, target, kind;  // kind 0 fiber preempt 1 fiber natural 2 client
  int32_t from;
} sw_t;

static struct {
  cfg_t c;
  int64_t budget0, budget;  // hook fast path
  uint64_t clock_base;      // clock when budget was loaded
  uint64_t cap_end;
  int64_t wcount;           // write countdown (S_WRITE)
  uint64_t digest, nsw, nregion, maxteam, nswc, naccess0;
  sw_t *sw;
  sw_t *ex;
  int64_t nex, iex;
  uint64_t pct_at[64];
  int npct, ipct;
  int64_t burst_left; int burst_lock;
  uint64_t nfib;  // fibers run in teams > 1
} S;

static __thread int tl_client;
static int cur_client;

static uint64_t now(void) { return S.clock_base + (uint64_t)(S.budget0 - S.budget); }
EXPORT uint64_t dwsim_clock(void) { return now(); }

static void load_budget(int64_t b) {
  S.clock_base = now();
  if (b < 1) b = 1;
  S.budget0 = S.budget = b;
}
static void die(int code, const char *msg) {
  dprintf(2, "dwsim: %s (clock %llu)\n", msg, (unsigned long long)now());
  _exit(code);
}
static void mix(uint64_t v) {
  S.digest ^= v + 0x9e3779b97f4a7c15ull + (S.digest << 6) + (S.digest >> 2);
  S.digest *= 0xff51afd7ed558ccdull;
  S.digest ^= S.digest >> 32;
}
EXPORT void dwsim_mix(uint64_t v) { mix(v); }

static void record(int kind, int client, int from, int target) {
  mix(now() * 64 + target + 7 * kind);
  if (S.nsw < MAXSW) {
    if (!S.sw) S.sw = __real_malloc(sizeof(sw_t) * MAXSW);
    S.sw[S.nsw] = (sw_t){now(), client, target, kind, from};
  }
  S.nsw++;
  if (kind == 2) S.nswc++;
}

// ---------------------------------------------------------------- clients
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXC];
static int c_state[MAXC];  // 0 absent 1 runnable 2 done
static int nclients, baton = -1, entered;
static int64_t c_left;

static int pick_client(int self) {
  int r[MAXC], n = 0;
  for (int i = 0; i < nclients; i++)
    if (c_state[i] == 1 && i != self) r[n++] = i;
  if (!n) return -1;
  return r[rndn(n)];
}
static void arm(void);
static void give_baton(int to) {
  baton = to;
  cur_client = to;
  pthread_cond_broadcast(&cv[to]);
}
static void wait_baton(int me) {
  while (baton != me) pthread_cond_wait(&cv[me], &mu);
}
static void watch_data(void);
EXPORT void dwsim_clients_begin(int n) {
  nclients = n;
  watch_data();
  entered = 0;
  baton = -1;
  for (int i = 0; i < n; i++) {
    c_state[i] = 1;
    pthread_cond_init(&cv[i], NULL);
  }
  c_left = S.c.client_mean > 0 ? 1 + (int64_t)rndn(2 * S.c.client_mean) : INT64_MAX / 4;
}
// explicit-mode lookup: is there an entry for this clock?
static sw_t *ex_at(uint64_t t, int kind) {
  while (S.iex < S.nex && S.ex[S.iex].clock < t) S.iex++;
  for (int64_t i = S.iex; i < S.nex && S.ex[i].clock == t; i++)
    if (S.ex[i].kind == kind) return &S.ex[i];
  return NULL;
}
EXPORT void dwsim_client_enter(int i) {
  pthread_mutex_lock(&mu);
  tl_client = i;
  entered++;
  if (entered == nclients) {
    S.budget--;  // distinct clock for the initial choice
    int to = -1;
    if (S.c.strategy == S_EXPLICIT) {
      sw_t *e = ex_at(now(), 2);
      to = e ? e->target : 0;
    } else
      to = (int)rndn(nclients);
    record(2, -1, -1, to);
    give_baton(to);
  }
  wait_baton(i);
  pthread_mutex_unlock(&mu);
}
static uint64_t client_mean(void) {  // long runs need not switch as often throughout
  return (uint64_t)(S.nswc > 15000 && S.c.client_mean < 3000 ? 3000 : S.c.client_mean);
}
static void client_switch(bool forced) {
  int me = tl_client;
  if (nclients < 2 || baton != me) return;
  int to = -1;
  if (S.c.strategy == S_EXPLICIT) {
    sw_t *e = ex_at(now(), 2);
    if (e && e->target < nclients && c_state[e->target] == 1) to = e->target;
    else if (forced)
      for (int i = 0; i < nclients; i++) if (c_state[i] == 1 && i != me) { to = i; break; }
  } else
    to = pick_client(me);
  if (to < 0 || to == me) return;
  record(2, me, me, to);
  pthread_mutex_lock(&mu);
  int e = errno;
  give_baton(to);
  wait_baton(me);
  errno = e;
  pthread_mutex_unlock(&mu);
}
EXPORT void dwsim_client_exit(int i) {
  pthread_mutex_lock(&mu);
  S.budget--;
  c_state[i] = 2;
  int to = -1;
  if (S.c.strategy == S_EXPLICIT) {
    sw_t *e = ex_at(now(), 2);
    if (e && e->target < nclients && c_state[e->target] == 1) to = e->target;
    else
      for (int k = 0; k < nclients; k++) if (c_state[k] == 1) { to = k; break; }
  } else
    to = pick_client(i);
  if (to >= 0) {
    record(2, i, i, to);
    give_baton(to);
  } else {
    baton = -1;
    nclients = 0;
    cur_client = 0;
    watch_data();
  }
  tl_client = 0;
  pthread_mutex_unlock(&mu);
}
// A voluntary yield from Python; `forced` if the client cannot proceed.
static bool arm_client_due(void) { return nclients > 1 && c_left <= 0; }
EXPORT void dwsim_yield(int forced) {
  if (nclients < 2) return;
  S.budget--;
  if (S.c.strategy == S_EXPLICIT) {
    client_switch(forced);
    return;
  }
  c_left -= 20;  // a Python line stands for about this many accesses
  if (forced || arm_client_due()) {
    c_left = 1 + (int64_t)rndn(2 * client_mean());
    client_switch(forced);
  }
}

// ---------------------------------------------------------------- scheduling
static void fiber_entry(void);

static int runnable(team_t *t, int *out) {
  int n = 0;
  for (int i = 0; i < t->n; i++)
    if (t->f[i].state == FS_RUN) out[n++] = i;
  return n;
}

static void arm(void) {
  int64_t b = INT64_MAX / 4;
  team_t *t = &teams[tl_client];
  bool par = t->active && t->live > 1;
  switch (S.c.strategy) {
    case S_RAND:
      if (par) b = 1 + (int64_t)rndn(2 * S.c.p1);
      break;
    case S_LOCK:
      if (par) b = S.c.p1;
      break;
    case S_BURST:
      if (par) {
        if (S.burst_left <= 0) {
          S.burst_lock = !S.burst_lock;
          S.burst_left = S.burst_lock ? S.c.p2 : 1;
        }
        S.burst_left--;
        b = S.burst_lock ? 1 + (int64_t)rndn(3) : 1 + (int64_t)rndn(2 * S.c.p1);
      }
      break;
    case S_PCT:
      if (S.ipct < S.npct) {
        uint64_t n = now();
        b = S.pct_at[S.ipct] > n ? (int64_t)(S.pct_at[S.ipct] - n) : 1;
      }
      break;
    case S_WRITE:
    case S_CONFLICT:
      if (par) b = 1;  // every access takes the slow path
      break;
    case S_EXPLICIT: {
      while (S.iex < S.nex && S.ex[S.iex].clock < now()) S.iex++;
      int64_t i = S.iex;
      while (i < S.nex && S.ex[i].clock <= now()) i++;
      if (i < S.nex) b = (int64_t)(S.ex[i].clock - now());
      break;
    }
  }
  if (nclients > 1 && S.c.strategy != S_EXPLICIT && c_left < b) b = c_left;
  if (S.cap_end) {
    int64_t r = (int64_t)(S.cap_end - now());
    if (r < 1) die(EXIT_HANG, "step cap exceeded");
    if (r < b) b = r;
  }
  load_budget(b);
}

static void tls_swap(int from, int to);
static void go(team_t *t, int to, int kind) {
  int from = t->cur;
  if (to == from) return;
  record(kind, tl_client, from, to);
  t->f[from].err = errno;
  t->cur = to;
  tls_swap(from, to);
  dwsim_switch(&t->f[from].ctx, &t->f[to].ctx);
  errno = teams[tl_client].f[teams[tl_client].cur].err;
}

static int choose(team_t *t, bool natural) {
  int r[MAXF], n = runnable(t, r);
  if (!n) return -1;
  if (S.c.strategy == S_EXPLICIT) {
    sw_t *e = ex_at(now(), natural ? 1 : 0);
    if (e && e->target >= 0 && e->target < t->n && t->f[e->target].state == FS_RUN)
      return e->target;
    return natural ? r[0] : t->cur;
  }
  if (S.c.strategy == S_PCT) {
    int b = r[0];
    for (int i = 1; i < n; i++)
      if (t->f[r[i]].prio > t->f[b].prio) b = r[i];
    return b;
  }
  if (S.c.strategy == S_SEQ && !S.c.shuffle) return r[0];
  if (S.c.strategy == S_LOCK) {
    for (int i = 1; i <= t->n; i++) {
      int k = (t->cur + i) % t->n;
      if (t->f[k].state == FS_RUN) return k;
    }
  }
  return r[rndn(n)];
}

// ---- conflict-directed: remember who touched what within this region, preempt
// at program points that have been seen to conflict. Keyed by exact addresses
// (never by a lossy hash) so that a seed means the same under ASLR.
#define SHN (1u << 20)
typedef struct { uintptr_t a; uint32_t ep; int16_t w; int16_t f; } shadow_t;
static shadow_t *sh[MAXC];
static uint32_t sh_used[MAXC], sh_epoch[MAXC];
#define PCN 4096
static uintptr_t pcs[PCN];
static uint64_t nconf;
static bool conflict(team_t *t, uintptr_t a, bool wr, uintptr_t pc) {
  int cl = tl_client;
  if (!sh[cl]) sh[cl] = __real_calloc(SHN, sizeof(shadow_t));
  if (!sh[cl]) die(EXIT_INTERNAL, "shadow");
  pc -= (uintptr_t)&dwsim_switch;
  uintptr_t g = a >> 2;
  uint32_t ep = sh_epoch[cl];
  uint32_t h = (uint32_t)((g * 0x9e3779b97f4a7c15ull) >> 44);
  bool c = false;
  while (sh[cl][h].ep == ep && sh[cl][h].a != g) h = (h + 1) & (SHN - 1);
  shadow_t *e = &sh[cl][h];
  if (e->ep == ep) {
    if (e->f != t->cur && (wr || e->w)) c = true;
    if (wr) { e->w = 1; e->f = (int16_t)t->cur; }
    else if (!e->w) e->f = (int16_t)t->cur;
  } else if (sh_used[cl] < SHN / 4 * 3) {
    sh_used[cl]++;
    *e = (shadow_t){g, ep, wr, (int16_t)t->cur};
  }
  size_t k = (pc * 0x9e3779b97f4a7c15ull) >> 52;
  if (c && pcs[k] != pc) { nconf++; pcs[k] = pc; }
  return pcs[k] == pc;
}

// ---- thread-local variables of the code under test: each simulated worker has
// its own copy, kept from region to region as a thread pool would.
static size_t tls_size, tls_off, tls_isz;
static const void *tls_img;
static int tls_known;
static char *tls_copy[MAXC][MAXF];
static int tls_cb(struct dl_phdr_info *i, size_t sz, void *d) {
  (void)sz; (void)d;
  uintptr_t me = (uintptr_t)&dwsim_switch;
  bool mine = false;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    uintptr_t s = i->dlpi_addr + p->p_vaddr;
    if (p->p_type == PT_LOAD && me >= s && me < s + p->p_memsz) mine = true;
  }
  if (!mine) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    if (p->p_type == PT_TLS && i->dlpi_tls_data) {
      tls_size = p->p_memsz;
      tls_isz = p->p_filesz;
      tls_img = (const void *)(i->dlpi_addr + p->p_vaddr);
      tls_off = (size_t)((char *)&tl_client - (char *)i->dlpi_tls_data);
    }
  }
  return 1;
}
static char *tls_base(void) { return (char *)&tl_client - tls_off; }
static void tls_begin(int n) {
  if (!tls_known) {
    tls_known = 1;
    dl_iterate_phdr(tls_cb, NULL);
    if (tls_size <= sizeof(tl_client) + 12) tls_size = 0;  // only our own variable
  }
  if (!tls_size) return;
  for (int i = 1; i < n; i++)
    if (!tls_copy[tl_client][i]) {
      tls_copy[tl_client][i] = __real_calloc(1, tls_size);
      memcpy(tls_copy[tl_client][i], tls_img, tls_isz);
    }
  if (!tls_copy[tl_client][0]) tls_copy[tl_client][0] = __real_calloc(1, tls_size);
  memcpy(tls_copy[tl_client][0], tls_base(), tls_size);
}
static void tls_swap(int from, int to) {
  if (!tls_size || from == to) return;
  int c = tl_client;
  if (from >= 0) memcpy(tls_copy[c][from], tls_base(), tls_size);
  memcpy(tls_base(), tls_copy[c][to], tls_size);
  tl_client = c;
}

static bool is_atomic;  // atomic accesses are not races
static __attribute__((noinline)) void slow(uintptr_t a, int wr, uintptr_t pc) {
  team_t *t = &teams[tl_client];
  bool par = t->active && t->live > 1, atomic = is_atomic;
  is_atomic = false;
  if (S.cap_end && now() >= S.cap_end) die(EXIT_HANG, "step cap exceeded");
  if (nclients > 1) {
    if (S.c.strategy == S_EXPLICIT) {
      if (ex_at(now(), 2)) client_switch(false);
    } else {
      c_left -= S.budget0;
      if (c_left <= 0) {
        c_left = 1 + (int64_t)rndn(2 * client_mean());
        client_switch(false);
        t = &teams[tl_client];
      }
    }
  }
  if (par) {
    bool sw = true;
    if (S.c.strategy == S_WRITE)
      sw = wr && (--S.wcount <= 0);
    else if (S.c.strategy == S_CONFLICT)
      sw = !atomic && a && conflict(t, a, wr, pc) && rndn(2);
    else if (S.c.strategy == S_EXPLICIT)
      sw = ex_at(now(), 0) != NULL;
    else if (S.c.strategy == S_PCT) {
      if (S.ipct < S.npct && now() >= S.pct_at[S.ipct]) {
        t->f[t->cur].prio = (uint64_t)(S.npct - S.ipct);  // below all initial priorities
        S.ipct++;
      } else sw = false;
    } else if (S.c.strategy == S_SEQ)
      sw = false;
    if (sw) {
      if (S.c.strategy == S_WRITE) S.wcount = 1 + (int64_t)rndn(2 * S.c.p1);
      int to = choose(t, false);
      if (to >= 0) go(t, to, 0);
    }
  } else if (S.c.strategy == S_PCT && S.ipct < S.npct && now() >= S.pct_at[S.ipct])
    S.ipct++;
  arm();
}

// ---- data the library keeps between calls (.data, .bss): another client may be
// handed control before any access to it
static uintptr_t data_lo, data_hi;
static bool data_hit;
static int64_t data_switches;
static int data_cb(struct dl_phdr_info *i, size_t sz, void *d) {
  (void)sz; (void)d;
  uintptr_t me = (uintptr_t)&dwsim_switch, lo = 0, hi = 0;
  bool mine = false;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    uintptr_t s = i->dlpi_addr + p->p_vaddr;
    if (p->p_type != PT_LOAD) continue;
    if (me >= s && me < s + p->p_memsz) mine = true;
    if (p->p_flags & PF_W) { if (!lo) lo = s; hi = s + p->p_memsz; }
  }
  if (!mine) return 0;
  data_lo = lo;
  data_hi = hi;
  return 1;
}
static __attribute__((noinline)) void data_switch(void) {
  data_hit = false;
  if (nclients < 2 || S.c.strategy == S_EXPLICIT) return;
  if (rndn(data_switches > 1000 ? 1000 : 2)) return;
  data_switches++;
  c_left -= S.budget0 - S.budget;
  load_budget(S.budget);
  client_switch(false);
  arm();
}

static int (*heap_bad)(uintptr_t, size_t);
static int (*heap_describe)(uintptr_t, size_t, char *, size_t);
static int watched;  // guards, the heap or static data are looked after
static uint64_t heap_checked;
// ---- guarded memory: the caller's tensors, compared with their true content
// right after the access that follows each store into them
typedef struct { uintptr_t lo, hi; const char *copy; } guard_t;
static guard_t guards[256];
static int nguards;
static uintptr_t guard_pend[256];
static int nguard_pend;
static uint64_t guard_stores, guard_bad, guard_clock;
static int guard_which = -1;
static void guard_verify(void) {
  for (int k = 0; k < nguard_pend; k++) {
    uintptr_t a = guard_pend[k];
    for (int i = 0; i < nguards; i++)
      if (a >= guards[i].lo && a < guards[i].hi) {
        size_t n = guards[i].hi - a < 8 ? guards[i].hi - a : 8;
        if (memcmp((void *)a, guards[i].copy + (a - guards[i].lo), n)) {
          if (!guard_bad++) { guard_clock = now(); guard_which = i; }
        }
      }
  }
  nguard_pend = 0;
}
static __attribute__((noinline)) void guard(uintptr_t a, int wr) {
  if (nguard_pend > 64) guard_verify();
  if (!wr) { if (nguard_pend) guard_verify(); return; }
  if (nguard_pend) guard_verify();
  for (int i = 0; i < nguards; i++)
    if (a >= guards[i].lo && a < guards[i].hi) {
      guard_stores++;
      guard_pend[nguard_pend++] = a;
      return;
    }
}
EXPORT void dwsim_guard(const guard_t *g, int n) {
  if (n > 256) n = 256;
  memcpy(guards, g, sizeof(guard_t) * (size_t)n);
  nguards = n;
  watched = heap_bad || nguards || nclients > 1;
  nguard_pend = 0;
  guard_stores = guard_bad = 0;
  guard_which = -1;
}
EXPORT int dwsim_guard_bad(uint64_t *stores, uint64_t *clock, int *which) {
  guard_verify();
  *stores = guard_stores;
  *clock = guard_clock;
  *which = guard_which;
  return (int)guard_bad;
}
// ---- known heap (rt/heap.c preloaded): every access must lie in live memory
static __attribute__((noinline)) void heap_report(uintptr_t a, size_t n, int wr, uintptr_t pc) {
  char d[200], m[400];
  Dl_info i;
  heap_describe(a, n, d, sizeof d);
  const char *fn = dladdr((void *)pc, &i) && i.dli_sname ? i.dli_sname : "?";
  snprintf(m, sizeof m, "%s of %zu bytes %s (near %s)", wr ? "write" : "read", n, d, fn);
  die(EXIT_MEMORY, m);
}
static void watch_data(void) {
  if (!data_hi) dl_iterate_phdr(data_cb, NULL);
  watched = heap_bad || nguards || nclients > 1;
  data_hit = false;
  data_switches = 0;
}
static __attribute__((noinline)) void watch(uintptr_t a, size_t n, int wr, uintptr_t pc) {
  if (nclients > 1 && a >= data_lo && a < data_hi && !(a >= (uintptr_t)teams && a < (uintptr_t)(teams + MAXC))) data_hit = true;
  if (nguards) guard(a, wr);
  if (heap_bad) {
    heap_checked++;
    if (heap_bad(a, n)) heap_report(a, n, wr, pc);
  }
}
EXPORT int dwsim_heap_on(int on) {
  heap_bad = on ? (int (*)(uintptr_t, size_t))dlsym(RTLD_DEFAULT, "dwsim_heap_bad") : NULL;
  heap_describe = (int (*)(uintptr_t, size_t, char *, size_t))dlsym(RTLD_DEFAULT, "dwsim_heap_describe");
  watched = heap_bad || nguards || nclients > 1;
  return heap_bad != NULL;
}
static inline __attribute__((always_inline)) void hook(void *a, size_t n, int wr, void *pc) {
  if (__builtin_expect(watched, 0)) watch((uintptr_t)a, n, wr, (uintptr_t)pc);
  if (__builtin_expect(--S.budget <= 0, 0)) slow((uintptr_t)a, wr, (uintptr_t)pc);
  else if (__builtin_expect(data_hit, 0)) data_switch();
}
static inline void ahook(void *a, int wr, void *pc) {
  is_atomic = true;
  hook(a, a ? 1 : 0, wr, pc);
  is_atomic = false;
}
#define PC __builtin_return_address(0)
#define RW(n)                                                       \
  EXPORT void __tsan_read##n(void *a) { hook(a, n, 0, PC); }            \
  EXPORT void __tsan_write##n(void *a) { hook(a, n, 1, PC); }           \
  EXPORT void __tsan_unaligned_read##n(void *a) { hook(a, n, 0, PC); }  \
  EXPORT void __tsan_unaligned_write##n(void *a) { hook(a, n, 1, PC); } \
  EXPORT void __tsan_volatile_read##n(void *a) { hook(a, n, 0, PC); }   \
  EXPORT void __tsan_volatile_write##n(void *a) { hook(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, size_t n) { hook(a, n, 0, PC); }
EXPORT void __tsan_write_range(void *a, size_t n) { hook(a, n, 1, PC); }
// block operations, a scheduling point for every 64 bytes
static void range(const void *p, size_t n, int wr, void *pc) {
  uintptr_t a = (uintptr_t)p, e = a + n;
  if (!n) return;
  if (heap_bad) {
    heap_checked++;
    if (heap_bad(a, n)) heap_report(a, n, wr, (uintptr_t)pc);
  }
  for (; a < e; a += 64) hook((void *)a, 1, wr, pc);
}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); return __real_memcpy(d, s, n); }
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); return __real_memmove(d, s, n); }
EXPORT void *__wrap_memset(void *d, int c, size_t n) { range(d, n, 1, PC); return __real_memset(d, c, n); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; hook(0, 0, 0, PC); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define ATOM(bits, T)                                                                                  \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int m) { (void)m; ahook((void *)a, 0, PC); return *a; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); *a = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = o + v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = o - v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = o & v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = o | v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = o ^ v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int m) { (void)m; ahook((void *)a, 1, PC); T o = *a; *a = ~(o & v); return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; ahook((void *)a, 1, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; ahook((void *)a, 1, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; ahook((void *)a, 1, PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

static void natural(team_t *t) {  // current fiber cannot go on
  S.budget--;                     // own clock tick
  int to = choose(t, true);
  if (to < 0) {
    if (t->live == 0) {
      t->f[t->cur].err = errno;
      dwsim_switch(&t->f[t->cur].ctx, &t->main);
      return;
    }
    die(EXIT_DEADLOCK, "deadlock: no runnable worker");
  }
  go(t, to, 1);
  arm();
}

static void fiber_entry(void) {
  for (;;) {
    team_t *t = &teams[tl_client];
    arm();
    t->fn(t->data);
    t = &teams[tl_client];
    fiber_t *f = &t->f[t->cur];
    f->state = FS_DONE;
    t->live--;
    // a barrier may now be complete for the rest only in broken programs
    natural(t);
    __builtin_trap();
  }
}

static void fiber_init(team_t *t, int i) {
  if (!stacks[tl_client][i]) {
    char *m = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) die(EXIT_INTERNAL, "mmap");
    mprotect(m, 4096, PROT_NONE);
    stacks[tl_client][i] = m;
  }
  void **sp = (void **)(stacks[tl_client][i] + STACK - 64);
  *--sp = 0;                     // alignment / fake return
  *--sp = (void *)fiber_entry;   // ret
  for (int k = 0; k < 6; k++) *--sp = 0;
  sp--;                          // mxcsr/fcw
  uint32_t mx; uint16_t fc;
  __asm__ volatile("stmxcsr %0" : "=m"(mx));
  __asm__ volatile("fnstcw %0" : "=m"(fc));
  ((uint32_t *)sp)[0] = mx;
  ((uint16_t *)sp)[2] = fc;
  memset(&t->f[i], 0, sizeof t->f[i]);
  t->f[i].ctx.sp = sp;
  t->f[i].id = i;
  t->f[i].prio = (1ull << 32) + (rnd() >> 1);
}

static int sim_max_threads = 8;
EXPORT void dwsim_set_max_threads(int n) { sim_max_threads = n; }

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  (void)flags;
  team_t *t = &teams[tl_client];
  S.nregion++;
  if (t->active) {  // nested: a team of one
    fiber_t *f = &t->f[t->cur];
    f->nest++;
    fn(data);
    f->nest--;
    return;
  }
  int want = n ? (int)n : sim_max_threads;
  if (want > MAXF) want = MAXF;
  if (S.c.team_limit > 0 && want > S.c.team_limit) want = S.c.team_limit;
  memset(t->ws, 0, sizeof t->ws);
  t->n = t->live = want;
  t->barcount = 0;
  t->fn = fn;
  t->data = data;
  t->region++;
  sh_epoch[tl_client]++;
  sh_used[tl_client] = 0;
  if ((uint64_t)want > S.maxteam) S.maxteam = want;
  if (want > 1) S.nfib += want;
  for (int i = 0; i < want; i++) fiber_init(t, i);
  t->active = true;
  S.budget--;
  t->cur = 0;
  int first = 0;
  if (want > 1) {
    first = choose(t, true);
    record(1, tl_client, -1, first);
  }
  t->cur = first;
  int e = errno;
  tls_begin(want);
  tls_swap(0, first);
  dwsim_switch(&t->main, &t->f[first].ctx);
  t = &teams[tl_client];
  tls_swap(t->cur, 0);
  t->active = false;
  errno = e;
  arm();
}
// split form (old ABI)
EXPORT void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned n) { (void)fn; (void)data; (void)n; die(EXIT_INTERNAL, "GOMP_parallel_start"); }
EXPORT void GOMP_parallel_end(void) {}

static team_t *T(void) { return &teams[tl_client]; }
static bool nolock_team(void) { return !T()->active; }
static bool solo(void) { return !T()->active || T()->f[T()->cur].nest > 0; }

EXPORT int omp_get_thread_num(void) { return solo() ? 0 : T()->cur; }
EXPORT int omp_get_num_threads(void) { return solo() ? 1 : T()->n; }
EXPORT int omp_get_max_threads(void) { return sim_max_threads; }
EXPORT int omp_get_num_procs(void) { return sim_max_threads; }
EXPORT int omp_in_parallel(void) { return !solo() && T()->n > 1; }
EXPORT void omp_set_num_threads(int n) { if (n > 0) sim_max_threads = n; }
EXPORT int omp_get_thread_limit(void) { return MAXF; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_dynamic(int n) { (void)n; }
EXPORT int omp_get_nested(void) { return 0; }
EXPORT void omp_set_nested(int n) { (void)n; }
EXPORT int omp_get_level(void) { return !solo(); }
EXPORT int omp_get_active_level(void) { return !solo() && T()->n > 1; }
EXPORT int omp_get_max_active_levels(void) { return 1; }
EXPORT void omp_set_max_active_levels(int n) { (void)n; }
EXPORT int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : l == 1 ? omp_get_thread_num() : -1; }
EXPORT int omp_get_team_size(int l) { return l == 0 ? 1 : l == 1 ? omp_get_num_threads() : -1; }
EXPORT double omp_get_wtime(void) { return 1e-9 * (double)now(); }
EXPORT double omp_get_wtick(void) { return 1e-9; }

// locks: any address
static void lock_acquire(void *l, uintptr_t *word) {
  (void)l;
  team_t *t = T();
  ahook(word, 1, PC);
  while (*word) {
    if (nolock_team()) {
      if (nclients > 1) { client_switch(true); continue; }
      die(EXIT_DEADLOCK, "deadlock: lock held");
    }
    t->f[t->cur].state = FS_LOCK;
    t->f[t->cur].lock = word;
    int r[MAXF];
    if (!runnable(t, r) && nclients > 1) {
      t->f[t->cur].state = FS_RUN;
      client_switch(true);
      continue;
    }
    natural(t);
  }
  *word = 1;
}
static void lock_release(uintptr_t *word) {
  *word = 0;
  team_t *t = T();
  if (!nolock_team())
    for (int i = 0; i < t->n; i++)
      if (t->f[i].state == FS_LOCK && t->f[i].lock == word) t->f[i].state = FS_RUN;
  for (int c = 0; c < MAXC; c++)
    if (c != tl_client && teams[c].active)
      for (int i = 0; i < teams[c].n; i++)
        if (teams[c].f[i].state == FS_LOCK && teams[c].f[i].lock == word) teams[c].f[i].state = FS_RUN;
  ahook(word, 1, PC);
}
static uintptr_t crit_word, atom_word;
EXPORT void GOMP_critical_start(void) { lock_acquire(NULL, &crit_word); }
EXPORT void GOMP_critical_end(void) { lock_release(&crit_word); }
EXPORT void GOMP_critical_name_start(void **p) { lock_acquire(NULL, (uintptr_t *)p); }
EXPORT void GOMP_critical_name_end(void **p) { lock_release((uintptr_t *)p); }
EXPORT void GOMP_atomic_start(void) { lock_acquire(NULL, &atom_word); }
EXPORT void GOMP_atomic_end(void) { lock_release(&atom_word); }
EXPORT void omp_init_lock(uintptr_t *l) { *l = 0; }
EXPORT void omp_destroy_lock(uintptr_t *l) { (void)l; }
EXPORT void omp_set_lock(uintptr_t *l) { lock_acquire(NULL, l); }
EXPORT void omp_unset_lock(uintptr_t *l) { lock_release(l); }
EXPORT int omp_test_lock(uintptr_t *l) { ahook(l, 1, PC); if (*l) return 0; *l = 1; return 1; }

EXPORT void GOMP_barrier(void) {
  if (solo()) return;
  team_t *t = T();
  t->barcount++;
  if (t->barcount == t->n) {
    t->barcount = 0;
    for (int i = 0; i < t->n; i++)
      if (t->f[i].state == FS_BAR) t->f[i].state = FS_RUN;
    hook(0, 0, 0, PC);
    return;
  }
  t->f[t->cur].state = FS_BAR;
  natural(t);
}
EXPORT bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

// ---- work sharing
static ws_t solo_ws;
static ws_t *ws_enter(bool *mine) {
  if (solo()) { memset(&solo_ws, 0, sizeof solo_ws); *mine = true; solo_ws.left = 1; return &solo_ws; }
  team_t *t = T();
  fiber_t *f = &t->f[t->cur];
  f->ws_seq++;
  for (int i = 0; i < MAXWS; i++)
    if (t->ws[i].init && t->ws[i].seq == f->ws_seq) { *mine = false; return &t->ws[i]; }
  for (int i = 0; i < MAXWS; i++)
    if (!t->ws[i].init) {
      memset(&t->ws[i], 0, sizeof(ws_t));
      t->ws[i].init = true;
      t->ws[i].seq = f->ws_seq;
      t->ws[i].left = t->n;
      *mine = true;
      return &t->ws[i];
    }
  die(EXIT_INTERNAL, "too many work-sharing constructs in flight");
  return NULL;
}
static ws_t *ws_cur(void) {
  if (solo()) return &solo_ws;
  team_t *t = T();
  for (int i = 0; i < MAXWS; i++)
    if (t->ws[i].init && t->ws[i].seq == t->f[t->cur].ws_seq) return &t->ws[i];
  die(EXIT_INTERNAL, "no work-sharing construct");
  return NULL;
}
static void ws_leave(ws_t *w) { if (--w->left == 0) w->init = false; }
static bool ws_next(ws_t *w, long *is, long *ie) {
  hook(w, 1, 1, PC);
  long total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
  if (total <= 0) return false;
  long c = w->chunk > 0 ? w->chunk : 1;
  int nt = omp_get_num_threads();
  if (w->sched == 2) { long g = total / (nt ? nt : 1); if (g > c) c = g; }
  if (w->sched == 0 && w->chunk <= 0) c = (total + nt - 1) / nt;
  if (c > total) c = total;
  *is = w->next;
  w->next += c * w->incr;
  *ie = w->next;
  return true;
}
static bool loop_start(long s, long e, long inc, long chunk, int sched, long *is, long *ie) {
  bool m;
  ws_t *w = ws_enter(&m);
  if (m) { w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; w->sched = sched; }
  return is ? ws_next(w, is, ie) : true;
}
static bool loop_next(long *is, long *ie) { return ws_next(ws_cur(), is, ie); }
#define LOOPK(name, k)                                                                                             \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, k, is, ie); } \
  EXPORT bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOPK(static, 1) LOOPK(dynamic, 1) LOOPK(guided, 2) LOOPK(nonmonotonic_dynamic, 1) LOOPK(nonmonotonic_guided, 2)
EXPORT bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, is, ie); }
EXPORT bool GOMP_loop_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, is, ie); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, is, ie); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
EXPORT bool GOMP_loop_start(long s, long e, long inc, long sched, long chunk, long *is, long *ie, uintptr_t *red, void **mem) {
  (void)red;
  if (mem) die(EXIT_INTERNAL, "GOMP_loop_start with shared memory");
  return loop_start(s, e, inc, chunk, (sched & 0xff) == 3 ? 2 : 1, is, ie);
}
EXPORT void GOMP_loop_end(void) { ws_t *w = ws_cur(); ws_leave(w); GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) { ws_leave(ws_cur()); }
EXPORT bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
typedef struct { void (*fn)(void *); void *data; long s, e, i, c; int k; } pl_t;
#define PLOOP(name, k)                                                                                             \
  EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned fl) { parallel_loop(fn, data, n, s, e, i, c, k, fl); }
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, int k, unsigned fl);
PLOOP(static, 1) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
EXPORT void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned fl) { parallel_loop(fn, data, n, s, e, i, 1, 1, fl); }
EXPORT void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned fl) { parallel_loop(fn, data, n, s, e, i, 1, 1, fl); }
EXPORT void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned fl) { parallel_loop(fn, data, n, s, e, i, 1, 1, fl); }
static void pl_tramp(void *d) {
  pl_t *p = d;
  bool m;
  ws_t *w = ws_enter(&m);
  if (m) { w->next = p->s; w->end = p->e; w->incr = p->i; w->chunk = p->c; w->sched = p->k; }
  p->fn(p->data);
}
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, int k, unsigned fl) {
  pl_t p = {fn, data, s, e, i, c, k};
  GOMP_parallel(pl_tramp, &p, n, fl);
}
EXPORT bool GOMP_single_start(void) {
  bool m;
  ws_t *w = ws_enter(&m);
  ws_leave(w);
  hook(0, 0, 1, PC);
  return m;
}
EXPORT unsigned GOMP_sections_start(unsigned n) {
  bool m;
  ws_t *w = ws_enter(&m);
  if (m) { w->next = 1; w->end = (long)n + 1; w->incr = 1; w->chunk = 1; w->sched = 1; }
  long a, b;
  return ws_next(w, &a, &b) ? (unsigned)a : 0;
}
EXPORT unsigned GOMP_sections_next(void) { long a, b; return ws_next(ws_cur(), &a, &b) ? (unsigned)a : 0; }
EXPORT void GOMP_sections_end(void) { GOMP_loop_end(); }
EXPORT void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
EXPORT void GOMP_ordered_start(void) {}
EXPORT void GOMP_ordered_end(void) {}
// tasks: executed at once by the encountering worker (a legal schedule)
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool ifc, unsigned fl, void **dep, int pri, void *det) {
  (void)ifc; (void)fl; (void)dep; (void)pri; (void)det;
  if (cpyfn || sz > 0) {
    char *raw = __real_malloc((size_t)sz + (size_t)al + 16);
    char *arg = (char *)(((uintptr_t)raw + (uintptr_t)al) & ~((uintptr_t)(al ? al : 1) - 1));
    if (cpyfn) cpyfn(arg, data); else memcpy(arg, data, (size_t)sz);
    fn(arg);
    __real_free(raw);
  } else fn(data);
}
EXPORT void GOMP_taskwait(void) { hook(0, 0, 0, PC); }
EXPORT void GOMP_taskyield(void) { hook(0, 0, 0, PC); }
EXPORT void GOMP_taskgroup_start(void) {}
EXPORT void GOMP_taskgroup_end(void) {}
EXPORT bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
EXPORT bool GOMP_cancellation_point(int w) { (void)w; return false; }

// ---------------------------------------------------------------- file system
enum { OP_OPEN, OP_WRITE, OP_READ, OP_SEEK, OP_CLOSE, OP_FLUSH, OP_ALLOC, OP_N };
enum { A_FAIL, A_SHORT, A_LATE };
typedef struct { int op, action, err; int64_t nth, arg; int persist; } rule_t;
static rule_t rules[32];
static int nrules;
static uint64_t opcount[OP_N], fired[OP_N][3], opfail_total, bytes_written, bytes_read;
static int rule_hit[32];

static rule_t *match(int op) {
  uint64_t n = opcount[op]++;
  mix(n * 16 + op);
  ahook(&opcount[op], 1, PC);
  for (int i = 0; i < nrules; i++) {
    rule_t *r = &rules[i];
    if (r->op == op && ((uint64_t)r->nth == n || (r->persist && n >= (uint64_t)r->nth))) {
      rule_hit[i]++;
      fired[op][r->action]++;
      opfail_total++;
      return r;
    }
  }
  return NULL;
}
#define REAL(f) __real_##f
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
static FILE *do_open(const char *p, const char *m) {
  if (heap_bad) range(p, 1, 0, PC), range(p, strlen(p) + 1, 0, PC);
  rule_t *r = match(OP_OPEN);
  if (r) { errno = r->err; return NULL; }
  return __real_fopen(p, m);
}
EXPORT FILE *__wrap_fopen(const char *p, const char *m) { return do_open(p, m); }
EXPORT FILE *__wrap_fopen64(const char *p, const char *m) { return do_open(p, m); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
EXPORT size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) {
  range(b, s * n, 0, PC);
  rule_t *r = match(OP_WRITE);
  if (r) {
    size_t k = 0;
    if (r->action == A_SHORT && n > 0) {
      if (n == 1) {  // one big element: part of it reaches the disk
        size_t part = s * (size_t)(r->arg % 100) / 100;
        (void)!__real_fwrite(b, 1, part, f);
      } else {
        k = (size_t)((double)n * (double)(r->arg % 100) / 100.0);
        if (k >= n) k = n - 1;
        k = __real_fwrite(b, s, k, f);
      }
    }
    errno = r->err;
    return k;
  }
  bytes_written += s * n;
  return __real_fwrite(b, s, n, f);
}
size_t __real_fread(void *, size_t, size_t, FILE *);
EXPORT size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
  range(b, s * n, 1, PC);
  rule_t *r = match(OP_READ);
  if (r) {
    size_t k = 0;
    if (r->action == A_SHORT && n > 1) {
      k = (size_t)((double)n * (double)(r->arg % 100) / 100.0);
      if (k >= n) k = n - 1;
      k = __real_fread(b, s, k, f);
    }
    errno = r->err;
    return k;
  }
  bytes_read += s * n;
  return __real_fread(b, s, n, f);
}
int __real_fseek(FILE *, long, int);
int __real_fseeko(FILE *, off_t, int);
EXPORT int __wrap_fseek(FILE *f, long o, int w) {
  rule_t *r = match(OP_SEEK);
  if (r) { errno = r->err; return -1; }
  return __real_fseek(f, o, w);
}
EXPORT int __wrap_fseeko(FILE *f, off_t o, int w) {
  rule_t *r = match(OP_SEEK);
  if (r) { errno = r->err; return -1; }
  return __real_fseeko(f, o, w);
}
EXPORT int __wrap_fseeko64(FILE *f, off_t o, int w) { return __wrap_fseeko(f, o, w); }
int __real_fflush(FILE *);
EXPORT int __wrap_fflush(FILE *f) {
  rule_t *r = match(OP_FLUSH);
  if (r) { errno = r->err; return EOF; }
  return __real_fflush(f);
}
int __real_fclose(FILE *);
EXPORT int __wrap_fclose(FILE *f) {
  rule_t *r = match(OP_CLOSE);
  if (r) {
    // the data written last never reached the disk
    int fd = fileno(f);
    __real_fflush(f);
    int fl = fcntl(fd, F_GETFL);
    struct stat st;
    if ((fl & O_ACCMODE) != O_RDONLY && !fstat(fd, &st) && st.st_size > 0) {
      off_t keep = st.st_size * (r->arg % 100) / 100;
      if (keep >= st.st_size) keep = st.st_size - 1;
      (void)!ftruncate(fd, keep);
    }
    __real_fclose(f);
    errno = r->err;
    return EOF;
  }
  return __real_fclose(f);
}
// descriptor based I/O, in case the code under test moves to it
int __real_open(const char *, int, ...);
EXPORT int __wrap_open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  rule_t *r = match(OP_OPEN);
  if (r) { errno = r->err; return -1; }
  return __real_open(p, fl, md);
}
EXPORT int __wrap_open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  return __wrap_open(p, fl, md);
}
#define IO(name, op, sig, args, cnt)                                         \
  ssize_t __real_##name sig;                                                 \
  EXPORT ssize_t __wrap_##name sig {                                         \
    range(b, n, op == OP_WRITE ? 0 : 1, PC);                                 \
    rule_t *r = match(op);                                                   \
    if (r) {                                                                 \
      if (r->action == A_SHORT) { cnt = cnt * (size_t)(r->arg % 100) / 100; return __real_##name args; } \
      errno = r->err;                                                        \
      return -1;                                                             \
    }                                                                        \
    return __real_##name args;                                               \
  }
IO(write, OP_WRITE, (int fd, const void *b, size_t n), (fd, b, n), n)
IO(read, OP_READ, (int fd, void *b, size_t n), (fd, b, n), n)
IO(pwrite, OP_WRITE, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), n)
IO(pread, OP_READ, (int fd, void *b, size_t n, off_t o), (fd, b, n, o), n)
IO(pwrite64, OP_WRITE, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), n)
IO(pread64, OP_READ, (int fd, void *b, size_t n, off_t o), (fd, b, n, o), n)
int __real_close(int);
EXPORT int __wrap_close(int fd) {
  rule_t *r = match(OP_CLOSE);
  if (r) { __real_close(fd); errno = r->err; return -1; }
  return __real_close(fd);
}
// allocations made by the code under test
static int poison_byte = -1;
static int64_t live_blocks;  // allocated by the code under test and not freed
void __real_free(void *);
EXPORT void __wrap_free(void *p) {
  if (p) __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED);
  __real_free(p);
}
static void *counted(void *p) {
  if (p) __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED);
  return p;
}
EXPORT void *__wrap_malloc(size_t n) {
  rule_t *r = match(OP_ALLOC);
  if (r) { errno = ENOMEM; return NULL; }
  void *p = __real_malloc(n);
  if (p && poison_byte >= 0) memset(p, poison_byte, n);
  return counted(p);
}
EXPORT void *__wrap_calloc(size_t a, size_t b) {
  rule_t *r = match(OP_ALLOC);
  if (r) { errno = ENOMEM; return NULL; }
  return counted(__real_calloc(a, b));
}
EXPORT void *__wrap_realloc(void *q, size_t n) {
  rule_t *r = match(OP_ALLOC);
  if (r) { errno = ENOMEM; return NULL; }
  void *p = __real_realloc(q, n);
  if (!q) counted(p);
  return p;
}
int __real_posix_memalign(void **, size_t, size_t);
EXPORT int __wrap_posix_memalign(void **p, size_t a, size_t n) {
  rule_t *r = match(OP_ALLOC);
  if (r) return ENOMEM;
  int e = __real_posix_memalign(p, a, n);
  if (!e && poison_byte >= 0) memset(*p, poison_byte, n);
  if (!e) counted(*p);
  return e;
}
void *__real_aligned_alloc(size_t, size_t);
EXPORT void *__wrap_aligned_alloc(size_t a, size_t n) {
  rule_t *r = match(OP_ALLOC);
  if (r) { errno = ENOMEM; return NULL; }
  void *p = __real_aligned_alloc(a, n);
  if (p && poison_byte >= 0) memset(p, poison_byte, n);
  return counted(p);
}

// ---------------------------------------------------------------- control API
EXPORT void dwsim_config(int strategy, uint64_t seed, int64_t p1, int64_t p2, int team_limit, int shuffle, int64_t step_cap, int client_mean) {
  S.c = (cfg_t){strategy, seed, p1 > 0 ? p1 : 1, p2 > 0 ? p2 : 1, team_limit, shuffle, 0, step_cap, client_mean};
  rng_s = seed * 0x2545f4914f6cdd1dull + 0x1234567;
  rnd();
  S.npct = S.ipct = 0;
  S.iex = 0;
  S.wcount = 1 + (int64_t)rndn(2 * S.c.p1);
  S.burst_left = 0; S.burst_lock = 0;
  if (strategy == S_PCT) {
    S.npct = (int)(S.c.p2 > 60 ? 60 : S.c.p2);
    for (int i = 0; i < S.npct; i++) S.pct_at[i] = now() + rndn((uint64_t)S.c.p1);
    for (int i = 0; i < S.npct; i++)
      for (int k = i + 1; k < S.npct; k++)
        if (S.pct_at[k] < S.pct_at[i]) { uint64_t x = S.pct_at[i]; S.pct_at[i] = S.pct_at[k]; S.pct_at[k] = x; }
  }
  if (strategy == S_CONFLICT) memset(pcs, 0, sizeof pcs);
  S.cap_end = step_cap > 0 ? now() + (uint64_t)step_cap : 0;
  load_budget(1);
  if (strategy != S_EXPLICIT) arm(); else load_budget(INT64_MAX / 4);
}
// reset clock, logs and counters: the beginning of a simulated run
EXPORT void dwsim_reset(void) {
  sw_t *sw = S.sw, *ex = S.ex;
  memset(&S, 0, sizeof S);
  S.sw = sw; S.ex = ex;
  S.budget0 = S.budget = INT64_MAX / 4;
  for (int c = 0; c < MAXC; c++) teams[c].region = 0;
  memset(pcs, 0, sizeof pcs);
  nconf = 0;
  nrules = 0;
  memset(opcount, 0, sizeof opcount);
  memset(fired, 0, sizeof fired);
  memset(rule_hit, 0, sizeof rule_hit);
  opfail_total = bytes_written = bytes_read = 0;
}
EXPORT void dwsim_explicit(const sw_t *e, int64_t n) {
  __real_free(S.ex);
  S.ex = __real_malloc(sizeof(sw_t) * (size_t)(n ? n : 1));
  memcpy(S.ex, e, sizeof(sw_t) * (size_t)n);
  S.nex = n;
  S.iex = 0;
  if (S.c.strategy == S_EXPLICIT) arm();
}
EXPORT void dwsim_rules(const rule_t *r, int n) {
  if (n > 32) n = 32;
  memcpy(rules, r, sizeof(rule_t) * (size_t)n);
  nrules = n;
  memset(rule_hit, 0, sizeof rule_hit);
}
EXPORT void dwsim_poison(int b) { poison_byte = b; }
EXPORT uint64_t dwsim_nswitch(void) { return S.nsw; }
EXPORT uint64_t dwsim_get_switches(sw_t *out, uint64_t cap) {
  uint64_t n = S.nsw < MAXSW ? S.nsw : MAXSW;
  if (n > cap) n = cap;
  if (n) memcpy(out, S.sw, n * sizeof(sw_t));
  return n;
}
EXPORT uint64_t dwsim_stat(int i) {
  switch (i) {
    case 0: return S.digest;
    case 1: return S.nsw;
    case 2: return S.nregion;
    case 3: return S.maxteam;
    case 4: return S.nswc;
    case 5: return opfail_total;
    case 6: return bytes_written;
    case 7: return bytes_read;
    case 8: return nconf;
    case 9: return S.nfib;
    case 10: return now();
    case 11: return (uint64_t)live_blocks;
    case 12: return heap_checked;
  }
  if (i >= 100 && i < 100 + OP_N) return opcount[i - 100];
  if (i >= 200 && i < 200 + 3 * OP_N) return fired[(i - 200) / 3][(i - 200) % 3];
  if (i >= 300 && i < 332) return (uint64_t)rule_hit[i - 300];
  return 0;
}
EXPORT int dwsim_sizeof_sw(void) { return (int)sizeof(sw_t); }
