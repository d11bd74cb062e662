/* Simulation runtime for generated BHaH programs.
 *
 * Replaces the OpenMP runtime (GOMP_*, omp_*), the ThreadSanitizer runtime (__tsan_*), stdio file opening, file-system
 * calls, the clock and the allocator of a generated program.  All "threads" are fibers of one OS thread; a seeded
 * scheduler decides at every instrumented memory access and synchronisation operation whether another one runs next.
 * Configuration: file named by CSIM_CFG (key value lines).  Log: file named by CSIM_LOG.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* the linker redirects these names (also here) to __wrap_*: reach the real ones explicitly */
extern FILE *__real_fopen(const char *, const char *);
extern int __real_fileno(FILE *);
extern int __real_rename(const char *, const char *);
extern int __real_unlink(const char *);
extern int __real_access(const char *, int);
extern void *__real_malloc(size_t);
extern void __real_free(void *);

#define NT 8
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

/* ---------------------------------------------------------------- configuration */
static u64 cfg_seed = 1;
static int cfg_threads = 1, cfg_strategy = 0, cfg_fill = -1, cfg_clock = 0, cfg_detect = 1;
static double cfg_mean = 200.0;
static u64 cfg_lo = 0, cfg_hi = ~0ULL;
typedef struct { long op; char kind[16]; long arg; bool ck, used; } fault_t; /* ck: op counts operations on checkpoint files only */
static fault_t faults[64];
static int nfaults;
static long clk_faults_at[64];
static double clk_faults_by[64];
static int nclk;
static FILE *logf_;

static u64 rng_s;
static u64 rnd(void) {
  u64 z = (rng_s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

static u64 n_access, n_switch, n_regions, n_races, n_ops, n_clock, n_barriers, n_locks, n_mallocs;
static u64 sched_hash = 1469598103934665603ULL;
static void mix(u64 v) { sched_hash = (sched_hash ^ v) * 1099511628211ULL; }

static int finished;
static void finish(const char *why) {
  if (finished || !logf_) return;
  finished = 1;
  fprintf(logf_, "end %s access %lu switch %lu regions %lu races %lu ops %lu clock %lu barriers %lu locks %lu hash %016lx\n", why, n_access, n_switch,
          n_regions, n_races, n_ops, n_clock, n_barriers, n_locks, sched_hash);
  fclose(logf_);
  logf_ = NULL;
}
static void at_exit(void) { finish("exit"); }

__attribute__((constructor(101))) static void init(void) {
  const char *p = getenv("CSIM_CFG"), *l = getenv("CSIM_LOG");
  if (l) logf_ = __real_fopen(l, "w");
  if (p) {
    FILE *f = __real_fopen(p, "r");
    char k[64], v[256];
    while (f && fscanf(f, "%63s %255s", k, v) == 2) {
      if (!strcmp(k, "seed")) cfg_seed = strtoull(v, 0, 10);
      else if (!strcmp(k, "threads")) cfg_threads = atoi(v);
      else if (!strcmp(k, "strategy")) cfg_strategy = atoi(v);
      else if (!strcmp(k, "mean")) cfg_mean = atof(v);
      else if (!strcmp(k, "lo")) cfg_lo = strtoull(v, 0, 10);
      else if (!strcmp(k, "hi")) cfg_hi = strtoull(v, 0, 10);
      else if (!strcmp(k, "fill")) cfg_fill = atoi(v);
      else if (!strcmp(k, "clock")) cfg_clock = atoi(v);
      else if (!strcmp(k, "detect")) cfg_detect = atoi(v);
      else if (!strcmp(k, "jump") && nclk < 64) { sscanf(v, "%ld:%lf", &clk_faults_at[nclk], &clk_faults_by[nclk]); nclk++; }
      else if (!strcmp(k, "fault") && nfaults < 64) {
        fault_t *q = &faults[nfaults++];
        q->arg = 0;
        q->ck = v[0] == 'c';
        sscanf(v + (q->ck ? 2 : 0), "%ld:%15[a-z]:%ld", &q->op, q->kind, &q->arg);
      }
    }
    if (f) fclose(f);
  }
  if (cfg_threads < 1) cfg_threads = 1;
  if (cfg_threads > NT) cfg_threads = NT;
  rng_s = cfg_seed;
  atexit(at_exit);
}

/* ---------------------------------------------------------------- fibers */
typedef struct team team_t;
typedef struct {
  void *sp;
  void *stack;
  int id, state; /* 0 runnable, 1 at barrier, 2 done, 3 waiting for lock */
  void *lock;
  u32 vc[NT];
  u64 ws;
  long single;
  int prio;
} fiber_t;
#define MAXWS 4096
typedef struct { u64 no; long next, end, incr, chunk; int mode; bool used; int done; int single_taken; u32 vc[NT]; } ws_t;
struct team {
  int n, live, at_barrier;
  void (*fn)(void *);
  void *data;
  fiber_t f[NT];
  ws_t ws[64];
  u32 barrier_vc[NT];
};
static team_t T;
static bool in_par;
static int cur;
static u32 region_gen = 0;
static double countdown = 0;
#define STACK (8u << 20)
static void *stacks[NT];

__attribute__((naked, noinline)) static void sw(void **save, void *load) {
  __asm__ volatile("pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
                   "subq $8, %rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
                   "movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
                   "ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8, %rsp\n"
                   "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}

static void reset_countdown(void) {
  /* geometric-like interval with the configured mean, at least one access */
  double u = (rnd() >> 11) * (1.0 / 9007199254740992.0);
  double m = cfg_mean;
  if (cfg_strategy == 2) m = (rnd() & 7) ? 3.0 : 40.0 * cfg_mean; /* bursts */
  countdown = 1.0 + (-__builtin_log1p(-u)) * m;
}
static void go(int to) {
  if (to == cur) return;
  int from = cur;
  cur = to;
  n_switch++;
  mix(n_access * 31 + to);
  sw(&T.f[from].sp, T.f[to].sp);
}
static int pick(bool include_self) {
  int c[NT], n = 0;
  for (int i = 0; i < T.n; i++)
    if ((T.f[i].state == 0 || (T.f[i].state == 4 && T.live == 0)) && (include_self || i != cur)) c[n++] = i;
  if (!n) return -1;
  bool open = n_access >= cfg_lo && n_access < cfg_hi;
  if (cfg_strategy == 1) { /* priorities, occasionally re-drawn */
    if (open && rnd() % 4 == 0) T.f[c[rnd() % n]].prio = (int)(rnd() % 1000);
    int b = c[0];
    for (int i = 1; i < n; i++) if (T.f[c[i]].prio > T.f[b].prio) b = c[i];
    return b;
  }
  return open ? c[rnd() % n] : c[0];
}
static void must_switch(void) {
  int t = pick(false);
  if (t < 0) {
    fprintf(stderr, "csim: all threads blocked\n");
    if (logf_) fprintf(logf_, "deadlock\n");
    finish("deadlock");
    _exit(99);
  }
  go(t);
}
static inline void point(void) {
  if (!in_par) return;
  countdown -= 1.0;
  if (countdown > 0) return;
  reset_countdown();
  if (n_access < cfg_lo || n_access >= cfg_hi) return;
  int t = pick(true);
  if (t >= 0) go(t);
}
static void fiber_main(void) {
  T.fn(T.data);
  fiber_t *f = &T.f[cur];
  f->state = 2;
  T.live--;
  must_switch();
  __builtin_unreachable();
}
void GOMP_barrier(void);
static void maybe_release_barrier(void) {
  if (T.at_barrier && T.at_barrier == T.live) {
    memset(T.barrier_vc, 0, sizeof T.barrier_vc);
    for (int i = 0; i < T.n; i++)
      for (int j = 0; j < T.n; j++) if (T.f[i].vc[j] > T.barrier_vc[j]) T.barrier_vc[j] = T.f[i].vc[j];
    for (int i = 0; i < T.n; i++)
      if (T.f[i].state == 1) {
        T.f[i].state = 0;
        memcpy(T.f[i].vc, T.barrier_vc, sizeof T.barrier_vc);
        T.f[i].vc[i]++;
      }
    T.at_barrier = 0;
  }
}
void GOMP_barrier(void) {
  if (!in_par) return;
  n_barriers++;
  T.f[cur].state = 1;
  T.at_barrier++;
  maybe_release_barrier();
  if (T.f[cur].state == 1) must_switch();
}
static void run_team(void (*fn)(void *), void *data, unsigned nthreads, ws_t *pre) {
  n_regions++;
  int n = nthreads ? (int)nthreads : cfg_threads;
  if (n > NT) n = NT;
  if (in_par || n < 2) { /* nested or one-thread region: serialised */
    team_t *saved = NULL;
    bool was = in_par;
    int scur = cur;
    if (was) {
      /* a nested region runs alone: keep the enclosing team untouched and forbid switches meanwhile */
      saved = __real_malloc(sizeof T);
      memcpy(saved, &T, sizeof T);
    }
    in_par = false;
    memset(&T.ws, 0, sizeof T.ws);
    T.n = T.live = 1;
    T.f[0].ws = 0;
    cur = 0;
    if (pre) { T.ws[1] = *pre; T.ws[1].no = 1; T.ws[1].used = true; }
    fn(data);
    if (was) { memcpy(&T, saved, sizeof T); __real_free(saved); }
    in_par = was;
    cur = scur;
    return;
  }
  memset(&T, 0, sizeof T);
  T.n = T.live = n;
  T.fn = fn;
  T.data = data;
  region_gen++;
  for (int i = 0; i < n; i++) {
    T.f[i].id = i;
    T.f[i].vc[i] = 1;
    T.f[i].prio = (int)(rnd() % 1000);
    if (i) {
      if (!stacks[i]) stacks[i] = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      u64 *sp = (u64 *)((char *)stacks[i] + STACK - 64);
      *--sp = 0;
      *--sp = (u64)fiber_main;
      for (int k = 0; k < 6; k++) *--sp = 0;
      sp--;
      ((u32 *)sp)[0] = 0x1F80;
      ((u32 *)sp)[1] = 0x037F;
      T.f[i].sp = sp;
    }
  }
  if (pre) { T.ws[1] = *pre; T.ws[1].no = 1; T.ws[1].used = true; }
  in_par = true;
  cur = 0;
  reset_countdown();
  if (cfg_strategy != 3) { int t = pick(true); if (t >= 0) go(t); } /* any thread may start first */
  fn(data);
  T.f[0].state = 4; /* joining: runnable again once all others are done */
  T.live--;
  if (T.live > 0) must_switch();
  in_par = false;
  cur = 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned flags) { (void)flags; run_team(fn, data, nthreads, NULL); }

int omp_get_thread_num(void) { return in_par ? cur : 0; }
int omp_get_num_threads(void) { return in_par ? T.n : 1; }
int omp_get_max_threads(void) { return cfg_threads; }
int omp_get_num_procs(void) { return NT; }
int omp_in_parallel(void) { return in_par; }
void omp_set_num_threads(int n) { if (n >= 1) cfg_threads = n > NT ? NT : n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }

/* locks ------------------------------------------------------------ */
typedef struct { void *a; int owner; u32 vc[NT]; u32 gen; } lock_t;
static lock_t locks[4096];
static lock_t *lk(void *a) {
  u64 h = ((u64)a * 0x9E3779B97F4A7C15ULL) >> 52;
  while (locks[h].a && locks[h].a != a) h = (h + 1) & 4095;
  if (!locks[h].a) { locks[h].a = a; locks[h].owner = -1; }
  if (locks[h].gen != region_gen) { locks[h].gen = region_gen; locks[h].owner = -1; memset(locks[h].vc, 0, sizeof locks[h].vc); }
  return &locks[h];
}
static void acq(void *a) {
  if (!in_par) return;
  n_locks++;
  lock_t *l = lk(a);
  if (n_access >= cfg_lo && n_access < cfg_hi) { int t = pick(true); if (t >= 0) go(t); }
  while (l->owner >= 0) {
    T.f[cur].state = 3;
    T.f[cur].lock = a;
    must_switch();
  }
  l->owner = cur;
  for (int i = 0; i < NT; i++) if (l->vc[i] > T.f[cur].vc[i]) T.f[cur].vc[i] = l->vc[i];
}
static void rel(void *a) {
  if (!in_par) return;
  lock_t *l = lk(a);
  memcpy(l->vc, T.f[cur].vc, sizeof l->vc);
  T.f[cur].vc[cur]++;
  l->owner = -1;
  for (int i = 0; i < T.n; i++) if (T.f[i].state == 3 && T.f[i].lock == a) T.f[i].state = 0;
}
static int crit_l, atom_l;
void GOMP_critical_start(void) { acq(&crit_l); }
void GOMP_critical_end(void) { rel(&crit_l); }
void GOMP_critical_name_start(void **p) { acq(p); }
void GOMP_critical_name_end(void **p) { rel(p); }
void GOMP_atomic_start(void) { acq(&atom_l); }
void GOMP_atomic_end(void) { rel(&atom_l); }
void omp_init_lock(void **l) { *l = NULL; }
void omp_destroy_lock(void **l) { (void)l; }
void omp_set_lock(void **l) { acq(l); }
void omp_unset_lock(void **l) { rel(l); }

/* work sharing ----------------------------------------------------- */
static ws_t *ws_get(bool *fresh) {
  fiber_t *f = &T.f[cur];
  u64 no = ++f->ws;
  ws_t *w = &T.ws[no % 64];
  *fresh = !(w->used && w->no == no);
  if (*fresh) { memset(w, 0, sizeof *w); w->no = no; w->used = true; }
  return w;
}
static bool ws_next(ws_t *w, long *is, long *ie) {
  if (in_par && n_access >= cfg_lo && n_access < cfg_hi) { int t = pick(true); if (t >= 0) go(t); } /* who takes the next chunk */
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  long c = w->chunk ? w->chunk : 1;
  if (w->mode == 1) {
    long left = (w->end - w->next) / w->incr / (2 * T.n);
    if (left > c) c = left;
  }
  long e = w->next + c * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *is = w->next;
  *ie = e;
  w->next = e;
  return true;
}
static bool ws_start(long s, long e, long i, long c, int mode, long *is, long *ie) {
  bool fresh;
  ws_t *w = ws_get(&fresh);
  if (fresh) { w->next = s; w->end = e; w->incr = i; w->chunk = c; w->mode = mode; }
  return ws_next(w, is, ie);
}
static bool ws_cont(long *is, long *ie) { return ws_next(&T.ws[T.f[in_par ? cur : 0].ws % 64], is, ie); }
#define LOOP(name, md)                                                                                                        \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return ws_start(s, e, i, c, md, is, ie); } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_cont(is, ie); }                                                   \
  bool GOMP_loop_ull_##name##_start(bool up, u64 s, u64 e, u64 i, u64 c, u64 *is, u64 *ie) { (void)up; return ws_start((long)s, (long)e, (long)i, (long)c, md, (long *)is, (long *)ie); } \
  bool GOMP_loop_ull_##name##_next(u64 *is, u64 *ie) { return ws_cont((long *)is, (long *)ie); }                                 \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) {         \
    (void)fl;                                                                                                                    \
    ws_t w = {.next = s, .end = e, .incr = i, .chunk = c, .mode = md};                                                         \
    run_pre(fn, d, n, &w);                                                                                                       \
  }
static void run_pre(void (*fn)(void *), void *d, unsigned n, ws_t *w);
LOOP(dynamic, 0)
LOOP(nonmonotonic_dynamic, 0)
LOOP(guided, 1)
LOOP(nonmonotonic_guided, 1)
LOOP(runtime_, 0)
LOOP(static, 0)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return ws_start(s, e, i, 1, 0, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return ws_cont(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return ws_start(s, e, i, 1, 0, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return ws_cont(is, ie); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
/* parallel loops: every thread's first "next" refers to work share 1 */
static void run_pre(void (*fn)(void *), void *d, unsigned n, ws_t *w) {
  struct tramp { void (*fn)(void *); void *d; };
  extern void csim_tramp(void *);
  static struct tramp stk[8];
  static int depth;
  stk[depth].fn = fn;
  stk[depth].d = d;
  void *a = &stk[depth++];
  run_team(csim_tramp, a, n, w);
  depth--;
}
void csim_tramp(void *a) {
  struct tramp { void (*fn)(void *); void *d; } *t = a;
  T.f[in_par ? cur : 0].ws = 1;
  t->fn(t->d);
}
bool GOMP_single_start(void) {
  if (!in_par) return true;
  bool fresh;
  if (n_access >= cfg_lo && n_access < cfg_hi) { int t = pick(true); if (t >= 0) go(t); }
  ws_t *w = ws_get(&fresh);
  return !w->single_taken++;
}
unsigned GOMP_sections_start(unsigned n) {
  long is, ie;
  return ws_start(1, (long)n + 1, 1, 1, 0, &is, &ie) ? (unsigned)is : 0;
}
unsigned GOMP_sections_next(void) {
  long is, ie;
  return ws_cont(&is, &ie) ? (unsigned)is : 0;
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned fl) {
  (void)fl;
  ws_t w = {.next = 1, .end = (long)count + 1, .incr = 1, .chunk = 1};
  run_pre(fn, d, n, &w);
}

/* ---------------------------------------------------------------- race detector */
typedef struct { u32 gen, wclk, wpc, rpc; u8 wtid, wmask; u8 rmask[NT]; u32 rclk[NT]; } cell_t;
static cell_t **top[1 << 18];
static cell_t *cell(u64 a) {
  u64 hi = (a >> 30) & 0x3FFFF, mid = (a >> 12) & 0x3FFFF;
  if (!top[hi]) top[hi] = mmap(NULL, sizeof(void *) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!top[hi][mid]) top[hi][mid] = mmap(NULL, sizeof(cell_t) * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cell_t *c = &top[hi][mid][(a & 4095) >> 2];
  if (c->gen != region_gen) { memset(c, 0, sizeof *c); c->gen = region_gen; }
  return c;
}
static u64 seen_races[256];
static int nseen;
static void race(u32 pc1, u32 pc2, const char *kind) {
  n_races++;
  u64 k = ((u64)pc1 << 32) | pc2;
  for (int i = 0; i < nseen; i++) if (seen_races[i] == k) return;
  if (nseen < 256) seen_races[nseen++] = k;
  if (logf_ && nseen < 200) fprintf(logf_, "race %s %x %x region %u\n", kind, pc1, pc2, region_gen);
}
static inline void acc1(u64 a, u8 mask, bool wr, u32 pc) {
  cell_t *c = cell(a);
  fiber_t *f = &T.f[cur];
  if (c->wmask & mask && c->wtid != cur && c->wclk > f->vc[c->wtid]) race(c->wpc, pc, wr ? "ww" : "wr");
  if (wr) {
    for (int t = 0; t < T.n; t++)
      if (t != cur && c->rmask[t] & mask && c->rclk[t] > f->vc[t]) race(c->rpc, pc, "rw");
    if (c->wtid == cur && c->wclk == f->vc[cur]) c->wmask |= mask; else c->wmask = mask;
    c->wtid = (u8)cur;
    c->wclk = f->vc[cur];
    c->wpc = pc;
  } else {
    if (c->rclk[cur] == f->vc[cur]) c->rmask[cur] |= mask; else c->rmask[cur] = mask;
    c->rclk[cur] = f->vc[cur];
    c->rpc = pc;
  }
}
static void access_(u64 a, u64 n, bool wr, void *ra) {
  n_access++;
  if (!in_par) return;
  point();
  if (!cfg_detect) return;
  u32 pc = (u32)(u64)ra;
  while (n) {
    u64 off = a & 3, k = 4 - off;
    if (k > n) k = n;
    acc1(a & ~3ULL, (u8)(((1u << k) - 1) << off), wr, pc);
    a += k;
    n -= k;
  }
}
#define RA __builtin_return_address(0)
#define RW(sz)                                                                            \
  void __tsan_read##sz(void *a) { access_((u64)a, sz, false, RA); }                       \
  void __tsan_write##sz(void *a) { access_((u64)a, sz, true, RA); }                       \
  void __tsan_volatile_read##sz(void *a) { access_((u64)a, sz, false, RA); }              \
  void __tsan_volatile_write##sz(void *a) { access_((u64)a, sz, true, RA); }              \
  void __tsan_read_write##sz(void *a) { access_((u64)a, sz, false, RA); access_((u64)a, sz, true, RA); }   \
  void __tsan_unaligned_read##sz(void *a) { access_((u64)a, sz, false, RA); }             \
  void __tsan_unaligned_write##sz(void *a) { access_((u64)a, sz, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, u64 n) { access_((u64)a, n, false, RA); }
void __tsan_write_range(void *a, u64 n) { access_((u64)a, n, true, RA); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define ATOM(bits, ty)                                                                                                    \
  static void sync##bits(volatile ty *a) { n_access++; point(); if (in_par) { acq((void *)a); rel((void *)a); } }         \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; sync##bits((volatile ty *)a); return *a; }      \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); *a = v; }                     \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); ty o = *a; *a = v; return o; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); ty o = *a; *a = o + v; return o; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); ty o = *a; *a = o - v; return o; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); ty o = *a; *a = o & v; return o; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); ty o = *a; *a = o | v; return o; }  \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; sync##bits(a); ty o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int fm) {                        \
    (void)mo; (void)fm; sync##bits(a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }                           \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fm) {                          \
    (void)mo; (void)fm; sync##bits(a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }                           \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int fm) {                             \
    (void)mo; (void)fm; sync##bits(a); ty o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- allocator */
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
static void fresh_range(void *p, size_t n) {
  if (!in_par || !cfg_detect) return;
  for (u64 a = (u64)p & ~3ULL; a < (u64)p + n; a += 4) { cell_t *c = cell(a); u32 g = c->gen; memset(c, 0, sizeof *c); c->gen = g; }
}
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  n_mallocs++;
  if (p && cfg_fill >= 0) {
    u64 pat = (cfg_fill == 256) ? rnd() : 0x0101010101010101ULL * (u64)(cfg_fill & 255);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) memcpy((char *)p + i, &pat, 8);
    memset((char *)p + i, (int)(pat & 255), n - i);
  }
  fresh_range(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); fresh_range(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); fresh_range(p, n); return p; }
void __wrap_free(void *p) { __real_free(p); }

/* ---------------------------------------------------------------- clock */
static __int128 vns = (__int128)1700000000LL * 1000000000LL; /* simulated time in ns */
static __int128 tick(void) {
  if (n_clock == 0 && cfg_clock) vns += (long long)(rnd() % 1000000000ull);
  for (int i = 0; i < nclk; i++) if (clk_faults_at[i] == (long)n_clock) vns += (__int128)(clk_faults_by[i] * 1e9);
  n_clock++;
  switch (cfg_clock) {
  case 0: vns += 10000000LL; break;                                  /* steady */
  case 1: break;                                                     /* stands still */
  case 2: vns += (long long)(rnd() % 1000000) * 1000000LL; break;    /* fast and irregular */
  case 3: vns += (long long)(rnd() % 3); break;                      /* nearly still */
  case 4: vns -= 500000000LL; break;                                 /* runs backwards */
  case 5: vns += ((long long)(rnd() % 2001) - 1000) * 10000000000LL; break; /* jumps both ways */
  case 6: vns += 30000000LL * 1000000000LL; break;                   /* a year per reading */
  case 7: vns += 1000000LL + (long long)(rnd() % 400000000ull); break; /* ordinary speed, irregular */
  case 8: vns += 1000000LL + (long long)(rnd() % 300ull) * 100000LL; break; /* ordinary speed, short steps */
  }
  if (logf_) {  /* the reading is marked in stderr, so that a report can be matched with the readings before it */
    char b[40];
    int n = snprintf(b, sizeof b, "\x01%lld.%09lld\x02", (long long)(vns / 1000000000), (long long)(vns % 1000000000));
    if (n > 0 && write(2, b, (size_t)n) < 0) {}
  }
  return vns;
}
/* process death at a clock reading (a stop at an arbitrary moment of the evolution) */
static long kill_clock = -1;
static void clock_faults(void) {
  for (int i = 0; i < nfaults; i++) {
    if (!strcmp(faults[i].kind, "clockkill")) kill_clock = faults[i].op;
  }
  if (kill_clock >= 0 && (long)n_clock == kill_clock) {
    if (logf_) fprintf(logf_, "fired clockkill %ld\n", kill_clock);
    finish("killed");
    _exit(137);
  }
}
int __wrap_clock_gettime(int id, struct timespec *ts) {
  (void)id;
  clock_faults();
  __int128 t = tick();
  ts->tv_sec = (time_t)(t / 1000000000LL);
  ts->tv_nsec = (long)(t % 1000000000LL);
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000L; ts->tv_sec--; }
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
  (void)z;
  clock_faults();
  __int128 t = tick();
  tv->tv_sec = (time_t)(t / 1000000000LL);
  tv->tv_usec = (long)(t % 1000000000LL / 1000);
  if (tv->tv_usec < 0) { tv->tv_usec += 1000000L; tv->tv_sec--; }
  return 0;
}
time_t __wrap_time(time_t *p) {
  clock_faults();
  time_t t = (time_t)(tick() / 1000000000LL);
  if (p) *p = t;
  return t;
}
clock_t __wrap_clock(void) { clock_faults(); return (clock_t)(tick() / 1000); }
double omp_get_wtime(void) { clock_faults(); return (double)tick() * 1e-9; }

/* ---------------------------------------------------------------- files */
#define MAXF 64
typedef struct { int fd; char path[512]; FILE *fp; bool wr; bool full; } sf_t;
static sf_t files[MAXF];

static fault_t *take(const char *op, const char *path, long size) {
  static long n_ck;
  long i = (long)n_ops++, c = strstr(path, "checkpoint") ? n_ck++ : -1;
  if (logf_) fprintf(logf_, "op %ld %s %s %ld\n", i, op, path, size);
  for (int k = 0; k < nfaults; k++) {
    fault_t *f = &faults[k];
    if (f->used || !strcmp(f->kind, "clockkill")) continue;
    if (!strcmp(f->kind, "openkill")) { /* stop just before the first diagnostics file opened at or after operation op */
      if (i < f->op || strcmp(op, "openw") || !strstr(path, ".txt")) continue;
      if (logf_) fprintf(logf_, "fired openkill %ld %s %s\n", i, op, path);
      finish("killed");
      _exit(137);
    }
    if (f->ck ? c == f->op : i == f->op) {
      f->used = true;
      if (logf_) { fprintf(logf_, "fired %s %ld %s %s\n", f->kind, i, op, path); fflush(logf_); }
      return f;
    }
  }
  return NULL;
}
static bool is(fault_t *f, const char *k) { return f && !strcmp(f->kind, k); }

/* unsynced data tracking for "power": each tracked path keeps its last durable image */
static struct { char path[512]; char *img; long len; bool exists; } dur[64];
static int ndur;
static void slurp(const char *p, char **b, long *n) {
  *b = NULL;
  *n = -1;
  int fd = open(p, O_RDONLY);
  if (fd < 0) return;
  struct stat st;
  fstat(fd, &st);
  *b = __real_malloc(st.st_size + 1);
  *n = 0;
  long r;
  while (*n < st.st_size && (r = read(fd, *b + *n, st.st_size - *n)) > 0) *n += r;
  close(fd);
}
static int dur_find(const char *p) {
  for (int i = 0; i < ndur; i++) if (!strcmp(dur[i].path, p)) return i;
  return -1;
}
static void dur_track(const char *p) { /* call before the first modification in this life */
  if (!strstr(p, "checkpoint") || dur_find(p) >= 0 || ndur >= 64) return; /* diagnostics may lose unsynced data */
  int i = ndur++;
  snprintf(dur[i].path, sizeof dur[i].path, "%s", p);
  slurp(p, &dur[i].img, &dur[i].len);
  dur[i].exists = dur[i].len >= 0;
}
static void dur_sync(const char *p) {
  int i = dur_find(p);
  if (i < 0) return;
  __real_free(dur[i].img);
  slurp(p, &dur[i].img, &dur[i].len);
  dur[i].exists = dur[i].len >= 0;
}
static void put(const char *p, const char *b, long n) {
  int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  long o = 0, r;
  while (o < n && (r = write(fd, b + o, n - o)) > 0) o += r;
  close(fd);
}
static void power_loss(long arg) {
  /* every file not synced since its last modification falls back to its durable content, or to an empty or torn one */
  u64 s = (u64)arg * 0x9E3779B97F4A7C15ULL + 1;
  for (int i = 0; i < ndur; i++) {
    char *b;
    long n;
    slurp(dur[i].path, &b, &n);
    if (n == dur[i].len && (n <= 0 || !memcmp(b, dur[i].img, n))) continue;
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    int w = (int)((s >> 33) % 4);
    if (w == 0) continue;                                     /* it made it to the disk after all */
    if (w == 1) { if (dur[i].exists) put(dur[i].path, dur[i].img, dur[i].len); else __real_unlink(dur[i].path); }
    else if (n >= 0) put(dur[i].path, b, w == 2 ? 0 : (long)((s >> 20) % (u64)(n + 1))); /* empty / torn */
  }
}
static void die(fault_t *f, const char *why) {
  if (is(f, "power")) power_loss(f->arg);
  finish(why);
  _exit(137);
}

static ssize_t ck_read(void *c, char *b, size_t n) {
  sf_t *f = c;
  fault_t *q = take("read", f->path, (long)n);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  if (is(q, "eio")) { errno = EIO; return -1; }
  return read(f->fd, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
  sf_t *f = c;
  fault_t *q = take("write", f->path, (long)n);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  size_t lim = n;
  if (is(q, "torn") || is(q, "enospc") || is(q, "full")) lim = (size_t)((u64)q->arg % (n ? n : 1));
  if (f->full) lim = 0;
  size_t o = 0;
  while (!is(q, "eio") && o < lim) {
    ssize_t r = write(f->fd, b + o, lim - o);
    if (r <= 0) break;
    o += (size_t)r;
  }
  if (is(q, "torn")) { finish("killed"); _exit(137); }
  if (is(q, "full")) for (int i = 0; i < MAXF; i++) files[i].full = true;
  if (is(q, "enospc") || is(q, "full") || f->full) { errno = ENOSPC; return (ssize_t)o; }
  if (is(q, "eio")) { errno = EIO; return 0; }
  return (ssize_t)o;
}
static int ck_seek(void *c, off64_t *o, int w) {
  sf_t *f = c;
  off_t r = lseek(f->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) {
  sf_t *f = c;
  fault_t *q = take("close", f->path, 0);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  int r = close(f->fd);
  f->fp = NULL;
  f->fd = -1;
  if (is(q, "eio") || is(q, "enospc")) { errno = is(q, "eio") ? EIO : ENOSPC; return -1; }
  return r;
}
static int mode_flags(const char *m, bool *wr) {
  bool plus = strchr(m, '+') != NULL;
  *wr = true;
  switch (m[0]) {
  case 'r': *wr = plus; return plus ? O_RDWR : O_RDONLY;
  case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
}
FILE *__wrap_fopen(const char *p, const char *m) {
  bool wr;
  int fl = mode_flags(m, &wr);
  fault_t *q = take(wr ? "openw" : "openr", p, 0);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  if (is(q, "eio") || is(q, "enospc") || is(q, "full")) { errno = is(q, "eio") ? EIO : ENOSPC; return NULL; }
  if (is(q, "emfile")) { errno = EMFILE; return NULL; }
  if (wr) dur_track(p);
  int fd = open(p, fl, 0644);
  if (fd < 0) return NULL;
  int i = 0;
  while (i < MAXF && files[i].fp) i++;
  if (i == MAXF) { close(fd); errno = EMFILE; return NULL; }
  files[i].fd = fd;
  files[i].wr = wr;
  snprintf(files[i].path, sizeof files[i].path, "%s", p);
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(&files[i], m, io);
  files[i].fp = fp;
  return fp;
}
int __wrap_fileno(FILE *fp) {
  for (int i = 0; i < MAXF; i++) if (files[i].fp == fp) return files[i].fd;
  return __real_fileno(fp);
}
static sf_t *by_fd(int fd) {
  for (int i = 0; i < MAXF; i++) if (files[i].fp && files[i].fd == fd) return &files[i];
  return NULL;
}
static int do_sync(int fd, const char *op) {
  sf_t *f = by_fd(fd);
  fault_t *q = take(op, f ? f->path : "?", 0);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  if (is(q, "eio") || is(q, "enospc")) { errno = is(q, "eio") ? EIO : ENOSPC; return -1; }
  if (f) dur_sync(f->path);
  return 0;
}
int __wrap_fsync(int fd) { return do_sync(fd, "fsync"); }
int __wrap_fdatasync(int fd) { return do_sync(fd, "fsync"); }
int __wrap_rename(const char *a, const char *b) {
  char both[1024];
  snprintf(both, sizeof both, "%s=>%s", a, b);
  fault_t *q = take("rename", both, 0);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  if (is(q, "eio") || is(q, "enospc")) { errno = is(q, "eio") ? EIO : ENOSPC; return -1; }
  dur_track(a);
  dur_track(b);
  int ia = dur_find(a), ib = dur_find(b);
  int r = __real_rename(a, b);
  if (r == 0 && ia >= 0 && ib >= 0) {
    /* the rename itself is treated as journalled: the name now refers to whatever of the data was durable */
    __real_free(dur[ib].img);
    dur[ib].img = dur[ia].img;
    dur[ib].len = dur[ia].len < 0 ? 0 : dur[ia].len;
    dur[ib].exists = true;
    dur[ia].img = NULL;
    dur[ia].len = -1;
    dur[ia].exists = false;
  }
  return r;
}
static int do_unlink(const char *a) {
  fault_t *q = take("unlink", a, 0);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  if (is(q, "eio")) { errno = EIO; return -1; }
  dur_track(a);
  int r = __real_unlink(a);
  dur_sync(a);
  return r;
}
int __wrap_remove(const char *a) { return do_unlink(a); }
int __wrap_unlink(const char *a) { return do_unlink(a); }
int __wrap_access(const char *a, int m) {
  fault_t *q = take("access", a, 0);
  if (is(q, "kill") || is(q, "power")) die(q, "killed");
  return __real_access(a, m);
}
