/*
 * Deterministic OpenMP runtime + ThreadSanitizer callback runtime + allocator.
 *
 * The C file under test is compiled with -fopenmp -fsanitize=thread, but instead of
 * libgomp and libtsan it is linked to this file.  OpenMP threads are coroutines of the one
 * real thread; every instrumented memory access, barrier, lock and allocation is a yield
 * point, at which a seeded PRNG (or a replayed list of context switches) picks the thread
 * that runs next.  Allocations have redzones, are poisoned, can be made to fail, and are
 * accounted for.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#include "simrt.h"
#ifdef SIM_GIL
void sim_nogil_point(void);
#endif

/* ------------------------------------------------------------------ configuration / results */
typedef struct {
  uint32_t step;
  int32_t tid;
} sw_t;

#define MAXT 160
#define MAXSW (1 << 20)
#define STACKSZ (256 * 1024)
#define RED 256

static uint64_t rng_s;
static int cfg_max_threads = 1; /* omp_get_max_threads */
static int cfg_team = 1;        /* threads actually delivered */
static uint32_t cfg_p;          /* switch probability, /65536 */
static int cfg_replay;          /* 1: use rp[] instead of the PRNG */
static int cfg_poison = 0xA5;
static uint64_t cfg_max_steps = 20000000ull;
static uint64_t fail_mask_n; /* number of failing allocation indices */
static uint32_t fail_idx[256];
static uint64_t fail_from = UINT64_MAX; /* every allocation from this index on fails */

static sw_t *rp;
static uint32_t rp_n, rp_i;
static sw_t *rec;
static uint32_t rec_n;

static uint64_t n_steps, n_switch, n_alloc, n_failed, n_barrier, n_regions, n_access, n_npalloc;
static uint64_t il_hash; /* hash of the interleaving */
static int st_oob, st_uaf, st_badfree, st_deadlock, st_limit;
static uintptr_t st_oob_addr;
static int status_fd = -1;
static int sim_on; /* allocator faults active */

static inline uint64_t rnd(void) {
  uint64_t z = (rng_s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void fatal(int code, const char *what) {
  char buf[256];
  int n = snprintf(buf, sizeof buf, "FATAL %d %s steps=%llu\n", code, what, (unsigned long long)n_steps);
  if (status_fd >= 0) { ssize_t r = write(status_fd, buf, n); (void)r; }
  _exit(code);
}

/* ------------------------------------------------------------------ coroutines */
/* minimal x86-64 context switch */
typedef struct { void *sp; } ctx_t;
void sim_ctx_switch(ctx_t *from, ctx_t *to);
__asm__(
    ".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp, (%rdi)\n  movq (%rsi), %rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_ctx_switch,.-sim_ctx_switch\n");

enum { RUN = 0, BARRIER = 1, DONE = 2, LOCKWAIT = 3, ORDWAIT = 4 };
typedef struct {
  ctx_t ctx;
  char *stack;
  int state;
  void *wait;
  int ws_count; /* worksharing constructs met */
  int single_count;
} thr_t;

typedef struct {
  int inited, done;
  int is_ull;
  long next, end, incr, chunk;
  unsigned long long unext, uend, uincr, uchunk;
  int guided;
  int nsec, nextsec;
  long ord_next;
} ws_t;

#define MAXWS 4096
static thr_t T[MAXT];
static int team, cur = -1, in_region;
static ctx_t main_ctx;
static void (*reg_fn)(void *);
static void *reg_data;
static ws_t *WS;
static int single_owner_n;
static char *single_taken;
static void *copypriv[MAXWS];
static int bar_arrived;

static void *lock_held[256];
static int lock_owner[256], lock_n;

static int runnable(int t) { return T[t].state == RUN; }

static int pick_any(void) {
  int list[MAXT], n = 0;
  for (int i = 0; i < team; i++) if (runnable(i)) list[n++] = i;
  if (!n) return -1;
  if (cfg_replay) {
    while (rp_i < rp_n && rp[rp_i].step < n_steps) rp_i++;
    if (rp_i < rp_n && rp[rp_i].step == n_steps) {
      int t = rp[rp_i++].tid;
      if (t >= 0 && t < team && runnable(t)) return t;
    }
    return list[0];
  }
  return list[rnd() % n];
}

static void note(int t) {
  if (rec_n < MAXSW) { rec[rec_n].step = (uint32_t)n_steps; rec[rec_n].tid = t; rec_n++; }
  n_switch++;
  il_hash = (il_hash ^ (n_steps * 67 + t)) * 0x100000001b3ull;
}

static void switch_to(int t) {
  int me = cur;
  if (t == me) return;
  cur = t;
  sim_ctx_switch(&T[me].ctx, &T[t].ctx);
}

/* leave the current coroutine because it cannot run */
static void block(void) {
  n_steps++;
  int t = pick_any();
  if (t < 0) {
    st_deadlock = 1;
    fatal(70, "deadlock: every unfinished thread is blocked");
  }
  note(t);
  switch_to(t);
}

void sim_yield(int kind, const void *addr) {
  (void)kind; (void)addr;
  if (!in_region || cur < 0) {
#ifdef SIM_GIL
    sim_nogil_point();
#endif
    return;
  }
  n_steps++;
  if (n_steps > cfg_max_steps) { st_limit = 1; fatal(71, "no progress: step limit reached"); }
  if (team == 1) return;
  int t = cur;
  if (cfg_replay) {
    while (rp_i < rp_n && rp[rp_i].step < n_steps) rp_i++;
    if (rp_i < rp_n && rp[rp_i].step == n_steps) {
      t = rp[rp_i++].tid;
      if (t < 0 || t >= team || !runnable(t)) t = cur;
    }
  } else if ((rnd() & 0xFFFF) < cfg_p) {
    t = pick_any();
  }
  if (t != cur) { note(t); switch_to(t); }
}

static void co_main(void) {
  int me = cur;
  reg_fn(reg_data);
  T[me].state = DONE;
  /* implicit barrier at the end of the region: release explicit-barrier waiters if legal */
  int t;
  for (;;) {
    n_steps++;
    int alldone = 1, anyrun = 0;
    for (int i = 0; i < team; i++) { if (T[i].state != DONE) alldone = 0; if (runnable(i)) anyrun = 1; }
    if (alldone) { cur = -1; sim_ctx_switch(&T[me].ctx, &main_ctx); }
    if (!anyrun) { st_deadlock = 1; fatal(70, "deadlock: a thread left the parallel region while others wait at a barrier"); }
    t = pick_any();
    note(t);
    cur = t;
    sim_ctx_switch(&T[me].ctx, &T[t].ctx);
  }
}

static void co_entry(void);
__asm__(".text\n.type co_entry,@function\nco_entry:\n  xorl %ebp,%ebp\n  call sim_co_main\n  ud2\n.size co_entry,.-co_entry\n");
__attribute__((used, visibility("hidden"))) void sim_co_main(void) { co_main(); }

static void start_coroutine(int i) {
  if (!T[i].stack) {
    T[i].stack = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (T[i].stack == MAP_FAILED) fatal(79, "harness: no stack");
  }
  /* uninitialised locals must not depend on what ran before */
  memset(T[i].stack + STACKSZ - 32768, cfg_poison, 32768);
  uintptr_t *sp = (uintptr_t *)(T[i].stack + STACKSZ);
  sp -= 8;
  sp = (uintptr_t *)((uintptr_t)sp & ~(uintptr_t)15);
  *--sp = 0;                   /* alignment filler */
  *--sp = (uintptr_t)co_entry; /* ret target */
  for (int k = 0; k < 6; k++) *--sp = 0;
  T[i].ctx.sp = sp;
  T[i].state = RUN;
  T[i].ws_count = 0;
  T[i].single_count = 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
  (void)flags;
  if (in_region) { /* nested parallelism: serialised, as OpenMP's default */
    int t = team; (void)t;
    fn(data);
    return;
  }
  team = num_threads ? (int)num_threads : cfg_team;
  if (team > MAXT) team = MAXT;
  if (team < 1) team = 1;
  n_regions++;
  n_steps++;
  if (!WS) WS = calloc(MAXWS, sizeof(ws_t));
  if (!single_taken) single_taken = calloc(MAXWS, 1);
  memset(WS, 0, MAXWS * sizeof(ws_t));
  memset(single_taken, 0, MAXWS);
  bar_arrived = 0;
  lock_n = 0;
  reg_fn = fn;
  reg_data = data;
  for (int i = 0; i < team; i++) start_coroutine(i);
  in_region = 1;
  int t = pick_any();
  note(t);
  cur = t;
  sim_ctx_switch(&main_ctx, &T[t].ctx);
  in_region = 0;
  cur = -1;
}

void GOMP_barrier(void) {
  n_barrier++;
  if (!in_region || team == 1) return;
  sim_yield(9, 0);
  bar_arrived++;
  if (bar_arrived == team) {
    bar_arrived = 0;
    for (int i = 0; i < team; i++) if (T[i].state == BARRIER) T[i].state = RUN;
    sim_yield(9, 0);
    return;
  }
  T[cur].state = BARRIER;
  block();
}
_Bool GOMP_barrier_cancel(void) { GOMP_barrier(); return 0; }

/* ---- locks */
static void lock_acquire(void *l) {
  if (!in_region || team == 1) return;
  sim_yield(8, l);
  for (;;) {
    int held = -1;
    for (int i = 0; i < lock_n; i++) if (lock_held[i] == l) held = i;
    if (held < 0) {
      if (lock_n >= 256) fatal(79, "harness: too many locks");
      lock_held[lock_n] = l; lock_owner[lock_n] = cur; lock_n++;
      return;
    }
    T[cur].state = LOCKWAIT;
    T[cur].wait = l;
    block();
  }
}
static void lock_release(void *l) {
  if (!in_region || team == 1) return;
  for (int i = 0; i < lock_n; i++)
    if (lock_held[i] == l) { lock_held[i] = lock_held[lock_n - 1]; lock_owner[i] = lock_owner[lock_n - 1]; lock_n--; break; }
  for (int i = 0; i < team; i++) if (T[i].state == LOCKWAIT && T[i].wait == l) T[i].state = RUN;
  sim_yield(8, l);
}
static char crit_default, crit_atomic;
void GOMP_critical_start(void) { lock_acquire(&crit_default); }
void GOMP_critical_end(void) { lock_release(&crit_default); }
void GOMP_critical_name_start(void **p) { lock_acquire(p); }
void GOMP_critical_name_end(void **p) { lock_release(p); }
void GOMP_atomic_start(void) { lock_acquire(&crit_atomic); }
void GOMP_atomic_end(void) { lock_release(&crit_atomic); }
void omp_init_lock(void *l) { (void)l; }
void omp_destroy_lock(void *l) { (void)l; }
void omp_set_lock(void *l) { lock_acquire(l); }
void omp_unset_lock(void *l) { lock_release(l); }

/* ---- single */
_Bool GOMP_single_start(void) {
  if (!in_region || team == 1) return 1;
  sim_yield(7, 0);
  int k = T[cur].single_count++ % MAXWS;
  if (single_taken[k]) return 0;
  single_taken[k] = 1;
  return 1;
}
void *GOMP_single_copy_start(void) {
  if (!in_region || team == 1) return 0;
  int k = T[cur].single_count % MAXWS;
  if (GOMP_single_start()) return 0;
  GOMP_barrier();
  return copypriv[k];
}
void GOMP_single_copy_end(void *d) {
  if (!in_region || team == 1) return;
  copypriv[(T[cur].single_count - 1) % MAXWS] = d;
  GOMP_barrier();
}

/* ---- dynamic / guided / runtime loops */
static ws_t solo_ws;
static ws_t *ws_enter(void) {
  if (!in_region || team == 1) { solo_ws.inited = 0; return &solo_ws; }
  sim_yield(6, 0);
  return &WS[T[cur].ws_count++ % MAXWS];
}
static ws_t *ws_cur(void) {
  if (!in_region || team == 1) return &solo_ws;
  return &WS[(T[cur].ws_count - 1) % MAXWS];
}
static _Bool ws_take(ws_t *w, long *is, long *ie) {
  sim_yield(6, w);
  long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
  if (left <= 0) return 0;
  long c = w->chunk > 0 ? w->chunk : 1;
  if (w->guided) { long g = left / (team ? team : 1); if (g > c) c = g; }
  if (c > left) c = left;
  *is = w->next;
  w->next += c * w->incr;
  *ie = w->next;
  if (w->incr > 0 ? *ie > w->end : *ie < w->end) *ie = w->end;
  return 1;
}
static _Bool loop_start(long s, long e, long i, long c, long *is, long *ie, int g) {
  ws_t *w = ws_enter();
  if (!w->inited) { w->inited = 1; w->next = s; w->end = e; w->incr = i; w->chunk = c; w->guided = g; }
  return ws_take(w, is, ie);
}
static _Bool loop_next(long *is, long *ie) { return ws_take(ws_cur(), is, ie); }
#define LOOP(NAME, G) \
  _Bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie, G); } \
  _Bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOP(static, 0)
LOOP(dynamic, 0)
LOOP(guided, 1)
LOOP(nonmonotonic_dynamic, 0)
LOOP(nonmonotonic_guided, 1)
LOOP(ordered_static, 0)
LOOP(ordered_dynamic, 0)
_Bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, 0); }
_Bool GOMP_loop_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, 0); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
_Bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, 0); }
_Bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

static _Bool uws_take(ws_t *w, unsigned long long *is, unsigned long long *ie) {
  sim_yield(6, w);
  if (w->unext >= w->uend) return 0;
  unsigned long long left = (w->uend - w->unext + w->uincr - 1) / w->uincr;
  unsigned long long c = w->uchunk ? w->uchunk : 1;
  if (w->guided) { unsigned long long g = left / (team ? team : 1); if (g > c) c = g; }
  if (c > left) c = left;
  *is = w->unext;
  w->unext += c * w->uincr;
  *ie = w->unext < w->uend ? w->unext : w->uend;
  return 1;
}
static _Bool uloop_start(_Bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c,
                         unsigned long long *is, unsigned long long *ie, int g) {
  if (!up) fatal(79, "harness: downward unsigned loop not modelled");
  ws_t *w = ws_enter();
  if (!w->inited) { w->inited = 1; w->unext = s; w->uend = e; w->uincr = i; w->uchunk = c; w->guided = g; }
  return uws_take(w, is, ie);
}
typedef unsigned long long ull;
#define ULOOP(NAME, G) \
  _Bool GOMP_loop_ull_##NAME##_start(_Bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return uloop_start(up, s, e, i, c, is, ie, G); } \
  _Bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return uws_take(ws_cur(), is, ie); }
ULOOP(static, 0)
ULOOP(dynamic, 0)
ULOOP(guided, 1)
ULOOP(nonmonotonic_dynamic, 0)
ULOOP(nonmonotonic_guided, 1)
_Bool GOMP_loop_ull_runtime_start(_Bool up, ull s, ull e, ull i, ull *is, ull *ie) { return uloop_start(up, s, e, i, 1, is, ie, 0); }
_Bool GOMP_loop_ull_runtime_next(ull *is, ull *ie) { return uws_take(ws_cur(), is, ie); }
_Bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(_Bool up, ull s, ull e, ull i, ull *is, ull *ie) { return uloop_start(up, s, e, i, 1, is, ie, 0); }
_Bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull *is, ull *ie) { return uws_take(ws_cur(), is, ie); }

/* combined parallel+loop entry points */
typedef struct { void (*fn)(void *); void *data; long s, e, i, c; int g; } ploop_t;
static ploop_t PL;
static void ploop_tramp(void *d) { ploop_t *p = d; ws_t *w = ws_enter();
  if (!w->inited) { w->inited = 1; w->next = p->s; w->end = p->e; w->incr = p->i; w->chunk = p->c; w->guided = p->g; }
  p->fn(p->data); }
#define PLOOP(NAME, G) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned fl) { \
    PL = (ploop_t){fn, data, s, e, i, c, G}; GOMP_parallel(ploop_tramp, &PL, nt, fl); }
PLOOP(static, 0)
PLOOP(dynamic, 0)
PLOOP(guided, 1)
PLOOP(nonmonotonic_dynamic, 0)
PLOOP(nonmonotonic_guided, 1)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) {
  PL = (ploop_t){fn, data, s, e, i, 1, 0}; GOMP_parallel(ploop_tramp, &PL, nt, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) {
  PL = (ploop_t){fn, data, s, e, i, 1, 0}; GOMP_parallel(ploop_tramp, &PL, nt, fl); }

/* sections */
unsigned GOMP_sections_next(void) { ws_t *w = ws_cur(); sim_yield(6, w); return w->nextsec < w->nsec ? (unsigned)++w->nextsec : 0; }
unsigned GOMP_sections_start(unsigned n) { ws_t *w = ws_enter(); if (!w->inited) { w->inited = 1; w->nsec = n; w->nextsec = 0; } return GOMP_sections_next(); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}

/* tasks: run at once (a legal schedule of an undeferred task) */
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, _Bool iff, unsigned fl, void **dep, int prio) {
  (void)iff; (void)fl; (void)dep; (void)prio;
  if (cpy) { char *b = __builtin_alloca(sz + al); void *a = (void *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); }
  else { char *b = __builtin_alloca(sz + al); void *a = (void *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); memcpy(a, data, sz); fn(a); }
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_ordered_start(void) { fatal(79, "harness: ordered loops not modelled"); }
void GOMP_ordered_end(void) {}

int omp_get_thread_num(void) { return in_region ? cur : 0; }
int omp_get_num_threads(void) { return in_region ? team : 1; }
int omp_get_max_threads(void) { return cfg_max_threads; }
int omp_get_num_procs(void) { return cfg_max_threads; }
int omp_in_parallel(void) { return in_region && team > 1; }
int omp_get_level(void) { return in_region; }
int omp_get_dynamic(void) { return cfg_team != cfg_max_threads; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { if (n > 0) { cfg_max_threads = n; cfg_team = n; } }
double omp_get_wtime(void) { return (double)n_steps * 1e-6; }

/* ------------------------------------------------------------------ allocator */
typedef struct { char *base; char *p; size_t n; int live; int kind; int inrun; } blk_t;
#define MAXBLK 65536
static blk_t *B;
static int nB;
static int n_live;

static int should_fail(void) {
  if (!sim_on) return 0;
  uint64_t k = n_alloc++;
  if (k >= fail_from) { n_failed++; return 1; }
  for (uint64_t i = 0; i < fail_mask_n; i++) if (fail_idx[i] == k) { n_failed++; return 1; }
  return 0;
}
static blk_t *find(void *p) { for (int i = nB - 1; i >= 0; i--) if (B[i].p == (char *)p) return &B[i]; return 0; }

void *__real_malloc(size_t);
void __real_free(void *);
static void purge(void) {
  int j = 0;
  for (int i = 0; i < nB; i++) { if (B[i].live) B[j++] = B[i]; else __real_free(B[i].base); }
  nB = j;
}
static void *blk_new(size_t n, int zero, int kind) {
  if (!B) B = calloc(MAXBLK, sizeof(blk_t));
  if (nB >= MAXBLK) { purge(); if (nB >= MAXBLK) fatal(79, "harness: too many blocks"); }
  char *base = __real_malloc(n + 2 * RED + 64);
  if (!base) fatal(79, "harness: real out of memory");
  char *p = (char *)(((uintptr_t)base + RED + 63) & ~(uintptr_t)63);
  memset(base, 0xFD, p - base);
  memset(p + n, 0xFD, RED);
  memset(p, zero ? 0 : cfg_poison, n);
  B[nB++] = (blk_t){base, p, n, 1, kind, sim_on};
  n_live++;
  return p;
}
static void blk_check(blk_t *b) {
  for (int i = 0; i < RED; i++) if ((unsigned char)b->p[b->n + i] != 0xFD) { st_oob++; st_oob_addr = (uintptr_t)i; break; }
  for (char *q = b->base; q < b->p; q++) if ((unsigned char)*q != 0xFD) { st_oob++; break; }
}
static void blk_free(void *p) {
  blk_t *b = find(p);
  if (!b) { __real_free(p); return; }
  if (!b->live) { st_badfree++; return; }
  blk_check(b);
  memset(b->p, 0xDD, b->n);
  b->live = 0;
  n_live--;
}
void *__wrap_malloc(size_t n) { sim_yield(5, 0); if (should_fail()) return 0; return blk_new(n, 0, 0); }
void *__wrap_calloc(size_t a, size_t b) { sim_yield(5, 0); if (should_fail()) return 0; return blk_new(a * b, 1, 0); }
void __wrap_free(void *p) { sim_yield(5, 0); if (p) blk_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  sim_yield(5, 0);
  if (should_fail()) return 0;
  void *q = blk_new(n, 0, 0);
  blk_t *b = p ? find(p) : 0;
  if (b) { memcpy(q, p, b->n < n ? b->n : n); blk_free(p); }
  return q;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) { (void)al; sim_yield(5, 0); if (should_fail()) return 12; *out = blk_new(n, 0, 0); return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { (void)al; return __wrap_malloc(n); }
void *__wrap_PyMem_Malloc(size_t n) { return __wrap_malloc(n); }
void *__wrap_PyMem_Calloc(size_t a, size_t b) { return __wrap_calloc(a, b); }
void *__wrap_PyMem_Realloc(void *p, size_t n) { return __wrap_realloc(p, n); }
void __wrap_PyMem_Free(void *p) { __wrap_free(p); }
void *__wrap_PyMem_RawMalloc(size_t n) { return __wrap_malloc(n); }
void *__wrap_PyMem_RawCalloc(size_t a, size_t b) { return __wrap_calloc(a, b); }
void *__wrap_PyMem_RawRealloc(void *p, size_t n) { return __wrap_realloc(p, n); }
void __wrap_PyMem_RawFree(void *p) { __wrap_free(p); }

/* numpy data allocations made while the kernel runs (installed as a numpy allocator handler) */
void *simnp_malloc(void *ctx, size_t n) { (void)ctx; if (sim_on) { n_npalloc++; if (should_fail()) return 0; } return blk_new(n, 0, 1); }
void *simnp_calloc(void *ctx, size_t a, size_t b) { (void)ctx; if (sim_on) { n_npalloc++; if (should_fail()) return 0; } return blk_new(a * b, 1, 1); }
void *simnp_realloc(void *ctx, void *p, size_t n) {
  (void)ctx;
  if (sim_on && should_fail()) return 0;
  void *q = blk_new(n, 0, 1);
  blk_t *b = p ? find(p) : 0;
  if (b) { memcpy(q, p, b->n < n ? b->n : n); blk_free(p); }
  return q;
}
void simnp_free(void *ctx, void *p, size_t n) { (void)ctx; (void)n; if (p) blk_free(p); }

static inline void chk(const void *a, int size) {
  n_access++;
  uintptr_t x = (uintptr_t)a;
  for (int i = 0; i < nB; i++) {
    uintptr_t lo = (uintptr_t)B[i].p;
    if (x + size > lo - RED && x < lo + B[i].n + RED) {
      if (!B[i].live) { st_uaf++; st_oob_addr = x; }
      else if (x < lo || x + size > lo + B[i].n) { st_oob++; st_oob_addr = x; }
      return;
    }
  }
}

/* ------------------------------------------------------------------ TSan callbacks */
#define RW(N) \
  void __tsan_read##N(void *a) { chk(a, N); sim_yield(1, a); } \
  void __tsan_write##N(void *a) { chk(a, N); sim_yield(2, a); } \
  void __tsan_unaligned_read##N(void *a) { chk(a, N); sim_yield(1, a); } \
  void __tsan_unaligned_write##N(void *a) { chk(a, N); sim_yield(2, a); } \
  void __tsan_volatile_read##N(void *a) { chk(a, N); sim_yield(1, a); } \
  void __tsan_volatile_write##N(void *a) { chk(a, N); sim_yield(2, a); } \
  void __tsan_read_write##N(void *a) { chk(a, N); sim_yield(2, a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { chk(a, (int)n); sim_yield(1, a); }
void __tsan_write_range(void *a, unsigned long n) { chk(a, (int)n); sim_yield(2, a); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void *a) { (void)a; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { chk(d, (int)n); chk(s, (int)n); sim_yield(2, d); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { chk(d, (int)n); sim_yield(2, d); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { chk(d, (int)n); chk(s, (int)n); sim_yield(2, d); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) chk(d, (int)n); sim_yield(2, d); return memset(d, c, n); }
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int m) { (void)m; sim_yield(3, (void *)a); return *a; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { (void)m; sim_yield(3, (void *)a); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; sim_yield(3, (void *)a); \
    if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, m, f); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { (void)m; (void)f; sim_yield(3, (void *)a); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }

/* ------------------------------------------------------------------ control interface (ctypes) */
void simctl_begin(uint64_t seed, int max_threads, int team_, uint32_t p, int poison, uint64_t max_steps) {
  rng_s = seed;
  cfg_max_threads = max_threads;
  cfg_team = team_;
  cfg_p = p;
  cfg_poison = poison;
  cfg_max_steps = max_steps;
  cfg_replay = 0;
  if (!rec) rec = __real_malloc(sizeof(sw_t) * MAXSW);
  rec_n = 0; rp_n = rp_i = 0;
  n_steps = n_switch = n_alloc = n_failed = n_barrier = n_regions = n_access = n_npalloc = 0;
  il_hash = 0xcbf29ce484222325ull;
  st_oob = st_uaf = st_badfree = st_deadlock = st_limit = 0;
  st_oob_addr = 0;
  fail_mask_n = 0; fail_from = UINT64_MAX;
  purge();
  for (int i = 0; i < nB; i++) B[i].inrun = 0;
  sim_on = 1;
}
void simctl_replay(const uint32_t *pairs, uint32_t n) {
  free(rp);
  rp = __real_malloc(sizeof(sw_t) * (n ? n : 1));
  memcpy(rp, pairs, sizeof(sw_t) * n);
  rp_n = n; rp_i = 0;
  cfg_replay = 1;
}
void simctl_fail(const uint32_t *idx, uint32_t n, int64_t from) {
  if (n > 256) n = 256;
  memcpy(fail_idx, idx, n * 4);
  fail_mask_n = n;
  fail_from = from < 0 ? UINT64_MAX : (uint64_t)from;
}
void simctl_end(void) { sim_on = 0; for (int i = 0; i < nB; i++) if (B[i].live) blk_check(&B[i]); }
/* blocks of plain malloc kind allocated during the run and still live */
int simctl_leaks(void) { int k = 0; for (int i = 0; i < nB; i++) if (B[i].live && B[i].inrun && B[i].kind == 0) k++; return k; }
int simctl_np_live(void) { int k = 0; for (int i = 0; i < nB; i++) if (B[i].live && B[i].inrun && B[i].kind == 1) k++; return k; }
void simctl_stats(uint64_t *o) {
  o[0] = n_steps; o[1] = n_switch; o[2] = n_alloc; o[3] = n_failed; o[4] = n_barrier; o[5] = n_regions;
  o[6] = n_access; o[7] = il_hash; o[8] = (uint64_t)st_oob; o[9] = (uint64_t)st_uaf; o[10] = (uint64_t)st_badfree; o[11] = n_npalloc;
}
uint32_t simctl_record(uint32_t *out, uint32_t max) {
  uint32_t n = rec_n < max ? rec_n : max;
  memcpy(out, rec, n * sizeof(sw_t));
  return rec_n;
}
void simctl_status_fd(int fd) { status_fd = fd; }
