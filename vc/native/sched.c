/* Controlled OpenMP runtime for stateless model checking of the C kernels.
 *
 * The kernels are compiled with -fopenmp -fsanitize=thread, so every memory
 * access calls a __tsan_* hook and every OpenMP construct calls GOMP_* /
 * omp_*.  This file provides both.  The members of a team are coroutines on
 * one OS thread; at every access to memory outside the running member's own
 * stack, and at every lock, barrier and loop-chunk request, the scheduler
 * decides who runs next.  A schedule is a list of (step, member) deviations
 * from the default "keep running, else lowest enabled id", given by the
 * driver; the complete choice log is returned so that the driver can
 * enumerate all schedules up to a preemption bound.
 *
 * malloc/free of the kernels are wrapped: memory is poisoned, has redzones,
 * is counted, and the k-th request can be made to fail. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <ucontext.h>

#define MAXT 16
#define STACK (256 * 1024)
#define MAXSTEP (1 << 20)
#define API __attribute__((visibility("default")))

enum { READY, BLOCK_BARRIER, BLOCK_LOCK, DONE };

typedef struct {
  ucontext_t ctx;
  char *stack;
  int st;
  void *want;       /* lock waited for */
  long ws_index;    /* work-sharing constructs entered */
  long single_index;
} co_t;

typedef struct { int used; long next, end, chunk, incr; unsigned long unext, uend, uchunk, uincr; int finished; int mode; } ws_t;

static struct {
  int nthreads;          /* configured team size */
  int team;              /* size of the running team, 0 outside */
  int cur;
  co_t co[MAXT];
  ucontext_t home;
  void (*fn)(void *);
  void *data;
  /* locks */
  void *lock[16]; int owner[16]; int nlock;
  ws_t ws[64]; 
  long single_done;
  /* schedule */
  int *dev_step; int *dev_thr; int ndev; int devpos;
  int nstep;
  uint32_t *log_enabled; unsigned char *log_choice; unsigned char *log_runen; signed char *log_cur; uint64_t *log_addr;
  uint64_t addr;         /* memory about to be accessed by the running member, 0 at other points */
  int status;            /* 0 ok, 1 deadlock, 2 diverged schedule, 3 step limit, 4 memory error */
  char why[256];
  long accesses;
  /* memory */
  long fail_at, mallocs, live;
} S;

static void yield_point(void);
void *__real_malloc(size_t);
void __real_free(void *);

/* ---------------- scheduler ------------------------------------- */
static int enabled(int t) {
  co_t *c = &S.co[t];
  if (c->st == READY) return 1;
  if (c->st == BLOCK_LOCK) {
    for (int i = 0; i < S.nlock; i++) if (S.lock[i] == c->want) return S.owner[i] < 0;
    return 1;
  }
  return 0;
}

static int pick(void) {
  unsigned mask = 0;
  for (int t = 0; t < S.team; t++) if (enabled(t)) mask |= 1u << t;
  if (!mask) return -1;
  int run = S.cur >= 0 && (mask >> S.cur & 1);
  int choice = run ? S.cur : __builtin_ctz(mask);
  int step = S.nstep;
  if (__builtin_popcount(mask) > 1) {
    if (step >= MAXSTEP) { S.status = 3; return choice; }
    if (S.devpos < S.ndev && S.dev_step[S.devpos] == step) {
      int t = S.dev_thr[S.devpos++];
      if (t < 0 || t >= S.team || !(mask >> t & 1)) { if (!S.status) S.status = 2; }
      else choice = t;
    }
    S.log_enabled[step] = mask; S.log_choice[step] = choice; S.log_runen[step] = run; S.log_cur[step] = S.cur; S.log_addr[step] = S.addr;
    S.nstep++;
  }
  return choice;
}

static void switch_to(int t) {
  int me = S.cur;
  if (t == me) return;
  S.cur = t;
  swapcontext(&S.co[me].ctx, &S.co[t].ctx);
}

static void stuck(const char *why) {
  if (!S.status) { S.status = 1; snprintf(S.why, sizeof S.why, "%s", why); }
  int me = S.cur;
  S.cur = -1;
  swapcontext(&S.co[me].ctx, &S.home);   /* abandon the team */
}

static void yield_point(void) {
  if (!S.team) return;
  int t = pick();
  S.addr = 0;
  if (t < 0) { stuck("no member of the team can run"); return; }
  switch_to(t);
}

static void entry(int t) {
  S.fn(S.data);
  S.co[t].st = DONE;
  /* barrier release check: members blocked at a barrier while others left */
  int alldone = 1;
  for (int i = 0; i < S.team; i++) if (S.co[i].st != DONE) alldone = 0;
  if (!alldone) {
    int n = pick();
    if (n < 0) {
      if (!S.status) { S.status = 1; snprintf(S.why, sizeof S.why, "member %d left the region while others wait at a barrier", t); }
      S.cur = -1;
      setcontext(&S.home);
    }
    S.cur = n;
    setcontext(&S.co[n].ctx);
  }
  S.cur = -1;
  setcontext(&S.home);
}

API void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
  (void)flags;
  if (S.team) { /* nested: run inline with one member */
    fn(data); return;
  }
  int n = num_threads ? (int)num_threads : S.nthreads;
  if (n > S.nthreads) n = S.nthreads;
  if (n < 1) n = 1;
  S.fn = fn; S.data = data; S.team = n; S.nlock = 0; S.single_done = 0;
  memset(S.ws, 0, sizeof S.ws);
  for (int t = 0; t < n; t++) {
    co_t *c = &S.co[t];
    if (!c->stack) c->stack = __real_malloc(STACK);
    c->st = READY; c->want = 0; c->ws_index = 0; c->single_index = 0;
    getcontext(&c->ctx);
    c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STACK; c->ctx.uc_link = &S.home;
    makecontext(&c->ctx, (void (*)(void))entry, 1, t);
  }
  S.cur = -1;
  int t = pick();
  S.cur = t;
  swapcontext(&S.home, &S.co[t].ctx);
  S.team = 0; S.cur = -1;
}

API int omp_get_thread_num(void) { return S.team ? S.cur : 0; }
API int omp_get_num_threads(void) { return S.team ? S.team : 1; }
API int omp_get_max_threads(void) { return S.nthreads; }
API int omp_get_num_procs(void) { return S.nthreads; }
API int omp_get_thread_limit(void) { return MAXT; }
API int omp_in_parallel(void) { return S.team > 1; }
API void omp_set_num_threads(int n) { if (n > 0 && n <= MAXT) S.nthreads = n; }
API void omp_set_dynamic(int n) { (void)n; }
API double omp_get_wtime(void) { return 0.0; }

API void GOMP_barrier(void) {
  if (!S.team) return;
  yield_point();
  co_t *c = &S.co[S.cur];
  c->st = BLOCK_BARRIER;
  int waiting = 0;
  for (int t = 0; t < S.team; t++) if (S.co[t].st == BLOCK_BARRIER) waiting++;
  if (waiting == S.team) {
    for (int t = 0; t < S.team; t++) S.co[t].st = READY;
    yield_point();
    return;
  }
  int t = pick();
  if (t < 0) { stuck("members wait at a barrier that others never reach"); return; }
  switch_to(t);
}

static void lock_at(void *a) {
  if (!S.team) return;
  yield_point();
  int i;
  for (i = 0; i < S.nlock && S.lock[i] != a; i++);
  if (i == S.nlock) { S.lock[i] = a; S.owner[i] = -1; S.nlock++; }
  while (S.owner[i] >= 0) {
    co_t *c = &S.co[S.cur];
    c->st = BLOCK_LOCK; c->want = a;
    int t = pick();
    if (t < 0) { stuck("deadlock on a lock"); return; }
    switch_to(t);
    S.co[S.cur].st = READY;
  }
  S.co[S.cur].st = READY;
  S.owner[i] = S.cur;
}
static void unlock_at(void *a) {
  if (!S.team) return;
  for (int i = 0; i < S.nlock; i++) if (S.lock[i] == a) S.owner[i] = -1;
  yield_point();
}
static char crit, atom;
API void GOMP_critical_start(void) { lock_at(&crit); }
API void GOMP_critical_end(void) { unlock_at(&crit); }
API void GOMP_critical_name_start(void **p) { lock_at(p); }
API void GOMP_critical_name_end(void **p) { unlock_at(p); }
API void GOMP_atomic_start(void) { lock_at(&atom); }
API void GOMP_atomic_end(void) { unlock_at(&atom); }
API void omp_init_lock(void *p) { (void)p; }
API void omp_destroy_lock(void *p) { (void)p; }
API void omp_set_lock(void *p) { lock_at(p); }
API void omp_unset_lock(void *p) { unlock_at(p); }
API bool GOMP_single_start(void) {
  if (!S.team) return true;
  yield_point();
  co_t *c = &S.co[S.cur];
  if (c->single_index++ == S.single_done) { S.single_done++; return true; }
  return false;
}

/* dynamic work sharing: mode 0 static blocks, 1 dynamic, 2 guided */
static ws_t *ws_enter(void) {
  co_t *c = &S.co[S.team ? S.cur : 0];
  return &S.ws[c->ws_index % 64];
}
static bool next_l(long *a, long *b) {
  yield_point();
  ws_t *w = ws_enter();
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  long step = w->chunk * w->incr;
  *a = w->next;
  long e = w->next + step;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *b = e; w->next = e;
  return true;
}
static bool start_l(long s, long e, long i, long c, long *a, long *b) {
  ws_t *w = ws_enter();
  if (!w->used) { w->used = 1; w->next = s; w->end = e; w->incr = i; w->chunk = c > 0 ? c : 1; }
  return next_l(a, b);
}
static bool next_u(unsigned long *a, unsigned long *b) {
  yield_point();
  ws_t *w = ws_enter();
  if (w->mode ? w->unext >= w->uend : w->unext <= w->uend) return false;
  unsigned long step = w->uchunk * w->uincr, e;
  *a = w->unext;
  if (w->mode) { e = w->uend - w->unext <= step ? w->uend : w->unext + step; }
  else { unsigned long d = -step; e = w->unext - w->uend <= d ? w->uend : w->unext - d; }
  *b = e; w->unext = e;
  return true;
}
static bool start_u(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) {
  ws_t *w = ws_enter();
  if (!w->used) { w->used = 1; w->mode = up; w->unext = s; w->uend = e; w->uincr = i; w->uchunk = c > 0 ? c : 1; }
  return next_u(a, b);
}
#define LOOPS(n) \
  API bool GOMP_loop_##n##_start(long s, long e, long i, long c, long *a, long *b) { return start_l(s, e, i, c, a, b); } \
  API bool GOMP_loop_##n##_next(long *a, long *b) { return next_l(a, b); } \
  API bool GOMP_loop_ull_##n##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) { return start_u(up, s, e, i, c, a, b); } \
  API bool GOMP_loop_ull_##n##_next(unsigned long *a, unsigned long *b) { return next_u(a, b); } \
  API void GOMP_parallel_loop_##n(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { \
    if (S.team) { fn(d); return; } pl_s = s; pl_e = e; pl_i = i; pl_c = c; pl = 1; GOMP_parallel(fn, d, nt, fl); pl = 0; }
static long pl_s, pl_e, pl_i, pl_c; static int pl;
/* in a parallel-loop body the members call only ..._next, so an unused slot
   is initialised from the pending parallel-loop bounds */
static void adopt(void) { ws_t *w = ws_enter(); if (pl && !w->used) { w->used = 1; w->next = pl_s; w->end = pl_e; w->incr = pl_i; w->chunk = pl_c > 0 ? pl_c : 1; pl = 0; } }
#define next_l(a, b) (adopt(), next_l(a, b))
#define LOOPR(n) \
  API bool GOMP_loop_##n##_start(long s, long e, long i, long *a, long *b) { return start_l(s, e, i, 1, a, b); } \
  API bool GOMP_loop_##n##_next(long *a, long *b) { return next_l(a, b); } \
  API bool GOMP_loop_ull_##n##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long *a, unsigned long *b) { return start_u(up, s, e, i, 1, a, b); } \
  API bool GOMP_loop_ull_##n##_next(unsigned long *a, unsigned long *b) { return next_u(a, b); } \
  API void GOMP_parallel_loop_##n(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) { \
    if (S.team) { fn(d); return; } pl_s = s; pl_e = e; pl_i = i; pl_c = 1; pl = 1; GOMP_parallel(fn, d, nt, fl); pl = 0; }
LOOPS(dynamic) LOOPS(guided) LOOPS(static) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#undef next_l
API void GOMP_loop_end_nowait(void) { if (S.team) S.co[S.cur].ws_index++; }
API void GOMP_loop_end(void) { if (S.team) { S.co[S.cur].ws_index++; GOMP_barrier(); } }

/* ---------------- memory accesses -------------------------------- */
static inline void access_(void *p, int size, int wr) {
  (void)size;
  if (!S.team || S.cur < 0) return;
  char *s = S.co[S.cur].stack;
  if ((char *)p >= s && (char *)p < s + STACK) return;
  S.accesses++;
  S.addr = (uint64_t)p << 1 | (wr != 0);
  yield_point();
}
#define H(n) \
  API void __tsan_read##n(void *p) { access_(p, n, 0); } \
  API void __tsan_write##n(void *p) { access_(p, n, 1); } \
  API void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } \
  API void __tsan_volatile_write##n(void *p) { access_(p, n, 1); } \
  API void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } \
  API void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); }
H(1) H(2) H(4) H(8) H(16)
API void __tsan_read_range(void *p, long n) { access_(p, n, 0); }
API void __tsan_write_range(void *p, long n) { access_(p, n, 1); }
API void __tsan_func_entry(void *p) { (void)p; }
API void __tsan_func_exit(void) {}
API void __tsan_init(void) {}
API void __tsan_atomic_thread_fence(int m) { (void)m; }
API void __tsan_atomic_signal_fence(int m) { (void)m; }
#define AT(b, T) \
  API T __tsan_atomic##b##_load(const volatile T *a, int m) { access_((void *)a, sizeof(T), 0); return *a; } \
  API void __tsan_atomic##b##_store(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); *a = v; } \
  API T __tsan_atomic##b##_exchange(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); T o = *a; *a = v; return o; } \
  API T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); T o = *a; *a = o + v; return o; } \
  API T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); T o = *a; *a = o - v; return o; } \
  API T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); T o = *a; *a = o & v; return o; } \
  API T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); T o = *a; *a = o | v; return o; } \
  API T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int m) { access_((void *)a, sizeof(T), 1); T o = *a; *a = o ^ v; return o; } \
  API int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { access_((void *)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  API int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { access_((void *)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  API T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { access_((void *)a, sizeof(T), 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, int8_t) AT(16, int16_t) AT(32, int32_t) AT(64, int64_t)

/* ---------------- allocation -------------------------------------- */
#define RZ 64
#define MAGIC 0x5eedc0de5eedc0deUL
void *__real_malloc(size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) {
  S.mallocs++;
  if (S.fail_at && S.mallocs == S.fail_at) return NULL;
  unsigned char *p = __real_malloc(n + 2 * RZ);
  if (!p) return NULL;
  memset(p, 0x5a, RZ);
  ((uint64_t *)p)[0] = MAGIC; ((uint64_t *)p)[1] = n;
  memset(p + RZ, 0xa5, n);
  memset(p + RZ + n, 0x5a, RZ);
  S.live++;
  return p + RZ;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *q) {
  if (!q) return;
  unsigned char *p = (unsigned char *)q - RZ;
  uint64_t n = ((uint64_t *)p)[1];
  if (((uint64_t *)p)[0] != MAGIC) { S.status = 4; snprintf(S.why, sizeof S.why, "free of memory that is not allocated"); return; }
  int bad = 0;
  for (int i = 16; i < RZ; i++) if (p[i] != 0x5a) bad = 1;
  for (int i = 0; i < RZ; i++) if (p[RZ + n + i] != 0x5a) bad = 1;
  if (bad) { S.status = 4; snprintf(S.why, sizeof S.why, "write outside an allocated buffer"); }
  ((uint64_t *)p)[0] = 0;
  memset(q, 0xa5, n);
  S.live--;
  __real_free(p);
}
void *__wrap_realloc(void *q, size_t n) {
  void *r = __wrap_malloc(n);
  if (r && q) { uint64_t o = ((uint64_t *)((unsigned char *)q - RZ))[1]; memcpy(r, q, o < n ? o : n); __wrap_free(q); }
  return r;
}

/* ---------------- driver interface --------------------------------- */
API void vc_config(int nthreads, int ndev, int *steps, int *thr, long fail_at) {
  static int ds[64], dt[64];
  if (!S.log_enabled) { S.log_enabled = __real_malloc(4 * MAXSTEP); S.log_cur = __real_malloc(MAXSTEP); S.log_addr = __real_malloc(8 * MAXSTEP); S.log_choice = __real_malloc(MAXSTEP); S.log_runen = __real_malloc(MAXSTEP); }
  memcpy(ds, steps, ndev * sizeof(int)); memcpy(dt, thr, ndev * sizeof(int));
  S.nthreads = nthreads; S.dev_step = ds; S.dev_thr = dt; S.ndev = ndev; S.devpos = 0;
  S.nstep = 0; S.status = 0; S.why[0] = 0; S.accesses = 0; S.fail_at = fail_at; S.mallocs = 0; S.live = 0; S.team = 0; S.cur = -1; S.addr = 0;
}
API int vc_status(void) { if (!S.status && S.devpos < S.ndev) return 2; return S.status; }
API const char *vc_why(void) { return S.why; }
API int vc_steps(void) { return S.nstep; }
API const uint32_t *vc_log_enabled(void) { return S.log_enabled; }
API const unsigned char *vc_log(int which) { return which == 1 ? S.log_choice : which == 2 ? S.log_runen : (unsigned char *)S.log_cur; }
API const uint64_t *vc_log_addr(void) { return S.log_addr; }
API long vc_mallocs(void) { return S.mallocs; }
API long vc_live(void) { return S.live; }
API long vc_accesses(void) { return S.accesses; }
