// An OpenMP runtime in which every iteration of a parallel loop is a thread of its own, and the schedule is an input.
// Threads run until they want to enter a critical section or end; which of the waiting threads enters next is chosen by
// ns_int.  Code outside critical sections need not be interleaved: any two conflicting accesses that are not ordered by
// critical sections are a data race and reported as such (vector clocks), and without races the order of the critical
// sections determines the result.  In the symbolic build threads are coroutines and accesses are reported by the
// instrumentation; in the native build they are real threads that take turns and ThreadSanitizer reports races.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <vector>
#include "ns.h"
#include "par.h"
extern "C" void __ns_violation(const char *);
#ifdef NS_NATIVE
#include <climits>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" { const char *__tsan_default_options() { return "history_size=7:exitcode=0"; } void __tsan_acquire(void *); void __tsan_release(void *); void __tsan_on_report(void *) { __ns_violation("two iterations touch the same data without mutual exclusion"); } }
#define QUIET __attribute__((disable_sanitizer_instrumentation))
#else
#include <sys/mman.h>
#include <ucontext.h>
extern "C" { void __ns_set_memhook(void (*)(void *, int64_t, int)); void __ns_globreg(void *, int64_t, const char *); }
#define QUIET
#endif
typedef void (*micro_t)(int *, int *, ...);
enum { MAXT = 128, MAXL = 16, MAXA = 16 };
enum State { READY, WAITING, PARKED, JOINING, DONE };
struct Region;
struct Thread {
  int tid, index, state, started; void *lock; Region *in; unsigned vc[MAXT];
#ifdef NS_NATIVE
  pthread_t pt; volatile int go;
#else
  ucontext_t ctx;
#endif
};
struct Region { micro_t fn; int argc; void *args[MAXA]; int n, known, alive; Thread *owner; char *sync; };
struct Lock { void *key; int owner; unsigned vc[MAXT]; };
// all state of the current path; plain data, reset when a path starts
static struct S { int init, nthreads, cur, depth, arbitrary, regions, sections, nlocks, initialising; Thread t[MAXT]; Lock l[MAXL]; } G;
#ifndef NS_NATIVE
static char *stacks; static const size_t STK = 16u << 20;
namespace { struct Acc { unsigned tid, clk; unsigned char mask, write; };
// accesses since the outermost parallel loop started, by 8-byte word
struct Shadow { static const size_t N = 1u << 20; struct E { uint64_t key; unsigned gen; unsigned n; Acc a[40]; }; E *e = nullptr; unsigned gen = 0; } SH;
struct AtStart { AtStart() { __ns_globreg(&G, sizeof G, "omp"); } } atstart; }
#include <execinfo.h>
#include <unistd.h>
static void dbg(int a, int b, int w, int xw, void *p) { fprintf(stderr, "race %d(%d) %d(%d) at %p\n", a, w, b, xw, p); void *bt[20]; int n = backtrace(bt, 20); backtrace_symbols_fd(bt, n, 2); }
static void record(void *p, int64_t n, int w) {
  if (!G.depth || G.initialising) return; uintptr_t a = (uintptr_t)p; uintptr_t fs; __asm__("mov %%fs:0, %0" : "=r"(fs)); if (a + 65536 > fs && a < fs + 4096) return;   // thread-local data
  Thread &c = G.t[G.cur]; for (uintptr_t end = a + n; a < end;) {
    uintptr_t k = a >> 3; unsigned lo = a & 7, m = 0; for (; lo < 8 && a < end; ++lo, ++a) m |= 1u << lo;
    size_t h = (k * 0x9E3779B97F4A7C15ULL) >> 44; Shadow::E *e; for (;; h = (h + 1) & (Shadow::N - 1)) { e = &SH.e[h]; if (e->gen != SH.gen) { e->gen = SH.gen; e->key = k; e->n = 0; break; } if (e->key == k) break; }
    bool have = false; unsigned j = 0; for (unsigned i = 0; i < e->n; ++i) { Acc x = e->a[i];
      if ((x.mask & m) && x.tid != (unsigned)c.tid && (w || x.write) && x.clk > c.vc[x.tid]) { if (getenv("NSO_DEBUG")) dbg(c.tid, x.tid, w, x.write, p); __ns_violation("two iterations touch the same data without mutual exclusion"); }
      if (x.tid == (unsigned)c.tid) { if (x.clk == c.vc[c.tid] && x.write == w) { x.mask |= m; have = true; } else if ((x.mask & ~m) == 0 && x.write <= w) continue; }
      else if (x.clk <= c.vc[x.tid] && (x.mask & ~m) == 0 && (w || !x.write)) continue;   // replaced by this later write
      e->a[j++] = x; }
    e->n = j; if (!have) { if (e->n == 40) ns_unsupported("too many iterations touch the same data"); e->a[e->n++] = {(unsigned)c.tid, c.vc[c.tid], (unsigned char)m, (unsigned char)w}; } } }
#else
QUIET static void sleepon(volatile int *w) { while (!__atomic_load_n(w, __ATOMIC_SEQ_CST)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_SEQ_CST); }
QUIET static void wake(volatile int *w) { __atomic_store_n(w, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, INT_MAX, 0, 0, 0); }
#endif
QUIET static void zero(void *p, size_t n) { for (size_t i = 0; i < n; ++i) ((volatile char *)p)[i] = 0; }
QUIET static void copy(void *p, const void *q, size_t n) { for (size_t i = 0; i < n; ++i) ((volatile char *)p)[i] = ((const volatile char *)q)[i]; }
QUIET static void setup() {
  if (G.init) return; G.init = 1; G.nthreads = 1; G.cur = 0; G.t[0].tid = 0; G.t[0].state = READY; G.t[0].vc[0] = 1;
#ifndef NS_NATIVE
  if (!stacks) { stacks = (char *)mmap(0, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); SH.e = (Shadow::E *)mmap(0, sizeof(Shadow::E) * Shadow::N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  __ns_set_memhook(record);
#endif
}
QUIET static void join_vc(unsigned *a, const unsigned *b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
// ---- switching between threads: the thread that entered the outermost loop runs the scheduler
QUIET static void body(Thread &t) {
  Region &r = *t.in; int g = t.tid, b = 0; void **a = r.args;
#ifdef NS_NATIVE
  __tsan_acquire(r.sync);
#endif
  try {
    switch (r.argc) {
      case 0: r.fn(&g, &b); break; case 1: r.fn(&g, &b, a[0]); break; case 2: r.fn(&g, &b, a[0], a[1]); break; case 3: r.fn(&g, &b, a[0], a[1], a[2]); break; case 4: r.fn(&g, &b, a[0], a[1], a[2], a[3]); break; case 5: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4]); break;
      case 6: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5]); break; case 7: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break; case 8: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 9: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
      case 10: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break; case 11: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break; case 12: r.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
    }
  } catch (...) { __ns_violation("an exception leaves a parallel loop"); }
#ifdef NS_NATIVE
  __tsan_release(r.sync + 8);
#endif
  t.state = DONE; if (--r.alive == 0 && r.owner->state == JOINING) r.owner->state = READY;
}
#ifdef NS_NATIVE
QUIET static void *entry(void *p) { Thread &t = *(Thread *)p; sleepon(&t.go); body(t); wake(&G.t[0].go); return 0; }
QUIET static void toscheduler(Thread &t) { wake(&G.t[0].go); sleepon(&t.go); }
#else
static void entry(int k) { body(G.t[k]); setcontext(&G.t[0].ctx); }
static void toscheduler(Thread &t) { swapcontext(&t.ctx, &G.t[0].ctx); }
#endif
QUIET static void run(Thread &t) {
  G.cur = t.tid;
#ifdef NS_NATIVE
  if (!t.started) { t.started = 1; t.go = 0; pthread_create(&t.pt, 0, entry, &t); }
  wake(&t.go); sleepon(&G.t[0].go);
#else
  if (!t.started) { t.started = 1; getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = stacks + STK * t.tid; t.ctx.uc_stack.ss_size = STK; t.ctx.uc_link = 0; makecontext(&t.ctx, (void (*)())entry, 1, t.tid); }
  swapcontext(&G.t[0].ctx, &t.ctx);
#endif
  G.cur = 0;
}
QUIET static void spawn(Region &r, int index) {
  // the number of a finished thread is used again by those that come after it in every schedule
  int k = -1; unsigned clk = 0; for (int i = 1; i < G.nthreads && k < 0; ++i) if (!G.t[i].in && r.owner->vc[i] >= G.t[i].vc[i]) { k = i; clk = G.t[i].vc[i]; }
  if (k < 0) { if (G.nthreads == MAXT) ns_unsupported("too many iterations"); k = G.nthreads++; }
  Thread &t = G.t[k]; zero((void *)&t, sizeof t); t.tid = k; t.index = index; t.in = &r; t.state = READY; copy(t.vc, r.owner->vc, sizeof t.vc); t.vc[k] = clk + 1; r.alive++;
}
QUIET static Lock &lockof(void *key) {
  for (int i = 0; i < G.nlocks; ++i) if (G.l[i].key == key) return G.l[i];
  if (G.nlocks == MAXL) ns_unsupported("too many named critical sections");
  Lock &l = G.l[G.nlocks++]; zero((void *)&l, sizeof l); l.key = key; l.owner = -1; return l;
}
QUIET static bool unpark() {   // a barrier opens when every living thread of its loop has arrived
  for (int i = 1; i < G.nthreads; ++i) {
    Thread &t = G.t[i]; if (!t.in || t.state != PARKED) continue; int here = 0; unsigned m[MAXT] = {0};
    for (int j = 1; j < G.nthreads; ++j) if (G.t[j].in == t.in && G.t[j].state == PARKED) { ++here; join_vc(m, G.t[j].vc); }
    if (here < t.in->alive) continue; Region *r = t.in;
    for (int j = 1; j < G.nthreads; ++j) if (G.t[j].in == r && G.t[j].state == PARKED) { join_vc(G.t[j].vc, m); G.t[j].vc[j]++; G.t[j].state = READY; }
    return true;
  }
  return false;
}
QUIET static void schedule(Region &r) {
  while (r.alive) {
    int ready = -1, wait[MAXT], n = 0;
    for (int i = 1; i < G.nthreads && ready < 0; ++i) { Thread &t = G.t[i]; if (!t.in) continue; if (t.state == READY) ready = i; else if (t.state == WAITING && lockof(t.lock).owner < 0) wait[n++] = i; }
    if (ready >= 0) { run(G.t[ready]); continue; }
    if (!n) { if (unpark()) continue; __ns_violation("deadlock"); }
    int k = wait[G.arbitrary && n > 1 ? ns_int("turn", 0, n - 1) : 0]; G.t[k].state = READY; run(G.t[k]);
  }
}
QUIET static void acquire(void *key) {
  setup(); Thread &t = G.t[G.cur]; if (lockof(key).owner == t.tid) __ns_violation("a critical section is entered from within itself");
  if (t.in) { t.state = WAITING; t.lock = key; toscheduler(t); } else if (lockof(key).owner >= 0) __ns_violation("deadlock");
  Lock &l = lockof(key); l.owner = t.tid; ++G.sections; join_vc(t.vc, l.vc);
#ifdef NS_NATIVE
  __tsan_acquire(&l);
#endif
}
QUIET static void release(void *key) {
  Lock &l = lockof(key); Thread &t = G.t[G.cur];
#ifdef NS_NATIVE
  __tsan_release(&l);
#endif
  l.owner = -1; join_vc(l.vc, t.vc); t.vc[t.tid]++;
}
QUIET static void fork_(micro_t fn, int argc, void **args) {
  setup(); if (argc > 12) { ns_unsupported("a parallel loop that shares more than 12 variables"); return; }
  Region r; zero((void *)&r, sizeof r); r.fn = fn; r.argc = argc; copy(r.args, args, sizeof(void *) * argc); Thread &o = G.t[G.cur]; r.owner = &o; r.n = 1;
#ifdef NS_NATIVE
  static char syncs[1 << 20]; static long nsyncs = 0; r.sync = syncs + 32 * (nsyncs++ % (1 << 15)); __tsan_release(r.sync);   // addresses of their own
#else
  if (!G.depth) ++SH.gen;
#endif
  ++G.depth; spawn(r, 0); if (o.tid == 0) schedule(r); else { o.state = JOINING; toscheduler(o); }
  for (int i = 1; i < G.nthreads; ++i) { Thread &t = G.t[i]; if (t.in != &r) continue; join_vc(o.vc, t.vc); t.in = nullptr;
#ifdef NS_NATIVE
    pthread_join(t.pt, 0);
#endif
  }
#ifdef NS_NATIVE
  __tsan_acquire(r.sync + 8);
#endif
  o.vc[o.tid]++; --G.depth; if (o.tid == 0) { G.nthreads = 1; for (int i = 0; i < G.nlocks; ++i) zero(G.l[i].vc, sizeof G.l[i].vc); zero(o.vc, sizeof o.vc); o.vc[0] = 1; }
}
// the first thread of a loop learns how many iterations there are and brings the others to life: one for each iteration,
// or LONG threads with a share of consecutive iterations each
enum { SHORT = 12, LONG = 3 };
QUIET static int64_t mine(int64_t trips, int64_t &count) {
  Thread &t = G.t[G.cur]; count = 1; if (!t.in) return -2; Region &r = *t.in; int n = trips > SHORT ? LONG : trips > 1 ? trips : 1;
  if (!r.known) { r.known = 1; if (trips > 1) ++G.regions; for (int i = 1; i < n; ++i) spawn(r, i); r.n = n; }
  if (trips > r.n) { int64_t lo = trips * t.index / r.n, hi = trips * (t.index + 1) / r.n; count = hi - lo; return lo; }
  return t.index < trips ? t.index : -1;
}
template <class T> QUIET static void bounds(int *last, T *lo, T *hi, T *stride, int64_t incr) {
  int64_t n = incr > 0 ? (*hi >= *lo ? (int64_t)(*hi - *lo) / incr + 1 : 0) : (*lo >= *hi ? (int64_t)(*lo - *hi) / -incr + 1 : 0), c = 1; int64_t k = mine(n, c);
  if (last) *last = 0; if (k == -2) { if (last) *last = 1; return; }
  if (k < 0) { *lo = *hi + (T)incr; return; }
  if (last) *last = k + c == n; *lo = *lo + (T)(k * incr); *hi = *lo + (T)((c - 1) * incr); if (stride) *stride = (T)(n * incr);
}
extern "C" {
QUIET void nso_schedule(int a) { setup(); G.arbitrary = a; } QUIET int nso_regions() { return G.regions; } QUIET int nso_sections() { return G.sections; }
QUIET void __kmpc_fork_call(void *, int argc, micro_t fn, ...) { void *a[MAXA]; if (argc > 12) { ns_unsupported("a parallel loop that shares more than 12 variables"); return; } va_list v; va_start(v, fn); for (int i = 0; i < argc; ++i) a[i] = va_arg(v, void *); va_end(v); fork_(fn, argc, a); }
QUIET void __kmpc_fork_call_if(void *, int argc, micro_t fn, int cond, void *arg) { if (cond) { fork_(fn, argc, &arg); return; } int g = 0, b = 0; argc ? fn(&g, &b, arg) : fn(&g, &b); }
QUIET void __kmpc_for_static_init_4(void *, int, int, int *last, int *lo, int *hi, int *st, int incr, int) { bounds<int>(last, lo, hi, st, incr); }
QUIET void __kmpc_for_static_init_4u(void *, int, int, int *last, unsigned *lo, unsigned *hi, int *st, int incr, int) { unsigned s; bounds<unsigned>(last, lo, hi, &s, incr); if (st) *st = 1 << 30; }
QUIET void __kmpc_for_static_init_8(void *, int, int, int *last, int64_t *lo, int64_t *hi, int64_t *st, int64_t incr, int64_t) { bounds<int64_t>(last, lo, hi, st, incr); }
QUIET void __kmpc_for_static_init_8u(void *, int, int, int *last, uint64_t *lo, uint64_t *hi, int64_t *st, int64_t incr, int64_t) { uint64_t s; bounds<uint64_t>(last, lo, hi, &s, incr); if (st) *st = (int64_t)1 << 60; }
QUIET void __kmpc_for_static_fini(void *, int) {}
#define DISPATCH(X, T, ST) struct D##X { T lo, hi; int64_t incr, taken; }; static D##X d##X[MAXT]; \
QUIET void __kmpc_dispatch_init_##X(void *, int, int, T lo, T hi, ST incr, ST) { d##X[G.cur] = {lo, hi, (int64_t)incr, 0}; } \
QUIET int __kmpc_dispatch_next_##X(void *, int, int *last, T *lo, T *hi, ST *st) { D##X &d = d##X[G.cur]; if (d.taken) return 0; d.taken = 1; T l = d.lo, h = d.hi; bounds<T>(last, &l, &h, (T *)nullptr, d.incr); if (d.incr > 0 ? l > h : l < h) return 0; *lo = l; *hi = h; if (st) *st = (ST)d.incr; return 1; } \
QUIET void __kmpc_dispatch_fini_##X(void *, int) {}
DISPATCH(4, int, int) DISPATCH(4u, unsigned, int) DISPATCH(8, int64_t, int64_t) DISPATCH(8u, uint64_t, int64_t)
QUIET int __kmpc_global_thread_num(void *) { return G.cur; } QUIET void __kmpc_push_num_threads(void *, int, int) {} QUIET void __kmpc_push_proc_bind(void *, int, int) {}
QUIET void __kmpc_serialized_parallel(void *, int) {} QUIET void __kmpc_end_serialized_parallel(void *, int) {}
QUIET void __kmpc_critical(void *, int, void *k) { acquire(k); } QUIET void __kmpc_critical_with_hint(void *, int, void *k, unsigned) { acquire(k); } QUIET void __kmpc_end_critical(void *, int, void *k) { release(k); }
QUIET void __kmpc_barrier(void *, int) { Thread &t = G.t[G.cur]; if (!t.in) return; t.state = PARKED; 
#ifdef NS_NATIVE
  __tsan_release(t.in->sync + 16);
#endif
  toscheduler(t);
#ifdef NS_NATIVE
  __tsan_acquire(t.in->sync + 16);
#endif
}
QUIET int __kmpc_single(void *, int) { return G.t[G.cur].index == 0; } QUIET void __kmpc_end_single(void *, int) {} QUIET int __kmpc_master(void *, int) { return G.t[G.cur].index == 0; } QUIET void __kmpc_end_master(void *, int) {} QUIET int __kmpc_masked(void *, int, int) { return G.t[G.cur].index == 0; } QUIET void __kmpc_end_masked(void *, int) {}
static int redkey;
QUIET static void combine(bool in) { setup(); Lock &l = lockof(&redkey); Thread &t = G.t[G.cur]; if (in) { join_vc(t.vc, l.vc);
#ifdef NS_NATIVE
  __tsan_acquire(&l);
#endif
  return; }
#ifdef NS_NATIVE
  __tsan_release(&l);
#endif
  join_vc(l.vc, t.vc); t.vc[t.tid]++; }
QUIET int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void (*)(void *, void *), void *k) { combine(true); return 1; } QUIET void __kmpc_end_reduce_nowait(void *, int, void *) { combine(false); }
QUIET int __kmpc_reduce(void *, int, int, size_t, void *, void (*)(void *, void *), void *k) { combine(true); return 1; } QUIET void __kmpc_end_reduce(void *, int, void *) { combine(false); }
QUIET int omp_get_thread_num() { return G.t[G.cur].index; } QUIET int omp_get_num_threads() { return G.t[G.cur].in ? G.t[G.cur].in->n : 1; } QUIET int omp_get_max_threads() { return 1; } QUIET int omp_in_parallel() { return G.depth > 0; } QUIET int omp_get_num_procs() { return 1; } QUIET void omp_set_num_threads(int) {} QUIET int omp_get_level() { return G.depth; } QUIET double omp_get_wtime() { return 0; }
QUIET void omp_init_lock(void **l) { *l = l; } QUIET void omp_destroy_lock(void **) {} QUIET void omp_set_lock(void **l) { acquire(l); } QUIET void omp_unset_lock(void **l) { release(l); }
#ifndef NS_NATIVE
// the initialisation of function-local constants is synchronised by the language
int __cxa_guard_acquire(int64_t *g) { if (*(char *)g) return 0; ++G.initialising; return 1; } void __cxa_guard_release(int64_t *g) { *(char *)g = 1; --G.initialising; } void __cxa_guard_abort(int64_t *) { --G.initialising; }
#endif
}
