// An OpenMP runtime and a ThreadSanitizer callback set of our own: threads of a parallel region run one at a time, control
// moves between them at instrumented accesses as a seeded scheduler decides, and the bytes every thread reads and writes in
// every region (split at barriers) are recorded.  This file is compiled without instrumentation.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <algorithm>
#include <pthread.h>
#include <semaphore.h>
#include "shim.hpp"

extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void __real_free(void *);

namespace shim {
std::vector<Region> regions;
int want_threads = 4;          // size of the team
int order = 0;                 // 0 first to last, 1 last to first, 2 seeded
uint64_t seed = 1;
unsigned switch_every = 0;     // 0: a thread keeps control to its end, a barrier or a lock; n: it hands over every ~n accesses
bool record = true;

static bool active = false;    // a region is running
static bool busy = false;      // inside this file (one thread runs at a time)
struct Busy { bool o; Busy() : o(busy) { busy = true; } ~Busy() { busy = o; } };
static uint64_t rs;
static uint64_t rnd() { rs += 0x9E3779B97F4A7C15ULL; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

struct Th {
  int id; sem_t go; bool done = false; bool at_barrier = false; bool wants_lock = false;
  int locks = 0; bool nested = false; bool in_atomic = false; int loops = 0, sections = 0, singles = 0;
  std::vector<Acc> acc; pthread_t h;
};
static std::vector<Th *> th; static Th *cur = nullptr; static thread_local Th *me = nullptr;
static sem_t main_go; static void (*body)(void *); static void *arg;
static bool lock_held = false; static Th *lock_owner = nullptr;
static std::vector<void *> freed;
struct Loop { bool started = false; long next, end, incr, chunk; unsigned long given = 0; };
static std::vector<Loop> loops;
static std::vector<int> single_done;

static bool runnable(Th *t) { return !t->done && !t->at_barrier && !(t->wants_lock && lock_held); }
static Th *pick() {
  std::vector<Th *> r;
  for (Th *t : th) if (runnable(t)) r.push_back(t);
  if (r.empty()) return nullptr;
  if (order == 1) return r.back();
  if (order == 2) return r[rnd() % r.size()];
  return r[0];
}
static void flush() {          // end of an epoch: the accesses of every thread become one recorded region
  if (record) { Region g; for (Th *t : th) { g.push_back(std::move(t->acc)); } regions.push_back(std::move(g)); }
  for (Th *t : th) t->acc.clear();
}
// gives control to some runnable thread; the caller sleeps unless it is chosen
static void handover(bool leaving) {
  Th *self = me;
  busy = true;
  Th *n = pick();
  if (!n) {
    bool all_done = true, waiting = false;
    for (Th *t : th) { if (!t->done) all_done = false; if (t->at_barrier) waiting = true; }
    if (all_done) { sem_post(&main_go); return; }
    if (!waiting) { fprintf(stderr, "shim: deadlock\n"); _Exit(70); }
    flush();
    for (Th *t : th) t->at_barrier = false;
    n = pick();
  }
  cur = n;
  busy = false;
  if (n == self) return;
  sem_post(&n->go);
  if (!leaving) sem_wait(&self->go);
}
static void *start(void *p) {
  me = (Th *)p;
  sem_wait(&me->go);
  body(arg);
  me->done = true;
  handover(true);
  return nullptr;
}
void run(void (*fn)(void *), void *data, unsigned nthreads) {
  if (active) { // nested: by the encountering thread alone
    bool o = me->nested; me->nested = true; fn(data); me->nested = o; return;
  }
  int T = nthreads ? nthreads : want_threads;
  busy = true;
  rs = seed;
  body = fn; arg = data; loops.clear(); single_done.clear(); lock_held = false;
  sem_init(&main_go, 0, 0);
  th.clear();
  for (int i = 0; i < T; ++i) { Th *t = new Th; t->id = i; sem_init(&t->go, 0, 0); th.push_back(t); }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
  for (Th *t : th) if (pthread_create(&t->h, &at, start, t)) { fprintf(stderr, "shim: pthread_create\n"); _Exit(70); }
  active = true;
  cur = pick(); busy = false; sem_post(&cur->go);
  sem_wait(&main_go);
  busy = true;
  active = false;
  for (Th *t : th) pthread_join(t->h, nullptr);
  flush();
  for (Th *t : th) { sem_destroy(&t->go); delete t; }
  th.clear();
  for (void *p : freed) __real_free(p);
  freed.clear();
  busy = false;
}
static bool mine() { return active && me; }
static unsigned tick = 0;
static inline void access(const volatile void *p, size_t n, int kind) {     // kind 0 read, 1 write
  if (!active || !me || n == 0 || busy) return;
  Th *t = me;
  busy = true;
  if (record) {
    uintptr_t a = (uintptr_t)p;
    int k = kind | (t->locks || t->in_atomic ? 2 : 0);
    bool merged = false;
    for (int b = 1; b <= 4 && b <= (int)t->acc.size() && !merged; ++b) {
      Acc &x = t->acc[t->acc.size() - b];
      if (x.kind == k && a <= x.hi && a + n >= x.lo) { x.lo = std::min(x.lo, a); x.hi = std::max(x.hi, a + n); merged = true; }
    }
    if (!merged) t->acc.push_back({a, a + n, k});
    if (t->acc.size() > 200000) compact(t->acc);
  }
  busy = false;
  if (switch_every && !t->locks && !t->in_atomic && rnd() % switch_every == 0) handover(false);
}
void compact(std::vector<Acc> &v) {
  std::sort(v.begin(), v.end(), [](const Acc &x, const Acc &y) { return x.kind != y.kind ? x.kind < y.kind : x.lo < y.lo; });
  size_t o = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (o && v[o - 1].kind == v[i].kind && v[i].lo <= v[o - 1].hi) v[o - 1].hi = std::max(v[o - 1].hi, v[i].hi);
    else v[o++] = v[i];
  }
  v.resize(o);
}
static void lock() { if (!mine()) return; me->wants_lock = true; while (lock_held) handover(false); me->wants_lock = false; lock_held = true; me->locks++; }
static void unlock() { if (!mine()) return; lock_held = false; me->locks--; }
static void barrier() { if (!mine() || me->nested) return; me->at_barrier = true; handover(false); }
static Loop &loop(long s, long e, long inc, long ch, bool init) {
  size_t i = me ? me->loops : 0;
  if (init && loops.size() <= i) loops.resize(i + 1);
  Loop &L = loops[i];
  if (init && !L.started) { L.started = true; L.next = s; L.end = e; L.incr = inc; L.chunk = ch > 0 ? ch : 1; }
  return L;
}
static bool take(Loop &L, long *ps, long *pe) {
  long s = L.next;
  if (L.incr > 0 ? s >= L.end : s <= L.end) return false;
  long e = s + L.chunk * L.incr;
  if (L.incr > 0 ? e > L.end : e < L.end) e = L.end;
  L.next = e; *ps = s; *pe = e;
  if (order != 0 || switch_every) { }
  return true;
}
}  // namespace shim
using namespace shim;

extern "C" {
// ---------------------------------------------------------------- OpenMP
int omp_get_thread_num() { return me && !me->nested ? me->id : 0; }
int omp_get_num_threads() { return me && !me->nested ? (int)th.size() : 1; }
int omp_get_max_threads() { return want_threads; }
int omp_get_num_procs() { return want_threads; }
int omp_in_parallel() { return me != nullptr; }
void omp_set_num_threads(int n) { want_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_level() { return me ? 1 : 0; }
double omp_get_wtime() { return 0; }
struct omp_lock_dummy { int x; };
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *) { lock(); }
void omp_unset_lock(void *) { unlock(); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run(fn, data, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_critical_start() { lock(); }
void GOMP_critical_end() { unlock(); }
void GOMP_critical_name_start(void **) { lock(); }
void GOMP_critical_name_end(void **) { unlock(); }
void GOMP_atomic_start() { lock(); }
void GOMP_atomic_end() { unlock(); }
bool GOMP_single_start() { if (!me) return true; size_t i = me->singles++; if (single_done.size() <= i) single_done.resize(i + 1, 0); if (single_done[i]) return false; single_done[i] = 1; return true; }
// iterations are handed out one chunk at a time; a thread yields before taking one, so that every distribution can occur
#define NEXT(name) bool name(long *s, long *e) { if (mine() && (switch_every || order)) handover(false); return take(loop(0, 0, 0, 0, false), s, e); }
#define START(name) bool name(long a, long b, long inc, long ch, long *s, long *e) { Loop &L = loop(a, b, inc, ch, true); if (mine() && (switch_every || order)) handover(false); (void)L; return take(loop(0, 0, 0, 0, false), s, e); }
#define START3(name) bool name(long a, long b, long inc, long *s, long *e) { loop(a, b, inc, 1, true); if (mine() && (switch_every || order)) handover(false); return take(loop(0, 0, 0, 0, false), s, e); }
#define PLOOP(name) void name(void (*fn)(void *), void *data, unsigned n, long a, long b, long inc, long ch, unsigned) { pre = {true, a, b, inc, ch, 0}; run2(fn, data, n); }
#define PLOOP3(name) void name(void (*fn)(void *), void *data, unsigned n, long a, long b, long inc, unsigned) { pre = {true, a, b, inc, 1, 0}; run2(fn, data, n); }
static Loop pre;
struct Pack { void (*fn)(void *); void *data; Loop L; };
static void tramp(void *p) { Pack *k = (Pack *)p; loop(k->L.next, k->L.end, k->L.incr, k->L.chunk, true); k->fn(k->data); }
static void run2(void (*fn)(void *), void *data, unsigned n) { Pack k{fn, data, pre}; run(tramp, &k, n); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided) PLOOP(GOMP_parallel_loop_static)
PLOOP3(GOMP_parallel_loop_runtime) PLOOP3(GOMP_parallel_loop_nonmonotonic_runtime) PLOOP3(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
NEXT(GOMP_loop_dynamic_next) NEXT(GOMP_loop_guided_next) NEXT(GOMP_loop_nonmonotonic_dynamic_next) NEXT(GOMP_loop_nonmonotonic_guided_next) NEXT(GOMP_loop_static_next)
NEXT(GOMP_loop_runtime_next) NEXT(GOMP_loop_nonmonotonic_runtime_next) NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
START(GOMP_loop_dynamic_start) START(GOMP_loop_guided_start) START(GOMP_loop_nonmonotonic_dynamic_start) START(GOMP_loop_nonmonotonic_guided_start) START(GOMP_loop_static_start)
START3(GOMP_loop_runtime_start) START3(GOMP_loop_nonmonotonic_runtime_start) START3(GOMP_loop_maybe_nonmonotonic_runtime_start)
void GOMP_loop_end() { if (me) me->loops++; barrier(); }
void GOMP_loop_end_nowait() { if (me) me->loops++; }
static unsigned sec_next, sec_n;
static void tramp_sec(void *p) { Pack *k = (Pack *)p; k->fn(k->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) { sec_next = 0; sec_n = count; Pack k{fn, data, {}}; run(tramp_sec, &k, n); }
unsigned GOMP_sections_start(unsigned count) { if (sec_n == 0) { sec_n = count; sec_next = 0; } return sec_next < sec_n ? ++sec_next : 0; }
unsigned GOMP_sections_next() { return sec_next < sec_n ? ++sec_next : 0; }
void GOMP_sections_end() { barrier(); sec_n = 0; }
void GOMP_sections_end_nowait() {}

// ------------------------------------------------------------ ThreadSanitizer callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, 1); }
void __tsan_vptr_read(void **p) { access(p, 8, 0); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, 0); } void __tsan_write##n(void *p) { access(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, 0); } void __tsan_unaligned_write##n(void *p) { access(p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, 0); } void __tsan_volatile_write##n(void *p) { access(p, n, 1); } \
  void __tsan_read_write##n(void *p) { access(p, n, 0); access(p, n, 1); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, 0); access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, 1); }
#define AT(b, T) \
  static void at##b(const volatile T *p, int k) { if (me) { me->in_atomic = true; access(p, sizeof(T), k); me->in_atomic = false; } } \
  T __tsan_atomic##b##_load(const volatile T *p, int) { at##b(p, 0); return *p; } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int) { at##b(p, 1); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { at##b(p, 1); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { at##b(p, 1); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { at##b(p, 1); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { at##b(p, 1); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { at##b(p, 1); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { at##b(p, 1); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { at##b(p, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int a, int d) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, a, d); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) { at##b(p, 1); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, 0); access(d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, 0); access(d, n, 1); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, 1); return __real_memset(d, c, n); }
void __wrap_free(void *p) { if (active && me && !busy && p) { busy = true; freed.push_back(p); busy = false; } else __real_free(p); }
// initialisation of function-local statics
int __cxa_guard_acquire(uint64_t *g) { if (*(volatile char *)g) return 0; lock(); if (*(volatile char *)g) { unlock(); return 0; } return 1; }
void __cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; unlock(); }
void __cxa_guard_abort(uint64_t *) { unlock(); }
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
