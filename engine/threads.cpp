// The part of GCC's OpenMP interface (libgomp) that loops, sections, single,
// critical, atomic and barrier constructs need, on plain pthreads so that a
// race detector sees exactly the synchronisation OpenMP guarantees.
#include "threads.h"
#include <pthread.h>
#include <stdlib.h>
#include <map>
#include <vector>

namespace omp { Plan plan; long regions = 0; }

namespace {
struct Mutex { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; void lock() { pthread_mutex_lock(&m); } void unlock() { pthread_mutex_unlock(&m); } };
struct Hold { Mutex& m; explicit Hold(Mutex& m_) : m(m_) { m.lock(); } ~Hold() { m.unlock(); } };
struct Share { bool init = false; bool up = true; long long next = 0, end = 0, incr = 1, chunk = 1; unsigned claimed = 0; };
struct Team {
  unsigned n = 1; bool ordered = false; std::vector<unsigned> rank; Mutex m; pthread_cond_t c = PTHREAD_COND_INITIALIZER; unsigned token = 0, arrived = 0, phase = 0; std::map<unsigned, Share> shares;
  void (*fn)(void*) = nullptr; void* data = nullptr;
  void acquire(unsigned id) { if (!ordered) return; m.lock(); while (token != rank[id]) pthread_cond_wait(&c, &m.m); m.unlock(); }
  void release() { if (!ordered) return; m.lock(); token++; pthread_cond_broadcast(&c); m.unlock(); }
};
thread_local Team* team = nullptr; thread_local unsigned self = 0, seq = 0;
Mutex global; std::map<void**, Mutex*> named;
uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Arg { Team* t; unsigned id; };
void body(Team* t, unsigned id) { Team* old = team; unsigned oi = self, os = seq; team = t; self = id; seq = 0; t->acquire(id); t->fn(t->data); t->release(); team = old; self = oi; seq = os; }
void* entry(void* a) { Arg* g = (Arg*)a; body(g->t, g->id); return nullptr; }
void parallel(void (*fn)(void*), void* data, unsigned want, const Share* pre = nullptr) {
  Team t; t.fn = fn; t.data = data; t.n = team ? 1 : omp::plan.threads; if (want && want < t.n) t.n = want; if (t.n < 1) t.n = 1; if (pre) t.shares[0] = *pre;
  if (t.n == 1) { body(&t, 0); return; }
  uint64_t r = mix(omp::plan.seed + (uint64_t)omp::regions++ * 7919); t.ordered = omp::plan.ordered; for (unsigned k = 0; k < t.n; k++) t.rank.push_back(k);
  for (unsigned k = t.n; k > 1; k--) { r = mix(r); unsigned o = (unsigned)(r % k); unsigned x = t.rank[k - 1]; t.rank[k - 1] = t.rank[o]; t.rank[o] = x; }
  std::vector<pthread_t> th(t.n); std::vector<Arg> args(t.n); for (unsigned k = 1; k < t.n; k++) { args[k] = {&t, k}; if (pthread_create(&th[k], nullptr, entry, &args[k])) abort(); }
  body(&t, 0); for (unsigned k = 1; k < t.n; k++) pthread_join(th[k], nullptr);
}
void barrier() {
  Team* t = team; if (!t || t->n == 1) return; if (t->ordered) t->release();
  t->m.lock(); unsigned p = t->phase; if (++t->arrived == t->n) { t->arrived = 0; t->token = 0; t->phase++; pthread_cond_broadcast(&t->c); } else while (t->phase == p) pthread_cond_wait(&t->c, &t->m.m); t->m.unlock(); if (t->ordered) t->acquire(self);
}
Team solo;
template <class F> auto with_share(F f) -> decltype(f(*(Share*)nullptr)) { Team* t = team ? team : &solo; Hold h(t->m); return f(t->shares[seq]); }
bool take(Share& s, long long* a, long long* b) {
  if (s.up ? s.next >= s.end : s.next <= s.end) return false; *a = s.next; long long step = s.chunk * s.incr, left = s.end - s.next; if (s.up ? step >= left : step <= left) step = left; s.next += step; *b = s.next; return true;
}
bool start(long long b, long long e, long long i, long long c, long long* x, long long* y) { return with_share([&](Share& s) { if (!s.init) { s.init = true; s.next = b; s.end = e; s.incr = i; s.up = i > 0; s.chunk = c > 0 ? c : 1; } return take(s, x, y); }); }
bool next(long long* x, long long* y) { return with_share([&](Share& s) { return take(s, x, y); }); }
void finish() { seq++; }
Share make(long long b, long long e, long long i, long long c) { Share s; s.init = true; s.next = b; s.end = e; s.incr = i; s.up = i > 0; s.chunk = c > 0 ? c : 1; return s; }
}  // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { global.lock(); }
void GOMP_critical_end() { global.unlock(); }
void GOMP_critical_name_start(void** p) { Mutex* m; { Hold h(global); Mutex*& r = named[p]; if (!r) r = new Mutex; m = r; } m->lock(); }
void GOMP_critical_name_end(void** p) { Mutex* m; { Hold h(global); m = named[p]; } m->unlock(); }
void GOMP_atomic_start() { global.lock(); }
void GOMP_atomic_end() { global.unlock(); }
bool GOMP_single_start() { bool first = with_share([](Share& s) { return s.claimed++ == 0; }); seq++; return first; }
void GOMP_loop_end() { finish(); barrier(); }
void GOMP_loop_end_nowait() { finish(); }
#define LOOPS(NAME) \
  bool GOMP_loop_##NAME##_start(long b, long e, long i, long c, long* x, long* y) { long long p, q; bool r = start(b, e, i, c, &p, &q); if (r) { *x = (long)p; *y = (long)q; } return r; } \
  bool GOMP_loop_##NAME##_next(long* x, long* y) { long long p, q; bool r = next(&p, &q); if (r) { *x = (long)p; *y = (long)q; } return r; } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long b, long e, long i, long c, unsigned) { Share s = make(b, e, i, c); parallel(fn, data, n, &s); } \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long b, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* x, unsigned long long* y) { long long p, q; bool r = start((long long)b, (long long)e, (long long)i, (long long)c, &p, &q); if (r) { *x = (unsigned long long)p; *y = (unsigned long long)q; } return r; } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* x, unsigned long long* y) { long long p, q; bool r = next(&p, &q); if (r) { *x = (unsigned long long)p; *y = (unsigned long long)q; } return r; }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#undef LOOPS
#define RUNTIME(NAME) \
  bool GOMP_loop_##NAME##_start(long b, long e, long i, long* x, long* y) { return GOMP_loop_dynamic_start(b, e, i, 1, x, y); } \
  bool GOMP_loop_##NAME##_next(long* x, long* y) { return GOMP_loop_dynamic_next(x, y); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long b, long e, long i, unsigned) { Share s = make(b, e, i, 1); parallel(fn, data, n, &s); } \
  bool GOMP_loop_ull_##NAME##_start(bool u, unsigned long long b, unsigned long long e, unsigned long long i, unsigned long long* x, unsigned long long* y) { return GOMP_loop_ull_dynamic_start(u, b, e, i, 1, x, y); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* x, unsigned long long* y) { return GOMP_loop_ull_dynamic_next(x, y); }
RUNTIME(runtime) RUNTIME(nonmonotonic_runtime) RUNTIME(maybe_nonmonotonic_runtime)
#undef RUNTIME
unsigned GOMP_sections_next() { long long a, b; return next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long long a, b; return start(1, (long long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Share s = make(1, (long long)count + 1, 1, 1); parallel(fn, data, n, &s); }
void GOMP_sections_end() { finish(); barrier(); }
void GOMP_sections_end_nowait() { finish(); }
int omp_get_thread_num() { return team ? (int)self : 0; }
int omp_get_num_threads() { return team ? (int)team->n : 1; }
int omp_get_max_threads() { return (int)omp::plan.threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
double omp_get_wtime() { return 0; }
int omp_get_level() { return team ? 1 : 0; }
int omp_get_thread_limit() { return 64; }
struct Lock { Mutex* m; };
void omp_init_lock(void* l) { ((Lock*)l)->m = new Mutex; }
void omp_destroy_lock(void* l) { delete ((Lock*)l)->m; }
void omp_set_lock(void* l) { ((Lock*)l)->m->lock(); }
void omp_unset_lock(void* l) { ((Lock*)l)->m->unlock(); }
int omp_test_lock(void* l) { return pthread_mutex_trylock(&((Lock*)l)->m->m) == 0; }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
// tasks are executed where they are created
void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (!copy) { fn(data); return; }
  std::vector<char> buf((size_t)(size + align)); char* a = (char*)(((uintptr_t)buf.data() + (uintptr_t)align - 1) / (uintptr_t)align * (uintptr_t)align); copy(a, data); fn(a);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}
