// A small OpenMP runtime for replays: plain pthreads, so that ThreadSanitizer sees the real synchronisation.
// With -DSCHED it also implements the TSan instrumentation callbacks as scheduling points and follows a schedule
// found by the solver (SX_SCHED: lines "tid file line").
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

typedef void (*micro)(int *, int *, ...);
static int gMax = 1, gPush = 0;
struct Team { int T; pthread_barrier_t bar; pthread_mutex_t mu; int singles; pthread_mutex_t crit; int arrived, gen; int *cnt; };
static __thread Team *team = 0; static __thread int tid = 0, serial = 0, mySingles = 0; static __thread long myBar = 0; static __thread long disp[5];
static pthread_mutex_t gcrit = PTHREAD_MUTEX_INITIALIZER, gord = PTHREAD_MUTEX_INITIALIZER;
#ifdef SCHED
static pthread_mutex_t smu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t scv = PTHREAD_COND_INITIALIZER;
struct Step { int tid; std::string file; int line; int kind; }; // kind: twice the size, odd for volatile and atomic operations
static std::vector<Step> sched; static size_t pos; static int live, parkedVis, parkedBar; static bool inTeam; static long freeSteps; static int mode;
static std::map<uintptr_t, std::pair<std::string, int>> lines; static std::set<std::pair<std::string, std::pair<int, int>>> vis; static std::vector<int> state; /*0 run,1 at visible,2 barrier,3 done*/ static std::vector<std::pair<std::string, int>> at; static int granted = -1, rr;
static void initSched() {
  static bool done = false; if (done) return; done = true; const char *f = getenv("SX_SCHED"); mode = getenv("SX_SCHED_MODE") ? atoi(getenv("SX_SCHED_MODE")) : 0; if (!f) return;
  FILE *s = fopen(f, "r"); int t, l, k; char b[256]; while (s && fscanf(s, "%d %255s %d %d", &t, b, &l, &k) == 4) { sched.push_back({t, b, l, k}); vis.insert({b, {l, k}}); } if (s) fclose(s);
  std::string lf = std::string(f) + ".lines"; s = fopen(lf.c_str(), "r"); unsigned long a; while (s && fscanf(s, "%lx %255s %d", &a, b, &l) == 3) lines[a] = {b, l}; if (s) fclose(s);
}
static std::map<void *, int> held; static std::vector<void *> waitLock; static bool canGo(int t) { return state[t] == 1 && !(waitLock[t] && held.count(waitLock[t])); }
static bool allParked() { for (int x : state) if (x == 0) return false; return true; }
static int want() { // which parked thread goes next
  int n = state.size(); bool any = false, wl = false; for (int i = 0; i < n; i++) { if (canGo(i)) any = true; if (state[i] == 1) wl = true; } if (!any) { if (wl) { printf("SX-DEADLOCK all wait for locks\n"); fflush(stdout); _exit(88); } return -1; }
  while (pos < sched.size()) { int t = sched[pos].tid; if (t >= n || !canGo(t)) { if (t < n && state[t] == 2) { pos++; continue; } pos++; continue; } return t; }
  for (int q = 0; q < n; q++) { int t = (rr + q) % n; if (canGo(t)) { rr = t + 1; return t; } }
  return -1;
}
static void pick() { if (granted >= 0 || !allParked()) return; int t = want(); if (t < 0) return; granted = t; pthread_cond_broadcast(&scv); }
static int kindOf(const char *n) { size_t e = strlen(n), i = e; while (i > 0 && n[i - 1] >= '0' && n[i - 1] <= '9') i--; return atoi(n + i) * 2 + (strstr(n, "volatile") != 0); }
static void point(uintptr_t ra, int kind) {
  if (!team || serial || team->T <= 1) return; auto it = lines.find(ra); if (it == lines.end()) return; if (!vis.count({it->second.first, {it->second.second, kind}})) return;
  pthread_mutex_lock(&smu); state[tid] = 1; at[tid] = it->second; if (++freeSteps > 400000) { printf("SX-DEADLOCK no progress\n"); fflush(stdout); _exit(88); }
  pick(); while (granted != tid) pthread_cond_wait(&scv, &smu);
  granted = -1; state[tid] = 0; if (getenv("SX_SCHED_TRACE")) fprintf(stderr, "%d %s %d %d | %zu want %d %s %d %d\n", tid, it->second.first.c_str(), it->second.second, kind, pos, pos < sched.size() ? sched[pos].tid : -1, pos < sched.size() ? sched[pos].file.c_str() : "-", pos < sched.size() ? sched[pos].line : 0, pos < sched.size() ? sched[pos].kind : 0);
  if (pos < sched.size() && sched[pos].tid == tid) { if (mode == 1 || (sched[pos].file == it->second.first && sched[pos].line == it->second.second && sched[pos].kind == kind)) { pos++; freeSteps = 0; } }
  pthread_mutex_unlock(&smu);
}
static void lockTake(void *l) {
  if (!team || serial || team->T <= 1) return; pthread_mutex_lock(&smu); state[tid] = 1; waitLock[tid] = l; pick(); while (granted != tid) pthread_cond_wait(&scv, &smu); granted = -1; state[tid] = 0; waitLock[tid] = 0; held[l] = tid;
  if (pos < sched.size() && sched[pos].tid == tid && (mode == 1 || sched[pos].kind == 2000)) { pos++; freeSteps = 0; } pthread_mutex_unlock(&smu);
}
static void lockGive(void *l) { if (!team || serial || team->T <= 1) return; pthread_mutex_lock(&smu); held.erase(l); pthread_mutex_unlock(&smu); }
static void barrierWait() { pthread_mutex_lock(&smu); int g = team->gen; state[tid] = 2; if (++team->arrived == team->T) { team->arrived = 0; team->gen++; for (int &x : state) x = 0; pthread_cond_broadcast(&scv); } else { pick(); while (team->gen == g) pthread_cond_wait(&scv, &smu); } pthread_mutex_unlock(&smu); }
static void threadDone() { pthread_mutex_lock(&smu); state[tid] = 3; pick(); pthread_mutex_unlock(&smu); }
#define RA ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_##n(void *) { static const int k = kindOf(#n); point(RA, k); }
RW(read1) RW(read2) RW(read4) RW(read8) RW(read16) RW(write1) RW(write2) RW(write4) RW(write8) RW(write16)
RW(unaligned_read2) RW(unaligned_read4) RW(unaligned_read8) RW(unaligned_read16) RW(unaligned_write2) RW(unaligned_write4) RW(unaligned_write8) RW(unaligned_write16)
RW(volatile_read1) RW(volatile_read2) RW(volatile_read4) RW(volatile_read8) RW(volatile_write1) RW(volatile_write2) RW(volatile_write4) RW(volatile_write8)
RW(unaligned_volatile_read4) RW(unaligned_volatile_read8) RW(unaligned_volatile_write4) RW(unaligned_volatile_write8)
RW(read_write1) RW(read_write2) RW(read_write4) RW(read_write8) RW(unaligned_read_write4) RW(unaligned_read_write8)
void __tsan_vptr_update(void **p, void *v) {} void __tsan_vptr_read(void **p) {}
void __tsan_read_range(void *, long) {} void __tsan_write_range(void *, long) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
#define AT(w, T) \
T __tsan_atomic##w##_load(const volatile T *a, int) { point(RA, w / 4 + 1); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##w##_store(volatile T *a, T v, int) { point(RA, w / 4 + 1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_exchange(volatile T *a, T v, int) { point(RA, w / 4 + 1); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_fetch_add(volatile T *a, T v, int) { point(RA, w / 4 + 1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_fetch_sub(volatile T *a, T v, int) { point(RA, w / 4 + 1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_fetch_and(volatile T *a, T v, int) { point(RA, w / 4 + 1); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_fetch_or(volatile T *a, T v, int) { point(RA, w / 4 + 1); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_fetch_xor(volatile T *a, T v, int) { point(RA, w / 4 + 1); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##w##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { point(RA, w / 4 + 1); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##w##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { point(RA, w / 4 + 1); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##w##_compare_exchange_val(volatile T *a, T c, T v, int, int) { point(RA, w / 4 + 1); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
#else
// one counter per barrier instance: with pthread_barrier_t a late waker would acquire what its peers released at the next barrier
static void barrierWait() { int *c = &team->cnt[myBar++ % 65536]; __atomic_fetch_add(c, 1, __ATOMIC_ACQ_REL); while (__atomic_load_n(c, __ATOMIC_ACQUIRE) % team->T) sched_yield(); }
static void threadDone() {}
static void lockTake(void *l) { while (__atomic_exchange_n((int *)l, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void lockGive(void *l) { __atomic_store_n((int *)l, 0, __ATOMIC_RELEASE); }
#endif

extern "C" {
int omp_get_max_threads(void) { return gMax; } int omp_get_num_threads(void) { return serial || !team ? 1 : team->T; } int omp_get_thread_num(void) { return serial || !team ? 0 : tid; }
void omp_set_num_threads(int n) { gMax = n; } int omp_in_parallel(void) { return team && team->T > 1; } int omp_get_num_procs(void) { return 8; } void omp_set_dynamic(int) {} void omp_set_nested(int) {}
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Lk { void *p; };
void omp_init_lock(Lk *l) { l->p = 0; } void omp_destroy_lock(Lk *) {} void omp_set_lock(Lk *l) { lockTake(l); } void omp_unset_lock(Lk *l) { lockGive(l); }
static void call(micro f, int g, void **a, int n) {
  int b = g; 
  switch (n) {
#define P(i) a[i]
  case 0: f(&g, &b); break; case 1: f(&g, &b, P(0)); break; case 2: f(&g, &b, P(0), P(1)); break; case 3: f(&g, &b, P(0), P(1), P(2)); break; case 4: f(&g, &b, P(0), P(1), P(2), P(3)); break;
  default: { void *x[24]; memset(x, 0, sizeof x); for (int i = 0; i < n && i < 24; i++) x[i] = a[i]; f(&g, &b, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19], x[20], x[21], x[22], x[23]); } }
}
struct Arg { Team *t; int id; micro f; void **a; int n; };
static void *start(void *p) { Arg *x = (Arg *)p; team = x->t; tid = x->id; serial = 0; mySingles = 0; myBar = 0; call(x->f, tid, x->a, x->n); threadDone(); return 0; }
static void go(micro f, void **a, int n, int T) {
  if (team) { serial++; call(f, 0, a, n); serial--; return; }
  Team t; t.T = T; t.singles = 0; t.arrived = t.gen = 0; t.cnt = (int *)calloc(65536, sizeof(int)); pthread_barrier_init(&t.bar, 0, T); pthread_mutex_init(&t.mu, 0); pthread_mutex_init(&t.crit, 0);
#ifdef SCHED
  initSched(); state.assign(T, 0); waitLock.assign(T, (void *)0); held.clear(); at.assign(T, std::pair<std::string, int>()); granted = -1;
#endif
  std::vector<pthread_t> th(T); std::vector<Arg> ar(T); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  for (int i = 0; i < T; i++) { ar[i] = {&t, i, f, a, n}; pthread_create(&th[i], &at, start, &ar[i]); } // thread 0 of the team is not the caller: the caller only waits
  for (int i = 0; i < T; i++) pthread_join(th[i], 0);
  pthread_barrier_destroy(&t.bar); free(t.cnt);
}
void __kmpc_fork_call(void *, int argc, micro f, ...) { void *a[32]; va_list ap; va_start(ap, f); for (int i = 0; i < argc && i < 32; i++) a[i] = va_arg(ap, void *); va_end(ap); int T = gPush ? gPush : gMax; gPush = 0; go(f, a, argc, T); }
void __kmpc_fork_call_if(void *, int argc, micro f, int cond, void *args) { void *a[1] = {args}; go(f, a, argc, cond ? gMax : 1); }
void __kmpc_push_num_threads(void *, int, int n) { gPush = n; }
int __kmpc_global_thread_num(void *) { return omp_get_thread_num(); }
void __kmpc_serialized_parallel(void *, int) { serial++; } void __kmpc_end_serialized_parallel(void *, int) { serial--; }
void __kmpc_barrier(void *, int) { if (team && !serial && team->T > 1) barrierWait(); }
void __wrap__ZN4synk7Barrier4waitEi(void *, int) { if (team && !serial && team->T > 1) barrierWait(); }
int __kmpc_master(void *, int) { return omp_get_thread_num() == 0; } void __kmpc_end_master(void *, int) {} int __kmpc_masked(void *, int, int) { return omp_get_thread_num() == 0; } void __kmpc_end_masked(void *, int) {}
int __kmpc_single(void *, int) { if (!team || serial || team->T <= 1) return 1; int r = 0; pthread_mutex_lock(&team->mu); mySingles++; if (mySingles > team->singles) { team->singles++; r = 1; } pthread_mutex_unlock(&team->mu); return r; } void __kmpc_end_single(void *, int) {}
void __kmpc_critical(void *, int, void *l) { lockTake(l); } void __kmpc_critical_with_hint(void *, int, void *l, unsigned) { lockTake(l); } void __kmpc_end_critical(void *, int, void *l) { lockGive(l); }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&gcrit); return 1; } void __kmpc_end_reduce_nowait(void *, int, void *) { pthread_mutex_unlock(&gcrit); }
int __kmpc_reduce(void *, int, int, size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&gcrit); return 1; } void __kmpc_end_reduce(void *, int, void *) { pthread_mutex_unlock(&gcrit); if (team && !serial && team->T > 1) barrierWait(); }
void __kmpc_push_proc_bind(void *, int, int) {} void __kmpc_ordered(void *, int) { pthread_mutex_lock(&gord); } void __kmpc_end_ordered(void *, int) { pthread_mutex_unlock(&gord); }
void *__kmpc_omp_task_alloc(void *, int, int, size_t tsz, size_t ssz, int (*fn)(int, void *)) { size_t off = (tsz + 15) & ~(size_t)15; char *t = (char *)malloc(off + ssz + 16); ((void **)t)[0] = t + off; ((int (**)(int, void *))t)[1] = fn; return t; }
int __kmpc_omp_task(void *, int g, void *t) { ((int (**)(int, void *))t)[1](g, t); free(t); return 0; }
int __kmpc_omp_taskwait(void *, int) { return 0; } void __kmpc_taskgroup(void *, int) {} void __kmpc_end_taskgroup(void *, int) {}
void __kmpc_flush(void *) {}
}
template <class T> static void sinit(int sch, int *last, T *lo, T *up, T *st, long incr, long chunk) {
  long l = (long)*lo, u = (long)*up, n = omp_get_num_threads(), t = omp_get_thread_num(); long trip = incr > 0 ? (u < l ? 0 : (u - l) / incr + 1) : (u > l ? 0 : (l - u) / (-incr) + 1);
  if (sch == 33 || sch == 45 || sch == 41) { if (chunk < 1) chunk = 1; *lo = l + t * chunk * incr; *up = *lo + (chunk - 1) * incr; *st = n * chunk * incr; *last = trip > 0 && ((trip - 1) / chunk) % n == t; return; }
  long q = trip / n, r = trip % n, mine = q + (t < r), off = t * q + (t < r ? t : r); *lo = l + off * incr; *up = (long)*lo + (mine - 1) * incr; *st = incr * trip; *last = mine > 0 && off + mine == trip; if (!trip) { *lo = l; *up = l - incr; } }
extern "C" {
void __kmpc_for_static_init_4(void *, int, int s, int *la, int *lo, int *up, int *st, int i, int c) { sinit(s, la, lo, up, st, i, c); }
void __kmpc_for_static_init_4u(void *, int, int s, int *la, unsigned *lo, unsigned *up, int *st, int i, int c) { sinit(s, la, lo, up, (unsigned *)st, i, c); }
void __kmpc_for_static_init_8(void *, int, int s, int *la, long *lo, long *up, long *st, long i, long c) { sinit(s, la, lo, up, st, i, c); }
void __kmpc_for_static_init_8u(void *, int, int s, int *la, unsigned long *lo, unsigned long *up, long *st, long i, long c) { sinit(s, la, lo, up, (unsigned long *)st, i, c); }
void __kmpc_for_static_fini(void *, int) {}
#define DISP(n, I, S) \
void __kmpc_dispatch_init_##n(void *, int, int sch, I lo, I up, S st, S ch) { disp[0] = lo; disp[1] = up; disp[2] = st; disp[3] = ch < 1 ? 1 : ch; disp[4] = omp_get_thread_num(); sch &= 0xffff; if (sch >= 64 && sch < 128) { long l = lo, u = up, trip = st > 0 ? (u < l ? 0 : (u - l) / st + 1) : (u > l ? 0 : (l - u) / (-st) + 1), T = omp_get_num_threads(); disp[3] = (trip + T - 1) / T; if (disp[3] < 1) disp[3] = 1; } } \
int __kmpc_dispatch_next_##n(void *, int, int *la, I *lo, I *up, S *st) { long b = disp[0] + disp[4] * disp[3] * disp[2]; bool ok = disp[2] > 0 ? b <= disp[1] : b >= disp[1]; if (!ok) return 0; long e = b + (disp[3] - 1) * disp[2]; if (disp[2] > 0 ? e > disp[1] : e < disp[1]) e = disp[1]; disp[4] += omp_get_num_threads(); *la = disp[2] > 0 ? e + disp[2] > disp[1] : e + disp[2] < disp[1]; *lo = b; *up = e; *st = disp[2]; return 1; } \
void __kmpc_dispatch_fini_##n(void *, int) {}
DISP(4, int, int) DISP(4u, unsigned, int) DISP(8, long, long) DISP(8u, unsigned long, long)
void __kmpc_dispatch_deinit(void *, int) {}
}
