// Native implementation of the harness interface: runs the harness on the real build with one concrete input vector.
// Environment: SX_IN = input file ("name kind value" per line), SX_DIR = scratch directory, SX_PARAM_<name> = parameters.
#include "sx.h"
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
struct In { std::string n; char k; long v; };
static std::vector<In> ins; static size_t pos; static int fails; static FILE *cur;
// Allocations of the code under test and the harness that are not freed. The link wraps the allocation functions of our objects, which register what they return;
// deallocation anywhere (also inside libstdc++) takes a registered block off, and blocks the libraries allocated themselves do not count.
static volatile int lk; static long live_; static const unsigned long NREG = 1 << 20; static void **reg;
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t); ssize_t __real_getline(char **, size_t *, FILE *); ssize_t __real_getdelim(char **, size_t *, int, FILE *); }
static unsigned long slot(void *p) { return ((unsigned long)p >> 4) * 0x9E3779B97F4A7C15ul >> 44; }
static void CNT(void *p) { if (!p) return; while (__sync_lock_test_and_set(&lk, 1)); if (!reg) reg = (void **)__real_calloc(NREG, sizeof(void *)); unsigned long i = slot(p), n = 0, hole = NREG; while (reg[i] && reg[i] != p && n++ < NREG) { if (reg[i] == (void *)1 && hole == NREG) hole = i; i = (i + 1) % NREG; } if (reg[i] != p) { reg[hole != NREG ? hole : i] = p; live_++; } __sync_lock_release(&lk); }
static void UNC(void *p) { if (!p || !reg) return; while (__sync_lock_test_and_set(&lk, 1)); unsigned long i = slot(p), n = 0; while (reg[i] && reg[i] != p && n++ < NREG) i = (i + 1) % NREG; if (reg[i] == p) { reg[i] = (void *)1; live_--; } __sync_lock_release(&lk); }
extern "C" {
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); CNT(p); return p; }
void *__wrap_calloc(size_t a, size_t n) { void *p = __real_calloc(a, n); CNT(p); return p; }
void *__wrap_realloc(void *o, size_t n) { UNC(o); void *p = __real_realloc(o, n); CNT(p ? p : n ? o : 0); return p; }
void __wrap_free(void *p) { UNC(p); __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) CNT(*p); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); CNT(p); return p; }
void *__wrap_memalign(size_t a, size_t n) { void *p = __real_memalign(a, n); CNT(p); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); CNT(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); CNT(p); return p; }
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { UNC(*l); ssize_t r = __real_getline(l, n, f); CNT(*l); return r; }
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f) { UNC(*l); ssize_t r = __real_getdelim(l, n, d, f); CNT(*l); return r; }
#define NEW(f, A, B) void *__real_##f A; void *__wrap_##f A { void *p = __real_##f B; CNT(p); return p; }
#define DEL(f, A, B) void __real_##f A; void __wrap_##f A { UNC(p); __real_##f B; }
NEW(_Znwm, (size_t n), (n)) NEW(_Znam, (size_t n), (n)) NEW(_ZnwmSt11align_val_t, (size_t n, size_t a), (n, a)) NEW(_ZnamSt11align_val_t, (size_t n, size_t a), (n, a)) NEW(_ZnwmRKSt9nothrow_t, (size_t n, void *t), (n, t)) NEW(_ZnamRKSt9nothrow_t, (size_t n, void *t), (n, t))
DEL(_ZdlPv, (void *p), (p)) DEL(_ZdaPv, (void *p), (p)) DEL(_ZdlPvm, (void *p, size_t n), (p, n)) DEL(_ZdaPvm, (void *p, size_t n), (p, n)) DEL(_ZdlPvRKSt9nothrow_t, (void *p, void *t), (p, t)) DEL(_ZdaPvRKSt9nothrow_t, (void *p, void *t), (p, t))
DEL(_ZdlPvSt11align_val_t, (void *p, size_t a), (p, a)) DEL(_ZdaPvSt11align_val_t, (void *p, size_t a), (p, a)) DEL(_ZdlPvmSt11align_val_t, (void *p, size_t n, size_t a), (p, n, a)) DEL(_ZdaPvmSt11align_val_t, (void *p, size_t n, size_t a), (p, n, a))
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer) && !__has_feature(memory_sanitizer)
}
void operator delete(void *p) noexcept { UNC(p); __real_free(p); }   // also the ones libstdc++ calls
void operator delete(void *p, size_t) noexcept { UNC(p); __real_free(p); }
void operator delete[](void *p) noexcept { UNC(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { UNC(p); __real_free(p); }
extern "C" {
#endif
}
static std::string dir() { const char *d = getenv("SX_DIR"); return d ? d : "."; }
static long next(const char *name) {
  if (pos >= ins.size()) { printf("SX-INPUT-EXHAUSTED %s\n", name); fflush(stdout); _Exit(fails ? 1 : 77); }
  if (ins[pos].n != name) { printf("SX-INPUT-MISMATCH want %s have %s\n", name, ins[pos].n.c_str()); fflush(stdout); _Exit(fails ? 1 : 77); }
  return ins[pos++].v;
}
extern "C" {
int sx_int(const char *name, int lo, int hi) { long v = next(name); if (v < lo || v > hi) { printf("SX-ASSUME-FAIL range %s\n", name); fflush(stdout); _Exit(fails ? 1 : 77); } return (int)v; }
long sx_long(const char *name, long lo, long hi) { long v = next(name); if (v < lo || v > hi) { printf("SX-ASSUME-FAIL range %s\n", name); fflush(stdout); _Exit(fails ? 1 : 77); } return v; }
static double asd(long v) { double d; memcpy(&d, &v, 8); return d; }
double sx_bits(const char *name) { return asd(next(name)); }
double sx_val(const char *name, int, int) { return asd(next(name)); }
double sx_pow2(const char *name) { return asd(next(name)); }
int sx_concretize(int v) { return v; }
long sx_concretize_long(long v) { return v; }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME-FAIL\n"); fflush(stdout); _Exit(fails ? 1 : 77); } }
void sx_assert(int c, const char *msg) { if (!c) { fails++; printf("SX-ASSERT-FAIL %s\n", msg); fflush(stdout); } }
void sx_reach(const char *l) { printf("SX-REACH %s\n", l); }
void sx_threads(int T) { omp_set_dynamic(0); omp_set_num_threads(T); }
int sx_param(const char *name, int d) { std::string e = std::string("SX_PARAM_") + name; const char *v = getenv(e.c_str()); return v ? atoi(v) : d; }
void sx_observe_i(const char *name, long v) { printf("SX-OBS %s i %016lx\n", name, (unsigned long)v); }
void sx_observe_d(const char *name, double v) { printf("SX-OBS %s d %016lx\n", name, (unsigned long)sx_db(v)); }
int sx_is_native(void) { return 1; }
void *sx_huge(long n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { printf("SX-INPUT-EXHAUSTED mmap\n"); fflush(stdout); _Exit(fails ? 1 : 77); } return p; }
int sx_huge_hits(void *, long) { return 0; } int sx_huge_right(void *, long, void *, int) { return 1; }
void sx_interleave(int) {}
int sx_open_files(void) { int n = 0; for (int i = 3; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
int sx_heap_live(void) { return (int)live_; }
void sx_opt(const char *n, int v) { if (!strcmp(n, "exit_ok") && v) atexit([]() { printf("SX-DONE fails=%d\n", fails); fflush(stdout); _Exit(fails ? 1 : 0); }); }
struct Keep { long v; Keep() : v(live_) {} ~Keep() { live_ = v; } };   // what the harness support allocates does not count
const char *sx_path(const char *name) { Keep k_; static std::vector<std::string> keep; static int init = (keep.reserve(64), 0); (void)init; keep.push_back(dir() + "/" + name); return keep.back().c_str(); }
static bool lineStart = true;
void sx_file_begin(const char *n) { Keep k_; cur = fopen(sx_path(n), "w"); lineStart = true; }
static void sep() { if (!lineStart) fputc(' ', cur); lineStart = false; }
void sx_tok_str(const char *s) { sep(); fputs(s, cur); size_t l = strlen(s); if (l && s[l - 1] == '\n') lineStart = true; }
void sx_tok_int(int v) { sep(); fprintf(cur, "%d", v); }
void sx_tok_dbl(double v) { sep(); fprintf(cur, "%.17g", v); }
void sx_file_nl(void) { fputc('\n', cur); lineStart = true; }
void sx_file_end(void) { fclose(cur); cur = 0; }
long sx_file_size(const char *n) { Keep k_; FILE *f = fopen(sx_path(n), "r"); if (!f) return -1; fseek(f, 0, SEEK_END); long l = ftell(f); fclose(f); return l; }
int sx_file_byte(const char *n, int i) { Keep k_; FILE *f = fopen(sx_path(n), "r"); if (!f) return -1; fseek(f, i, SEEK_SET); int c = fgetc(f); fclose(f); return c; }
void sx_file_putbyte(const char *n, int b) { Keep k_; FILE *f = fopen(sx_path(n), "a"); fputc(b, f); fclose(f); }
void sx_file_truncate(const char *n, int k) { Keep k_; std::string s; FILE *f = fopen(sx_path(n), "r"); if (!f) return; int c; while ((c = fgetc(f)) != EOF) s += (char)c; fclose(f); if ((int)s.size() > k) s.resize(k); f = fopen(sx_path(n), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
}
int main() {
  const char *f = getenv("SX_IN"); if (f) { std::ifstream i(f); std::string l; while (std::getline(i, l)) { std::istringstream is(l); In x; std::string v; is >> x.n >> x.k >> v; if (x.n.empty()) continue; x.v = x.k == 'd' ? (long)strtoul(v.c_str(), 0, 16) : strtol(v.c_str(), 0, 10); ins.push_back(x); } }
  sx_main();
  printf("SX-DONE fails=%d\n", fails); fflush(stdout);
  return fails ? 1 : 0;
}
extern "C" __attribute__((weak)) unsigned long sx_clock(void) { static __thread unsigned long t; return t += 1000; }
