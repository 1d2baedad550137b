/* Common part of the bounded contract monitors. */
#ifndef MON_H
#define MON_H
#ifdef MON_ALLOC
#undef malloc
#undef free
#undef calloc
#undef realloc
#endif
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char mon_cur[4096] = "(start)";
static long mon_cases = 0;
static int mon_nsamples = 0;
static uint64_t mon_state = 1;
static inline uint64_t rnd(void) {
  uint64_t z = (mon_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline int64_t rndr(int64_t lo, int64_t hi) { return lo + (int64_t)(rnd() % (uint64_t)(hi - lo + 1)); }
static void mon_death(void) {
  static int once = 0;
  if (once++) return;
  char b[4200];
  int n = snprintf(b, sizeof b, "\nCURRENT %s\n", mon_cur);
  if (n > 0) (void)!write(2, b, (size_t)(n < (int)sizeof b ? n : (int)sizeof b - 1));
}
static void mon_sig(int s) { mon_death(); _exit(128 + s); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifdef MON_ASAN
#ifdef __cplusplus
extern "C"
#endif
void __sanitizer_set_death_callback(void (*cb)(void));
#endif
static int mon_part = 0, mon_parts = 1;
static void mon_init(int argc, char **argv) {
  const char *s = getenv("VERIF_SEED");
  mon_state = s ? strtoull(s, 0, 10) * 7919 + 12345 : 12346;
  for (int i = 1; i < argc; ++i) sscanf(argv[i], "part=%d/%d", &mon_part, &mon_parts);
  mon_state += 1000003ull * (uint64_t)mon_part;
#ifdef MON_ASAN
  __sanitizer_set_death_callback(mon_death);
#endif
  signal(SIGABRT, mon_sig);
#ifndef MON_ASAN
  signal(SIGSEGV, mon_sig); signal(SIGFPE, mon_sig); signal(SIGBUS, mon_sig);
#endif
  setvbuf(stdout, 0, _IOLBF, 0);
}
static long mon_arg(int argc, char **argv, const char *name, long dflt) {
  size_t n = strlen(name);
  for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], name, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 10);
  return dflt;
}
__attribute__((format(printf, 1, 2))) static void CUR(const char *f, ...) {
  va_list ap; va_start(ap, f); vsnprintf(mon_cur, sizeof mon_cur, f, ap); va_end(ap);
  for (char *c = mon_cur; *c; ++c) if (*c == '\n') *c = ' ';
  ++mon_cases;
  if (mon_nsamples < 3 && mon_cases % 7 == 1) { ++mon_nsamples; printf("SAMPLE %.390s\n", mon_cur); }
}
__attribute__((format(printf, 1, 2))) static void FAIL(const char *f, ...) {
  char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  for (char *c = b; *c; ++c) if (*c == '\n') *c = ' ';
  printf("FAIL %s :: %s\n", mon_cur, b); printf("CASES %ld\n", mon_cases); fflush(stdout); _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
static int mon_done(void) { printf("CASES %ld\n", mon_cases); fflush(stdout); return 0; }
/* text of an int64 vector, in a ring of buffers */
static const char *vec(const int64_t *a, int64_t n) {
  static char b[8][512]; static int k; char *o = b[k = (k + 1) & 7]; int p = 0; o[0] = 0;
  p += snprintf(o + p, 512 - p, "[");
  for (int64_t i = 0; i < n && p < 480; ++i) p += snprintf(o + p, 512 - p, "%s%lld", i ? "," : "", (long long)a[i]);
  snprintf(o + p, 512 - p, "]");
  return o;
}
#ifdef MON_ALLOC
/* tracking allocator: the code under test is compiled with -Dmalloc=mon_malloc etc. */
#define MON_MAXB 65536
static struct { char *p; size_t n; int live; } mon_b[MON_MAXB];
static int mon_nb = 0;
static long mon_allocs = 0, mon_fail_at = -1;
#ifdef __cplusplus
extern "C" {
#endif
void *mon_malloc(size_t n) {
  if (++mon_allocs == mon_fail_at) return 0;
  char *p = (char *)malloc(n ? n : 1);
  memset(p, 0xA5, n ? n : 1);
  if (mon_nb == MON_MAXB) { /* forget released blocks */
    int k = 0;
    for (int i = 0; i < mon_nb; ++i) if (mon_b[i].live) mon_b[k++] = mon_b[i]; else free(mon_b[i].p);
    mon_nb = k;
  }
  if (mon_nb < MON_MAXB) { mon_b[mon_nb].p = p; mon_b[mon_nb].n = n; mon_b[mon_nb].live = 1; ++mon_nb; }
  return p;
}
void *mon_calloc(size_t a, size_t b) { void *p = mon_malloc(a * b); if (p) memset(p, 0, a * b ? a * b : 1); return p; }
static int mon_find(void *p) { for (int i = mon_nb - 1; i >= 0; --i) if (mon_b[i].p == p) return i; return -1; }
static int mon_islive(void *p) { int i = mon_find(p); return i >= 0 && mon_b[i].live; }
void mon_free(void *p) {
  if (!p) return;
  int i = mon_find(p);
  if (i < 0) FAIL("free of a block that was not allocated by the code or handed to it");
  if (!mon_b[i].live) FAIL("block freed twice");
  mon_b[i].live = 0;
  memset(p, 0x5A, mon_b[i].n);
}
void *mon_realloc(void *p, size_t n) { void *q = mon_malloc(n); if (q && p) { int i = mon_find(p); memcpy(q, p, mon_b[i].n < n ? mon_b[i].n : n); mon_free(p); } return q; }
#ifdef __cplusplus
}
#endif
static int mon_live(void) { int n = 0; for (int i = 0; i < mon_nb; ++i) n += mon_b[i].live; return n; }
static void mon_reset(void) { for (int i = 0; i < mon_nb; ++i) free(mon_b[i].p); mon_nb = 0; mon_allocs = 0; mon_fail_at = -1; }
#endif
#endif
