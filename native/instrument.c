/* Monitor of the instrumentation runtime (C09): clock and ps are wrapped. */
#include "mon.h"
#include <sys/time.h>
#include "onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"
void OMInstrumentPoint(const char *opName, int64_t iTag, const char *nodeName);
void OMInstrumentPointInit(int64_t iTag, const char *info);
void omInstrumentPrint();
extern const char *OMCurrentOpName, *OMCurrentNodeName; extern int64_t OMCurrentTag;
static int64_t now_us = 1000;
int __wrap_gettimeofday(struct timeval *tv, void *z) { now_us += 1 + (int64_t)(rnd() % 1700000); tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; return 0; }
FILE *__wrap_popen(const char *c, const char *m) { FILE *f = tmpfile(); fputs("4242\n", f); rewind(f); return f; }
int __wrap_pclose(FILE *f) { return fclose(f); }
static char path[300];
#define MAXL 60000
static char *want[2][MAXL]; static int nw[2];
static void expect(int kind, const char *f, ...) { char b[1400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (nw[kind] < MAXL) want[kind][nw[kind]++] = strdup(b); }
static int64_t tinit, tlast;
static void tags(void) {
  for (int k = 0; k < 200; ++k) {
    uint64_t op = rnd() % 64, nd = rnd() % 512; int bits = (int)(rnd() % 32);
    CUR("tag of op name length %d, node name length %d, actions %d", (int)op, (int)nd, bits);
    uint64_t t; INIT_INSTRUMENT(t);
    int ord = rnd() % 2;
    if (ord) SET_INSTRUMENT_OP_NAME_LEN(t, op);
    if (bits & 1) SET_INSTRUMENT_BEFORE_OP(t);
    if (bits & 2) SET_INSTRUMENT_AFTER_OP(t);
    if (bits & 4) SET_INSTRUMENT_REPORT_TIME(t);
    if (bits & 8) SET_INSTRUMENT_REPORT_MEMORY(t);
    if (bits & 16) SET_INSTRUMENT_INIT(t);
    SET_INSTRUMENT_NODE_NAME_LEN(t, nd);
    if (!ord) SET_INSTRUMENT_OP_NAME_LEN(t, op);
    int got = !!IS_INSTRUMENT_BEFORE_OP(t) | !!IS_INSTRUMENT_AFTER_OP(t) << 1 | !!IS_INSTRUMENT_REPORT_TIME(t) << 2 | !!IS_INSTRUMENT_REPORT_MEMORY(t) << 3 | !!IS_INSTRUMENT_INIT(t) << 4;
    CHECK(got == bits && GET_INSTRUMENT_OP_NAME_LEN(t) == op && GET_INSTRUMENT_NODE_NAME_LEN(t) == nd, "tag %llx unpacks to op length %d, node length %d, actions %d", (unsigned long long)t, (int)GET_INSTRUMENT_OP_NAME_LEN(t), (int)GET_INSTRUMENT_NODE_NAME_LEN(t), got);
  }
}
static char *names[2][40];
static void run(int big) {
  int env = (int)(rnd() % 6); /* 0..2 none, 3 no time, 4 no memory, 5 none at all */
  unsetenv("ONNX_MLIR_NO_INSTRUMENT_TIME"); unsetenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY"); unsetenv("ONNX_MLIR_NO_INSTRUMENT");
  if (big) env = 0;
  if (env == 3) setenv("ONNX_MLIR_NO_INSTRUMENT_TIME", "1", 1);
  if (env == 4) setenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY", "1", 1);
  if (env == 5) setenv("ONNX_MLIR_NO_INSTRUMENT", "1", 1);
  int proto = (int)(rnd() % 2), n = big ? (int)rndr(8000, 20000) : (int)rndr(0, 40), nn = (int)rndr(1, 6);
  for (int j = 0; j < nn; ++j) for (int k = 0; k < 2; ++k) {
    int len = (int)(rnd() % 3 ? rndr(1, 12) : rndr(0, k ? 511 : 63));
    names[k][j] = (char *)malloc(len + 8);
    for (int i = 0; i < len + 7; ++i) names[k][j][i] = (char)('a' + rnd() % 26);
    if (j && rnd() % 2) { /* share a prefix, or the whole text, with an earlier name */
      const char *e = names[k][rnd() % j]; int L = (int)strlen(e), m = (int)rndr(0, L);
      if (rnd() % 2) m = L > 0 ? L - 1 : 0;
      if (m > len) m = len;
      memcpy(names[k][j], e, m);
      if (rnd() % 4 == 0 && L <= len) { memcpy(names[k][j], e, L + 1); }
    }
    names[k][j][len + 7] = 0;
    if (rnd() % 2) names[k][j][len] = 0;
  }
  static int lens[2][40];
  for (int j = 0; j < nn; ++j) for (int k = 0; k < 2; ++k) { int L = (int)strlen(names[k][j]); lens[k][j] = L > (k ? 511 : 63) ? (k ? 511 : 63) : (L > 7 && rnd() % 2 ? L - (int)(rnd() % 7) : L); }
  CUR("%s protocol, %d calls over %d names, environment %s", proto ? "new" : "old", n, nn, env < 3 ? "default" : env == 3 ? "NO_INSTRUMENT_TIME" : env == 4 ? "NO_INSTRUMENT_MEMORY" : "NO_INSTRUMENT");
  char desc[1500]; int dp = snprintf(desc, sizeof desc, "%s:", mon_cur);
  for (int k = 0; k < 2; ++k) { for (int j = 0; j < nw[k]; ++j) free(want[k][j]); nw[k] = 0; }
  FILE *f0 = fopen(path, "w"); fclose(f0);
  if (proto) { OMInstrumentPointInit(0, "info text"); tinit = tlast = now_us; }
  int mode = (int)(rnd() % 3), share = mode ? (int)(rnd() % 3) : (int)(rnd() % 2), cur = 0, phase = 0, mem = 0, time_ = 0;
  for (int c = 0; c < n; ++c) {
    int j, after;
    if (mode == 0) { j = cur; after = phase; if (phase) cur = (int)(rnd() % nn); phase = !phase; }
    else { j = (int)(rnd() % nn); after = (int)(rnd() % 2); }
    int oj = share == 0 ? j : share == 1 ? j % 2 : (int)(rnd() % nn);
    uint64_t t; INIT_INSTRUMENT(t);
    if (after) SET_INSTRUMENT_AFTER_OP(t); else SET_INSTRUMENT_BEFORE_OP(t);
    int tm = rnd() % 8 != 0, mm = big ? 0 : rnd() % 4 == 0;
    if (tm) SET_INSTRUMENT_REPORT_TIME(t);
    if (mm) SET_INSTRUMENT_REPORT_MEMORY(t);
    SET_INSTRUMENT_OP_NAME_LEN(t, lens[0][oj]); SET_INSTRUMENT_NODE_NAME_LEN(t, lens[1][j]);
    int init = !proto && c == 0;
    if (init) SET_INSTRUMENT_INIT(t);
    if (c < 40) { dp += snprintf(desc + dp, dp < 1300 ? sizeof desc - dp : 0, " %d.%d%s%s%s", oj, j, after ? "a" : "b", tm ? "t" : "", mm ? "m" : ""); if (dp > 1300) dp = 1300; snprintf(mon_cur, sizeof mon_cur, "%s", desc); }
    int64_t pre = now_us;
    OMInstrumentPoint(names[0][oj], (int64_t)t, names[1][j]);
    CHECK(OMCurrentOpName == names[0][oj] && OMCurrentNodeName == names[1][j] && OMCurrentTag == (int64_t)t, "the current-operation marker does not name the call");
    if (init && env != 5) { /* the clock was read for the start, and again for a time record */ }
    if (env == 5) { CHECK(now_us == pre, "measured although disabled"); continue; }
    int timed = tm && env != 3;
    if (init && !timed) { tinit = tlast = now_us; }
    if (timed) {
      static int64_t stamp; stamp = now_us;
      expect(0, "==PERF-REPORT==, %.*s, %.*s, %s, @%lld", lens[0][oj], names[0][oj], lens[1][j], names[1][j], after ? "after" : "before", (long long)stamp);
      ++time_;
    }
    if (mm && env != 4) { expect(1, "==MEM-REPORT==, %.*s, %.*s, %s, 4242", lens[0][oj], names[0][oj], lens[1][j], names[1][j], after ? "after" : "before"); ++mem; }
  }
  if (proto || n > 0) omInstrumentPrint();
  fflush(NULL);
  FILE *f = fopen(path, "r");
  static char line[4096];
  int got[2] = {0, 0}, start = 0, other = 0; int64_t prev = -1, base = -1;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "==START-REPORT==", 16)) { ++start; CHECK(got[0] + got[1] == 0, "start line after a record"); continue; }
    if (!strncmp(line, "==COMPILE-INFO-REPORT==", 23)) { CHECK(proto && !strcmp(line, "==COMPILE-INFO-REPORT==, info text"), "wrong information line: %s", line); continue; }
    int k = !strncmp(line, "==MEM-REPORT==", 14);
    CHECK(k || !strncmp(line, "==PERF-REPORT==", 15), "unknown line: %.200s", line);
    CHECK(got[k] < nw[k], "%s record number %d was not requested: %.200s", k ? "memory" : "time", got[k], line);
    char *w = want[k][got[k]];
    if (k) CHECK(!strcmp(line, w), "memory record %d is \"%.300s\", expected \"%.300s\"", got[k], line, w);
    else {
      char *at = strrchr(w, '@'); size_t L = (size_t)(at - w);
      long long s1, u1, s2, u2;
      CHECK(!strncmp(line, w, L), "time record %d is \"%.300s\", expected \"%.*s<time>\"", got[0], line, (int)L, w);
      CHECK(sscanf(line + L, "%lld.%lld, %lld.%lld", &s1, &u1, &s2, &u2) == 4, "time record %d has no times: %.300s", got[0], line);
      int64_t stamp = strtoll(at + 1, 0, 10), since = s2 * 1000000 + u2, delta = s1 * 1000000 + u1;
      if (base < 0) base = stamp - since;
      CHECK(stamp - since == base, "time record %d reports %lld us since the start, expected %lld", got[0], (long long)since, (long long)(stamp - base));
      CHECK(delta == stamp - (prev < 0 ? base : prev), "time record %d reports %lld us since the previous one, expected %lld", got[0], (long long)delta, (long long)(stamp - (prev < 0 ? base : prev)));
      prev = stamp;
    }
    ++got[k];
  }
  fclose(f);
  CHECK(got[0] == nw[0], "%d time records written, %d requested", got[0], nw[0]);
  CHECK(got[1] == nw[1], "%d memory records written, %d requested", got[1], nw[1]);
  CHECK(start == (nw[0] + nw[1] > 0), "%d start lines for %d records", start, nw[0] + nw[1]);
  for (int j = 0; j < nn; ++j) for (int k = 0; k < 2; ++k) free(names[k][j]);
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long N = mon_arg(argc, argv, "n", 400), B = mon_arg(argc, argv, "big", 6);
  snprintf(path, sizeof path, "instr-%d.txt", (int)getpid());
  setenv("ONNX_MLIR_INSTRUMENT_FILE", path, 1);
  tags();
  for (long i = 0; i < N; ++i) run(0);
  for (long i = 0; i < B; ++i) run(1);
  unlink(path);
  return mon_done();
}
