/* Monitor of omTensorSort / quick_sort_custom (C04) and omTensorTopK (C05). */
#include "mon.h"
#include "onnx-mlir/Runtime/OMTensor.h"
#include "src/Runtime/OMSort.h"
#include <math.h>
FILE *getInstrumentFile(bool b) { return stdout; }
static const int types[] = {ONNX_TYPE_BOOL, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_UINT32, ONNX_TYPE_INT32, ONNX_TYPE_UINT64, ONNX_TYPE_INT64, ONNX_TYPE_FLOAT, ONNX_TYPE_DOUBLE, ONNX_TYPE_FLOAT16};
static const char *tn[] = {"bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "float16"};
static const int sz[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2};
static double half(uint16_t h) {
  int e = (h >> 10) & 31, m = h & 1023; double v = e == 31 ? (m ? NAN : INFINITY) : e ? ldexp(1024 + m, e - 25) : ldexp(m, -24);
  return h >> 15 ? -v : v;
}
/* three-way comparison of elements */
static int cmp(int t, const char *d, int64_t a, int64_t b) {
#define C(T) { T x = ((const T *)d)[a], y = ((const T *)d)[b]; return x < y ? -1 : y < x; }
  switch (t) {
  case 0: C(uint8_t) case 1: C(uint8_t) case 2: C(int8_t) case 3: C(uint16_t) case 4: C(int16_t) case 5: C(uint32_t) case 6: C(int32_t) case 7: C(uint64_t) case 8: C(int64_t) case 9: C(float) case 10: C(double)
  default: { double x = half(((const uint16_t *)d)[a]), y = half(((const uint16_t *)d)[b]); return x < y ? -1 : y < x; }
  }
}
static void gen(int t, char *d, int64_t i, int style) {
  uint64_t r = rnd(); int few = (int)(rnd() % 4);
  static const uint64_t ext[] = {0, 1, ~0ull, 0x8000000000000000ull, 0x7FFFFFFFFFFFFFFFull, 0x80000000ull, 0x7FFFFFFFull, 0xFFFFFFFFull, 0x8000, 0x7FFF, 0x80, 0x7F, 0xFF, 0x100, 0x10000, 0x100000000ull};
  if (style == 0) r = (uint64_t)few; else if (style == 1) r = ext[r % 16] + (few == 3); else if (style == 2) r = (uint64_t)(i / 3); else if (style == 3) r = (uint64_t)(1000 - i);
  switch (t) {
  case 0: ((uint8_t *)d)[i] = r & 1; break;
  case 1: case 2: ((uint8_t *)d)[i] = (uint8_t)r; break;
  case 3: case 4: ((uint16_t *)d)[i] = (uint16_t)r; break;
  case 5: case 6: ((uint32_t *)d)[i] = (uint32_t)r; break;
  case 7: case 8: ((uint64_t *)d)[i] = r; break;
  case 9: { float f; static const float e[] = {0.0f, -0.0f, INFINITY, -INFINITY, 1.0f, 1.00000012f, -1.0f, 3e38f, 1e-45f, -1e-45f, 16777216.0f, 16777217.0f}; f = style == 1 ? e[rnd() % 12] : style == 4 ? (float)(int64_t)(rnd() % 2001 - 1000) / 16 : (float)(int64_t)(r % 4096); ((float *)d)[i] = f; break; }
  case 10: { static const double e[] = {0.0, -0.0, INFINITY, -INFINITY, 1.0, 1.0000000000000002, -1.0, 1e308, 5e-324, -5e-324, 16777216.0, 16777217.0}; ((double *)d)[i] = style == 1 ? e[rnd() % 12] : style == 4 ? (double)(int64_t)(rnd() % 2001 - 1000) / 16 : (double)(int64_t)(r % 4096); break; }
  default: { uint16_t h; static const uint16_t e[] = {0, 0x8000, 0x7C00, 0xFC00, 0x3C00, 0xBC00, 1, 0x8001, 0x7BFF, 0xFBFF, 0x3FF, 0x400}; h = style == 1 ? e[rnd() % 12] : style == 0 ? (uint16_t)(0x3C00 + few + (rnd() % 2 ? 0x8000 : 0)) : (uint16_t)rnd(); if ((h & 0x7C00) == 0x7C00 && (h & 0x3FF)) h &= 0xFC00; ((uint16_t *)d)[i] = h; }
  }
}
static const char *text(int t, const char *d, int64_t n) {
  static char b[700]; int p = snprintf(b, sizeof b, "[");
  for (int64_t i = 0; i < n && p < 600; ++i) p += t >= 11 ? snprintf(b + p, 60, "%s%g", i ? "," : "", half(((const uint16_t *)d)[i])) : t == 10 ? snprintf(b + p, 60, "%s%g", i ? "," : "", ((const double *)d)[i]) : t == 9 ? snprintf(b + p, 60, "%s%g", i ? "," : "", ((const float *)d)[i])
    : snprintf(b + p, 60, "%s%lld", i ? "," : "", (long long)(sz[t] == 1 ? (t == 2 ? ((const int8_t *)d)[i] : ((const uint8_t *)d)[i]) : sz[t] == 2 ? (t == 4 ? ((const int16_t *)d)[i] : ((const uint16_t *)d)[i]) : sz[t] == 4 ? (t == 6 ? ((const int32_t *)d)[i] : (int64_t)((const uint32_t *)d)[i]) : ((const int64_t *)d)[i]));
  snprintf(b + p, 60, "]"); return b;
}
static int T_, ASC; static const char *D_;
static int before(int64_t a, int64_t b) { int c = cmp(T_, D_, a, b); return c ? (ASC ? c < 0 : c > 0) : a < b; }
static int refcmp(const void *a, const void *b) { int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x == y ? 0 : before(x, y) ? -1 : 1; }
static void one(int topk, int direct, long maxn) {
  int t = (int)(rnd() % 12), asc = (int)(rnd() % 2), style = (int)(rnd() % 6), rank = direct ? 1 : (int)(rnd() % 8 ? rndr(1, 4) : rndr(5, 6));
  int64_t shape[6], tot = 1;
  for (int i = 0; i < rank; ++i) { shape[i] = i == rank - 1 ? (rnd() % 6 ? rndr(1, 12) : rndr(0, maxn)) : rndr(rnd() % 9 ? 1 : 0, 3); if (direct && i == rank - 1 && !shape[i]) shape[i] = 1; tot *= shape[i]; }
  int64_t n = shape[rank - 1], ns = n ? tot / n : 0;
  int64_t k = topk ? (rnd() % 8 ? (n ? rndr(0, n) : 0) : n) : n; int sorted = topk ? (int)(rnd() % 3 != 0) : 1;
  if (topk && rnd() % 3 == 0 && n > 4) k = rndr(0, n / 2);
  char *d = (char *)malloc((size_t)(tot * sz[t]) + 1), *d0 = (char *)malloc((size_t)(tot * sz[t]) + 1);
  for (int64_t i = 0; i < tot; ++i) gen(t, d, i, style);
  memcpy(d0, d, (size_t)(tot * sz[t]));
  uint64_t *o = (uint64_t *)malloc((size_t)(tot + 4) * 8);
  for (int64_t i = 0; i < tot; ++i) o[2 + i] = (uint64_t)(i % n);
  o[0] = o[1] = o[tot + 2] = o[tot + 3] = 0xABABABABABABABABull;
  if (topk) CUR("topk %lld of shape %s, %s, %s, %s", (long long)k, vec(shape, rank), tn[t], asc ? "smallest" : "largest", sorted ? "sorted" : "unsorted");
  else CUR("%s shape %s, %s, %s", direct ? "quick_sort_custom" : "sort", vec(shape, rank), tn[t], asc ? "ascending" : "descending");
  OMTensor *x = omTensorCreate(d, shape, rank, (OM_DATA_TYPE)types[t]), *y = omTensorCreate(o + 2, shape, rank, ONNX_TYPE_INT64);
  if (topk) omTensorTopK(y, x, (uint64_t)(rank - 1), (uint64_t)asc, (uint64_t)k, (uint64_t)sorted);
  else if (direct) quick_sort_custom(o + 2, (size_t)n, 8, getCompareFunction((uint64_t)asc, (OM_DATA_TYPE)types[t]), d);
  else omTensorSort(y, x, (uint64_t)(rank - 1), (uint64_t)asc);
  CHECK(!memcmp(d, d0, (size_t)(tot * sz[t])), "the input was modified");
  CHECK(o[0] == 0xABABABABABABABABull && o[1] == o[0] && o[tot + 2] == o[0] && o[tot + 3] == o[0], "written outside the order vector");
  int64_t *ref = (int64_t *)malloc((size_t)n * 8 + 8); char *seen = (char *)malloc((size_t)n + 1);
  for (int64_t s = 0; s < ns; ++s) {
    T_ = t; ASC = asc; D_ = d + s * n * sz[t];
    for (int64_t i = 0; i < n; ++i) ref[i] = i;
    qsort(ref, (size_t)n, 8, refcmp);
    const int64_t *g = (const int64_t *)(o + 2 + s * n);
    memset(seen, 0, (size_t)n + 1);
    for (int64_t i = 0; i < n; ++i) { CHECK(g[i] >= 0 && g[i] < n && !seen[g[i]], "slice %lld of data %s: order %s is not a permutation", (long long)s, text(t, D_, n), vec(g, n)); seen[g[i]] = 1; }
    if (sorted) { for (int64_t i = 0; i < k; ++i) CHECK(g[i] == ref[i], "slice %lld of data %s: order %s, expected %s first", (long long)s, text(t, D_, n), vec(g, k), vec(ref, k)); }
    else { memset(seen, 0, (size_t)n + 1); for (int64_t i = 0; i < k; ++i) seen[g[i]] = 1; for (int64_t i = 0; i < k; ++i) CHECK(seen[ref[i]], "slice %lld of data %s: selected %s, expected the set %s", (long long)s, text(t, D_, n), vec(g, k), vec(ref, k)); }
  }
  omTensorDestroy(x); omTensorDestroy(y); free(d); free(d0); free(o); free(ref); free(seen);
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long N = mon_arg(argc, argv, "n", 5000), K = mon_arg(argc, argv, "topk", 0), M = mon_arg(argc, argv, "max", 200);
  for (long i = 0; i < N; ++i) one((int)K, !K && rnd() % 3 == 0, M);
  for (long i = 0; i < 5; ++i) one((int)K, !K && i < 3, 20000);
  return mon_done();
}
