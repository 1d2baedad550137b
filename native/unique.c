/* Monitor of omTensorUnique / omTensorUniqueCount (C06). */
#include "mon.h"
#include "onnx-mlir/Runtime/OMTensor.h"
#include <math.h>
FILE *getInstrumentFile(bool b) { return stdout; }
extern void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
extern void omTensorUniqueCount(OMTensor *, const OMTensor *, int64_t, uint64_t);
static const int types[] = {ONNX_TYPE_BOOL, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_UINT32, ONNX_TYPE_INT32, ONNX_TYPE_UINT64, ONNX_TYPE_INT64, ONNX_TYPE_FLOAT, ONNX_TYPE_DOUBLE};
static const char *tn[] = {"bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"};
static const int sz[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static int T_;
static int cmp1(const char *a, const char *b) {
#define C(T) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); return x < y ? -1 : y < x; }
  switch (T_) { case 0: C(uint8_t) case 1: C(uint8_t) case 2: C(int8_t) case 3: C(uint16_t) case 4: C(int16_t) case 5: C(uint32_t) case 6: C(int32_t) case 7: C(uint64_t) case 8: C(int64_t) case 9: C(float) default: C(double) }
}
static int cmpn(const char *a, const char *b, int64_t n) {
  for (int64_t i = 0; i < n; ++i) { int c = cmp1(a + i * sz[T_], b + i * sz[T_]); if (c) return c; }
  return 0;
}
static void gen(char *p, int pool, int style) {
  static const uint64_t ext[] = {0, 1, ~0ull, 0x8000000000000000ull, 0x7FFFFFFFFFFFFFFFull, 0x80000000ull, 0x7FFFFFFFull, 0xFFFFFFFFull, 0x8000, 0x7FFF, 0x80, 0x7F, 0xFF, 0x100, 0x10000, 0x100000000ull};
  static const double fe[] = {0.0, -0.0, INFINITY, -INFINITY, 1.0, -1.0, 0.5, 16777216.0, 1e-45, -1e-45, 1.00000012, 3e38};
  uint64_t r = rnd() % (uint64_t)pool;
  if (style == 1) r = ext[rnd() % 16];
  double f = style == 1 ? fe[rnd() % 12] : style == 2 ? (rnd() % 2 ? 0.0 : -0.0) : (double)(int64_t)r - pool / 2;
  if (T_ == 0) { r &= 1; memcpy(p, &r, 1); }
  else if (T_ == 9) { float g = (float)f; memcpy(p, &g, 4); }
  else if (T_ == 10) memcpy(p, &f, 8);
  else { if (style != 1) r -= (uint64_t)(pool / 2); memcpy(p, &r, (size_t)sz[T_]); }
}
static const char *text(const char *d, int64_t n) {
  static char b[700]; int p = snprintf(b, sizeof b, "[");
  for (int64_t i = 0; i < n && p < 600; ++i) {
    if (T_ >= 9) { double v; if (T_ == 9) { float g; memcpy(&g, d + i * 4, 4); v = g; } else memcpy(&v, d + i * 8, 8); p += snprintf(b + p, 60, "%s%g", i ? "," : "", v); }
    else { int64_t v = 0; memcpy(&v, d + i * sz[T_], (size_t)sz[T_]); p += snprintf(b + p, 60, "%s%llx", i ? "," : "", (unsigned long long)v); }
  }
  snprintf(b + p, 60, "]"); return b;
}
/* an output of exactly the needed size; none = NULL or an empty tensor */
static OMTensor *idx(int mode, int64_t n, int64_t **data) {
  *data = NULL;
  if (mode == 0) return NULL;
  int64_t s = mode == 1 ? n : 0;
  int64_t *d = (int64_t *)malloc((size_t)s * 8); /* exact: the sanitizer sees any overrun */
  memset(d, 0xEE, (size_t)s * 8);
  *data = d;
  return omTensorCreate(d, &s, 1, ONNX_TYPE_INT64);
}
static void one(int64_t maxd, int huge) {
  T_ = (int)(rnd() % 11);
  if (huge) T_ = 2;
  int style = (int)(rnd() % 4), rank = (int)(rnd() % 10 ? rndr(1, 4) : rndr(5, 6)), pool = (int)(rnd() % 3 ? rndr(1, 3) : rndr(4, 40)), sorted = (int)(rnd() % 2);
  int64_t shape[6], strides[6], tot = 1, axis = rnd() % 3 ? rndr(0, rank - 1) : -1;
  if (huge) { rank = 1 + (huge > 1); axis = huge > 1 ? 1 : -1; pool = 2; style = 0; }
  for (int i = 0; i < rank; ++i) { shape[i] = rndr(rnd() % 10 ? 1 : 0, i == axis ? maxd : rank > 4 ? 2 : 3); if (huge) shape[i] = huge > 1 ? (i ? 5 : 3000000) : 12000000; tot *= shape[i]; }
  if (axis < 0 && rank == 1 && !huge) { shape[0] = rndr(0, 4 * maxd); tot = shape[0]; }
  int es = sz[T_]; int64_t span = 1;
  int order[6]; for (int i = 0; i < rank; ++i) order[i] = i;
  int strided = axis >= 0 && !huge && rnd() % 3 == 0;
  if (strided) for (int i = rank - 1; i > 0; --i) { int j = (int)rndr(0, i), t = order[i]; order[i] = order[j]; order[j] = t; }
  for (int i = rank - 1; i >= 0; --i) { strides[order[i]] = span; span *= shape[order[i]] + (strided ? rndr(0, 1) : 0); }
  char *d = (char *)malloc((size_t)((tot ? span : 1) * es)), *d0;
  int64_t cap = (tot ? span : 1);
  for (int64_t i = 0; i < cap; ++i) gen(d + i * es, pool, style);
  d0 = (char *)malloc((size_t)(cap * es)); memcpy(d0, d, (size_t)(cap * es));
  OMTensor *x = omTensorCreate(d, shape, rank, (OM_DATA_TYPE)types[T_]);
  int64_t *xs = (int64_t *)omTensorGetStrides(x); for (int i = 0; i < rank; ++i) xs[i] = strides[i];
  /* reference: slices in row-major order of their elements */
  int64_t ns = axis < 0 ? tot : shape[axis], ne = axis < 0 ? 1 : 1;
  if (axis >= 0) for (int i = 0; i < rank; ++i) if (i != axis) ne *= shape[i];
  char *sl = (char *)malloc((size_t)(ns * ne * es) + 1);
  for (int64_t s = 0; s < ns; ++s)
    for (int64_t e = 0; e < ne; ++e) {
      int64_t r = axis < 0 ? s : e, off = 0;
      for (int i = rank - 1; i >= 0; --i) { int64_t k; if (i == axis) k = s; else { k = r % (shape[i] ? shape[i] : 1); r /= shape[i] ? shape[i] : 1; } off += k * strides[i]; }
      memcpy(sl + (s * ne + e) * es, d + off * es, (size_t)es);
    }
  int64_t *u = (int64_t *)malloc((size_t)ns * 8 + 8), *inv = (int64_t *)malloc((size_t)ns * 8 + 8), *cnt = (int64_t *)calloc((size_t)ns + 1, 8), nu = 0;
  for (int64_t s = 0; s < ns; ++s) {
    int64_t j; for (j = 0; j < nu; ++j) if (!cmpn(sl + u[j] * ne * es, sl + s * ne * es, ne)) break;
    if (j == nu) u[nu++] = s;
  }
  if (sorted) for (int64_t i = 1; i < nu; ++i) for (int64_t j = i; j > 0 && cmpn(sl + u[j] * ne * es, sl + u[j - 1] * ne * es, ne) < 0; --j) { int64_t t = u[j]; u[j] = u[j - 1]; u[j - 1] = t; }
  for (int64_t s = 0; s < ns; ++s) for (int64_t j = 0; j < nu; ++j) if (!cmpn(sl + u[j] * ne * es, sl + s * ne * es, ne)) { inv[s] = j; ++cnt[j]; break; }
  int mi = (int)(rnd() % 4), mv = (int)(rnd() % 4), mc = (int)(rnd() % 4), my = (int)(rnd() % 4);
  if (mi == 3) mi = 1; if (mv == 3) mv = 1; if (mc == 3) mc = 1;
  CUR("unique of %s shape %s strides %s axis %lld%s, data %s, outputs:%s%s%s%s", tn[T_], vec(shape, rank), vec(strides, rank), (long long)axis, sorted ? ", sorted" : "", huge ? "(large)" : text(d, cap), my ? " Y" : "",
      mi == 1 ? " indices" : mi ? " (empty indices)" : "", mv == 1 ? " inverse" : mv ? " (empty inverse)" : "", mc == 1 ? " counts" : mc ? " (empty counts)" : "");
  int64_t total = -7, one1 = 1; OMTensor *tt = omTensorCreate(&total, &one1, 0, ONNX_TYPE_INT64);
  omTensorUniqueCount(tt, x, axis, (uint64_t)sorted);
  CHECK(total == nu, "omTensorUniqueCount says %lld, expected %lld", (long long)total, (long long)nu);
  int64_t ysh[6], ytot = 1; int yr = axis < 0 ? 1 : rank;
  if (axis < 0) ysh[0] = ytot = nu; else for (int i = 0; i < rank; ++i) { ysh[i] = i == axis ? nu : shape[i]; ytot *= ysh[i]; }
  char *yd = (char *)malloc((size_t)(ytot * es)); memset(yd, 0xEE, (size_t)(ytot * es));
  OMTensor *y = my ? omTensorCreate(yd, ysh, yr, (OM_DATA_TYPE)types[T_]) : NULL;
  int64_t *di, *dv, *dc; OMTensor *ti = idx(mi, nu, &di), *tv = idx(mv, ns, &dv), *tc = idx(mc, nu, &dc);
  total = -7;
  omTensorUnique(tt, y, ti, tv, tc, x, axis, (uint64_t)sorted);
  CHECK(total == nu, "omTensorUnique says %lld, expected %lld", (long long)total, (long long)nu);
  CHECK(!memcmp(d, d0, (size_t)(cap * es)), "the input was modified");
  if (mi == 1) for (int64_t i = 0; i < nu; ++i) CHECK(di[i] == u[i], "indices %s, expected %s", vec(di, nu), vec(u, nu));
  if (mv == 1) for (int64_t i = 0; i < ns; ++i) CHECK(dv[i] == inv[i], "inverse indices %s, expected %s", vec(dv, ns), vec(inv, ns));
  if (mc == 1) for (int64_t i = 0; i < nu; ++i) CHECK(dc[i] == cnt[i], "counts %s, expected %s", vec(dc, nu), vec(cnt, nu));
  if (my) for (int64_t e = 0; e < ytot; ++e) {
    int64_t s, p = 0;
    if (axis < 0) s = u[e];
    else { int64_t r = e, k[6]; for (int i = rank - 1; i >= 0; --i) { k[i] = r % ysh[i]; r /= ysh[i]; } s = u[k[axis]]; for (int i = 0; i < rank; ++i) if (i != axis) p = p * shape[i] + k[i]; }
    CHECK(!cmp1(yd + e * es, sl + (s * ne + p) * es), "Y %s: element %lld is not that of slice %lld", text(yd, ytot), (long long)e, (long long)s);
  }
  omTensorDestroy(x); omTensorDestroy(tt); if (y) omTensorDestroy(y); if (ti) omTensorDestroy(ti); if (tv) omTensorDestroy(tv); if (tc) omTensorDestroy(tc);
  free(d); free(d0); free(sl); free(u); free(inv); free(cnt); free(yd); free(di); free(dv); free(dc);
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long N = mon_arg(argc, argv, "n", 20000), M = mon_arg(argc, argv, "max", 8);
  for (long i = 0; i < N; ++i) one(i % 50 ? M : 4 * M, 0);
  if (mon_arg(argc, argv, "huge", 1)) { one(1, 1); one(1, 2); }
  return mon_done();
}
