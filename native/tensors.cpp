/* C03: bounded monitor of the C++ tensor helpers and of printing (src/Runtime/OMTensor.inc). */
#include "mon.h"
#include "OnnxMlirRuntime.h"
#include "src/Runtime/OMTensorHelper.hpp"
#include <cmath>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
typedef std::vector<int64_t> V;
static const char *S(const V &v) { return vec(v.data(), (int64_t)v.size()); }
static V dense(const V &s) {
  V d(s.size());
  int64_t p = 1;
  for (size_t i = s.size(); i-- > 0;) { d[i] = p; p *= s[i]; }
  return d;
}
static int64_t num(const V &s) { int64_t p = 1; for (int64_t x : s) p *= x; return p; }
/* the nth multi-index in row-major order */
static V nth(const V &s, int64_t n) {
  V x(s.size());
  for (size_t i = s.size(); i-- > 0;) { x[i] = n % s[i]; n /= s[i]; }
  return x;
}
static V shape(int maxr, int64_t maxe, bool zeros) {
  V s;
  int r = (int)rndr(0, maxr);
  int64_t p = 1;
  for (int i = 0; i < r; ++i) {
    int64_t d = zeros && rnd() % 12 == 0 ? 0 : rndr(1, 4);
    if (p * d > maxe) d = 1;
    p *= d ? d : 1;
    s.push_back(d);
  }
  return s;
}

/* ---- strides, offsets, indices */
static void addressing(const V &s) {
  char cell[8] = {0};
  OMTensor *t = omTensorCreate(cell, s.data(), (int64_t)s.size(), ONNX_TYPE_INT8);
  CUR("addressing shape %s", S(s));
  V d = omTensorComputeStridesFromShape(t);
  CHECK(d == dense(s), "strides of the shape are %s, not %s", S(d), S(dense(s)));
  const int64_t *own = omTensorGetStrides(t);
  for (size_t i = 0; i < s.size(); ++i) CHECK(own[i] == dense(s)[i], "stride %zu of a new tensor is %lld", i, (long long)own[i]);
  auto all = omTensorComputeIndexSet(t);
  CHECK((int64_t)all.size() == num(s), "%zu indices for %lld elements", all.size(), (long long)num(s));
  for (int64_t n = 0; n < num(s); ++n) {
    CHECK(all[n] == nth(s, n), "index %lld of the enumeration is %s", (long long)n, S(all[n]));
    CHECK(omTensorComputeElemOffset(t, all[n]) == n, "offset of %s is %lld", S(all[n]), (long long)omTensorComputeElemOffset(t, all[n]));
  }
  omTensorDestroy(t);
}
static void offsets() {
  int r = (int)rndr(0, 7);
  V s(r, 1), st(r), ix(r);
  int64_t lim = rnd() % 2 ? 1000 : (int64_t)1 << rndr(4, 30), want = 0;
  for (int i = 0; i < r; ++i) { st[i] = rndr(-lim, lim); ix[i] = rndr(0, lim); want += st[i] * ix[i]; }
  char cell[8] = {0};
  OMTensor *t = omTensorCreate(cell, s.data(), r, ONNX_TYPE_INT8);
  omTensorSetStrides(t, st.data());
  CUR("offset strides %s index %s", S(st), S(ix));
  int64_t got = omTensorComputeElemOffset(t, ix);
  CHECK(got == want, "offset %lld, expected %lld", (long long)got, (long long)want);
  omTensorDestroy(t);
}

/* ---- closeness */
template <typename T> static bool within(T a, T b, float rtol, float atol, bool &unsure) {
  __float128 x = a, y = b, d = x - y, m = y;
  if (d < 0) d = -d;
  if (m < 0) m = -m;
  __float128 tol = (__float128)rtol * m + (__float128)atol;
  __float128 slack = (tol + d) * (__float128)(std::is_same<T, float>::value ? 1e-6 : 1e-15);
  bool zero = rtol == 0;
  unsure = (!zero || std::is_floating_point<T>::value) && d != 0 && (d > tol ? d - tol : tol - d) <= slack;
  return d <= tol;
}
template <typename T> static T value() {
  int k = (int)(rnd() % 6);
  if (std::is_floating_point<T>::value) {
    if (k == 0) return (T)0;
    if (k == 1) return (T)(std::ldexp(1.0, (int)rndr(-40, 40)) * (rnd() % 2 ? 1 : -1));
    return (T)((double)rndr(-100000, 100000) / 64);
  }
  if (k == 0) return std::numeric_limits<T>::max();
  if (k == 1) return std::numeric_limits<T>::min();
  if (k == 2) return (T)(1ull << rndr(1, 8 * sizeof(T) - 2));
  return (T)rndr(-1000, 1000);
}
template <typename T> static void closeness(OM_DATA_TYPE ty, const char *name) {
  V s = shape(4, 24, true);
  std::vector<T> a(num(s) + 1), b;
  for (T &x : a) x = value<T>();
  b = a;
  float rtol = rnd() % 3 ? (float)std::ldexp(1.0, -(int)rndr(1, 20)) : 0.0f, atol = rnd() % 3 ? (float)std::ldexp(1.0, (int)rndr(-20, 6)) : 0.0f;
  std::stringstream diff;
  for (int k = (int)(rnd() % 3); k > 0 && num(s); --k) {
    size_t p = rnd() % (size_t)num(s);
    if (rnd() % 5 == 0) b[p] = value<T>();
    else if (std::is_floating_point<T>::value) b[p] = (T)(a[p] + (T)((double)rndr(-40, 40) * (atol + rtol * std::fabs((double)a[p])) / 20));
    else if (a[p] < std::numeric_limits<T>::max() - 20000 && a[p] > std::numeric_limits<T>::min() + 20000) b[p] = (T)(a[p] + rndr(-3, 3) * (rnd() % 3 ? 1 : 100));
  }
  if (std::is_floating_point<T>::value && num(s) && rnd() % 20 == 0) b[rnd() % (size_t)num(s)] = std::numeric_limits<T>::quiet_NaN();
  V s2 = s;
  int change = (int)(rnd() % 8);
  if (change == 0) { s2.push_back(1); }
  if (change == 1 && s.size() >= 2) std::swap(s2[0], s2[1]);
  if (change == 2 && s.size()) s2[rnd() % s2.size()] = 0;
  bool want = s == s2, unsure = false;
  if (want) for (int64_t n = 0; n < num(s); ++n) {
    bool u = false, w = a[n] == a[n] && b[n] == b[n] && within<T>(a[n], b[n], rtol, atol, u);
    want = want && w;
    unsure = unsure || u;
    if (!(a[n] == b[n])) diff << " [" << n << "] " << +a[n] << " and " << +b[n];
  }
  OMTensor *x = omTensorCreate(a.data(), s.data(), (int64_t)s.size(), ty), *y = omTensorCreate(b.data(), s2.data(), (int64_t)s2.size(), ty);
  CUR("close %s shapes %s %s rtol %g atol %g, different:%.200s", name, S(s), S(s2), rtol, atol, diff.str().c_str());
  bool got = omTensorAreTwoOmtsClose<T>(x, y, rtol, atol);
  CHECK(unsure || got == want, "reported as %s", got ? "close" : "not close");
  omTensorDestroy(x);
  omTensorDestroy(y);
}

/* ---- printing */
template <typename T> static std::string text(const char *f, T x) { char b[512]; snprintf(b, sizeof b, f, x); return b; }
static std::string cell(int ty, const char *d, int64_t n) {
  switch (ty) {
  case ONNX_TYPE_BOOL: return text("%d", (int)((const uint8_t *)d)[n]);
  case ONNX_TYPE_UINT8: return text("%u", (unsigned)((const uint8_t *)d)[n]);
  case ONNX_TYPE_INT8: return text("%d", (int)((const int8_t *)d)[n]);
  case ONNX_TYPE_UINT16: return text("%u", (unsigned)((const uint16_t *)d)[n]);
  case ONNX_TYPE_INT16: return text("%d", (int)((const int16_t *)d)[n]);
  case ONNX_TYPE_UINT32: return text("%u", ((const uint32_t *)d)[n]);
  case ONNX_TYPE_INT32: return text("%d", ((const int32_t *)d)[n]);
  case ONNX_TYPE_UINT64: return text("%llu", ((const unsigned long long *)d)[n]);
  case ONNX_TYPE_INT64: return text("%lld", ((const long long *)d)[n]);
  case ONNX_TYPE_FLOAT: return text("%f", (double)((const float *)d)[n]);
  case ONNX_TYPE_DOUBLE: return text("%f", ((const double *)d)[n]);
  case ONNX_TYPE_STRING: return ((const char *const *)d)[n];
  }
  return "?";
}
static std::string nest(int ty, const char *d, const V &s, const V &st, size_t dim, int64_t at) {
  if (dim == s.size()) return cell(ty, d, at);
  std::string r = "[";
  for (int64_t i = 0; i < s[dim]; ++i) r += (i ? ", " : "") + nest(ty, d, s, st, dim + 1, at + i * st[dim]);
  return r + "]";
}
static void printing() {
  static const int T[] = {ONNX_TYPE_BOOL, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_UINT32, ONNX_TYPE_INT32, ONNX_TYPE_UINT64, ONNX_TYPE_INT64, ONNX_TYPE_FLOAT, ONNX_TYPE_DOUBLE, ONNX_TYPE_STRING};
  static const char *words[] = {"", "a", "two words", "%d", "[,]"};
  int ty = T[rnd() % 12];
  V s = shape(6, 40, true), st = dense(s);
  if (s.size() >= 2 && rnd() % 3 == 0) { /* dimensions exchanged: a transposed view */
    size_t i = rnd() % s.size(), j = rnd() % s.size();
    std::swap(s[i], s[j]);
    std::swap(st[i], st[j]);
  }
  int64_t e = num(s) + 1;
  std::vector<char> buf((size_t)e * 8 + 8);
  for (char &c : buf) c = (char)rnd();
  if (ty == ONNX_TYPE_BOOL) for (char &c : buf) c &= 1;
  if (ty == ONNX_TYPE_FLOAT) for (int64_t n = 0; n < e; ++n) ((float *)buf.data())[n] = (float)rndr(-100000, 100000) / 16;
  if (ty == ONNX_TYPE_DOUBLE) for (int64_t n = 0; n < e; ++n) ((double *)buf.data())[n] = (double)rndr(-100000, 100000) / 16;
  if (ty == ONNX_TYPE_STRING) for (int64_t n = 0; n < e; ++n) ((const char **)buf.data())[n] = words[rnd() % 5];
  OMTensor *t = omTensorCreate(buf.data(), s.data(), (int64_t)s.size(), (OM_DATA_TYPE)ty);
  omTensorSetStrides(t, st.data());
  CUR("print type %d shape %s strides %s", ty, S(s), S(st));
  char *out = nullptr;
  size_t len = 0;
  FILE *real = stdout;
  stdout = open_memstream(&out, &len);
  omTensorPrint("a%db", t);
  fclose(stdout);
  stdout = real;
  std::string want = "a\tdata: (" + nest(ty, buf.data(), s, st, 0, 0) + ")\nb";
  CHECK(want == std::string(out, len), "printed '%.300s' expected '%.300s'", out, want.c_str());
  free(out);
  omTensorDestroy(t);
}

int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 2000);
  std::cerr.rdbuf(nullptr); /* the comparison lists every mismatch there */
  addressing({});
  addressing({0});
  addressing({2, 0, 3});
  for (long k = 0; k < n; ++k) {
    addressing(shape(6, 60, true));
    offsets();
    closeness<int32_t>(ONNX_TYPE_INT32, "int32");
    closeness<int64_t>(ONNX_TYPE_INT64, "int64");
    closeness<float>(ONNX_TYPE_FLOAT, "float");
    closeness<double>(ONNX_TYPE_DOUBLE, "double");
    printing();
  }
  return mon_done();
}
