/* Monitor of C16: random signatures and shape, value and bound options, against a reference of the inputs they ask for. */
#include "mon.h"
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "OnnxMlirRuntime.h"
#include "src/Runtime/OMTensorHelper.hpp"
#include "src/Runtime/OMTensorListHelper.hpp"
#include "src/Support/SmallFPConversion.h"
#ifdef MON_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void) { return 0; }
#endif
typedef std::string S;
typedef long double LD;
static long built;
static int fail_list, fail_tensor;
extern "C" OMTensorList *__real_omTensorListCreate(OMTensor **, int64_t);
extern "C" OMTensorList *__wrap_omTensorListCreate(OMTensor **t, int64_t n) { return fail_list && --fail_list == 0 ? nullptr : __real_omTensorListCreate(t, n); }
extern "C" OMTensor *__real_omTensorCreateWithOwnership(void *, const int64_t *, int64_t, OM_DATA_TYPE, int64_t);
extern "C" OMTensor *__wrap_omTensorCreateWithOwnership(void *d, const int64_t *s, int64_t r, OM_DATA_TYPE t, int64_t o) { return fail_tensor && --fail_tensor == 0 ? nullptr : __real_omTensorCreateWithOwnership(d, s, r, t, o); }
struct T { OM_DATA_TYPE t; const char *sig, *np; int size, kind; /* 0 signed, 1 unsigned, 2 real, 3 bool, 4 string, 5 half, 6 cannot be filled */ LD lo, hi, dlo, dhi; };
static const T TYPES[] = {
  {ONNX_TYPE_FLOAT, "f32", "float32", 4, 2, -1e30L, 1e30L, -0.1, 0.1}, {ONNX_TYPE_DOUBLE, "f64", "float64", 8, 2, -1e300L, 1e300L, -0.1, 0.1}, {ONNX_TYPE_FLOAT16, "f16", "float16", 2, 5, -60000, 60000, -0.1, 0.1},
  {ONNX_TYPE_INT8, "i8", "int8", 1, 0, -128, 127, -10, 10}, {ONNX_TYPE_INT16, "i16", "int16", 2, 0, -32768, 32767, -10, 10}, {ONNX_TYPE_INT32, "i32", "int32", 4, 0, -2147483648.0L, 2147483647.0L, -10, 10}, {ONNX_TYPE_INT64, "i64", "int64", 8, 0, -9223372036854775808.0L, 9223372036854774784.0L, -10, 10},
  {ONNX_TYPE_UINT8, "ui8", "uint8", 1, 1, 0, 255, 0, 10}, {ONNX_TYPE_UINT16, "ui16", "uint16", 2, 1, 0, 65535, 0, 10}, {ONNX_TYPE_UINT32, "ui32", "uint32", 4, 1, 0, 4294967295.0L, 0, 10}, {ONNX_TYPE_UINT64, "ui64", "uint64", 8, 1, 0, 18446744073709549568.0L, 0, 10},
  {ONNX_TYPE_BOOL, "i1", "bool_", 1, 3, 0, 1, 0, 1}, {ONNX_TYPE_STRING, "string", "str", 8, 4, -2147483648.0L, 2147483647.0L, 0, 63},
  {ONNX_TYPE_BFLOAT16, "bf16", "bfloat16", 2, 6, 0, 1, 0, 10}, {ONNX_TYPE_COMPLEX64, "complex64", "complex64", 8, 6, 0, 1, 0, 10}, {ONNX_TYPE_INT4, "i4", "", 1, 6, 0, 1, 0, 10}, {ONNX_TYPE_FLOAT8E5M2, "f8e5m2", "", 1, 6, 0, 1, 0, 10}, {ONNX_TYPE_UNDEFINED, "undefined", "", 0, 6, 0, 1, 0, 10}};
static const int NT = sizeof TYPES / sizeof *TYPES, NGOOD = 13;
static S ws() { static const char *W[] = {"", "", " ", "  ", "\t", "\n "}; return W[rnd() % 6]; }
static S sp() { return rnd() % 3 ? "" : " "; }
static S num(double v) { char b[400]; snprintf(b, sizeof b, v == std::floor(v) && std::fabs(v) < 1e15 && rnd() % 4 ? "%.0f" : "%.17g", v); return b; }
static double value(const T &t) {
  if (t.kind == 2 || t.kind == 5) {
    switch (rnd() % 4) { case 0: return (double)rndr(-20, 20); case 1: return (double)rndr(-4000, 4000) / 128; case 2: return 0.1 * (double)rndr(-100, 100); default: { double s = (double)t.hi / 4 * ((double)rndr(-1000, 1000) / 1000); return t.kind == 5 ? std::floor(s) : s; } }
  }
  double v;
  switch (rnd() % 4) { case 0: case 1: v = (double)rndr(-20, 20); break; case 2: v = (double)(rnd() % 2 ? t.lo : t.hi); break; default: v = (double)(t.lo + (t.hi - t.lo) * ((LD)rndr(0, 1 << 20) / (1 << 20))); v = std::floor(v); }
  if (v < t.lo) v = (double)t.lo;
  if (v > t.hi) v = (double)t.hi;
  return v;
}
struct In { const T *t; std::vector<int64_t> dims; bool hmin = false, hmax = false, hsoz = false; double mn = 0, mx = 0; int64_t soz = 0; };
static S ctx;
static S show(const char *s) { return s ? "\"" + S(s) + "\"" : S("(null)"); }
static void once() {
  bool big = rnd() % 12 == 0;
  int n = rnd() % 40 == 0 ? 0 : (int)rndr(1, 4);
  bool ok = n > 0;
  std::vector<In> in((size_t)n);
  S sig = ws() + "[" + ws();
  for (int i = 0; i < n; ++i) {
    In &x = in[(size_t)i];
    x.t = &TYPES[rnd() % 50 == 0 ? rnd() % NT : rnd() % NGOOD];
    int rank = (int)rndr(0, 4);
    S d = "[" + ws();
    for (int j = 0; j < rank; ++j) {
      int64_t e = rnd() % 7 == 0 ? -1 : rnd() % 10 == 0 ? 0 : rndr(1, big && j < 2 ? 20 : 4);
      x.dims.push_back(e);
      if (j) d += ws() + "," + ws();
      d += std::to_string(e);
    }
    d += ws() + "]";
    S ty = "\"type\"" + ws() + ":" + ws(), di = "\"dims\"" + ws() + ":" + ws() + d, nm = "\"name\"" + ws() + ":" + ws() + "\"in" + std::to_string(i) + (rnd() % 4 ? "" : " {x}, [1:2]") + "\"";
    S tn = x.t->sig;
    if (x.t->t == ONNX_TYPE_FLOAT && rnd() % 6 == 0) tn = "float";
    if (x.t->t == ONNX_TYPE_DOUBLE && rnd() % 6 == 0) tn = "double";
    bool typed = true;
    if (rnd() % 90 == 0) { static const char *B[] = {"i9", "f33", "", "F32", "i32 ", "i3", "OUT", "uint8_t"}; tn = B[rnd() % 8]; ok = false; }
    else if (rnd() % 120 == 0) { typed = false; ok = false; }
    if (x.t->t == ONNX_TYPE_UNDEFINED) ok = false;
    ty += "\"" + tn + "\"";
    S c = ws() + "," + ws();
    sig += i ? c : "";
    sig += "{" + ws() + (typed ? rnd() % 3 ? ty + c + di : di + c + ty : di) + (rnd() % 3 ? c + nm : "") + ws() + "}";
  }
  sig += ws() + "]" + ws();
  /* the options */
  S opt[4];
  bool has[4];
  std::vector<std::vector<int64_t>> over((size_t)n);
  std::map<int, double> lbs, ubs;
  S N = std::to_string(n);
  for (int o = 0; o < 4; ++o) {
    has[o] = rnd() % 4 != 0;
    if (!has[o]) continue;
    int ne = n ? (int)rndr(o == 0 ? 1 : 0, o == 0 ? 2 * n : 3) : 0, bad = rnd() % 10 == 0 ? (int)rndr(0, ne) : -1;
    std::vector<S> es;
    for (int e = 0; e <= ne; ++e) {
      if (e == bad) {
        ok = false;
        static const std::vector<S> SH = {"x", "0", "0:1x2:3", "0:1xa", "0:1x2b", "0:3 4", "0:3.5", ":1", "a:1", "0b:1", "0 1:1", "N:1", "1-0:1", "0-N:1", "-2:1", "0-:1", "0-b:1", "0-0b:1", "-1-0:1", "-1b:1", "0:-2", "0:", "0:1xx2", "0:x1", "0:99999999999999999999", "99999999999999999999:1", "0:a", "", "0.5:1"},
          VA = {"x", "0", "min1", "0:min", "0:foo1", "0:min1 max", "0:soz1 min2", "0:max1 soz1", "0:val1soz1", "0:soz-2", "0:min1x", "0:mi", "0:1", "0:val5 junk", "0:valnan", "0:minnan max3", "0:MIN1", "N:val1", "1-0:val1", "0-N:val1", "-2:val1", "0b:val1", "0 1:val1", "-1b:val1", "0-0b:val1", ":val1", "0:val1:val1", "0:", "0:va l1", "0:min1,", "0:sozinf", "0:soznan"},
          BO = {"int8", "int8:1:2", ":5", " :5", "int99:5", "int8:x", "int8:", "int8: ", "int8:5x", "int8:5 6", "int8 y:5", "Int8:5", "f32:5", "i8:5", "int8:1e999", "", "OUT OF BOUND:1", "undefined:1"};
        const auto &B = o == 0 ? SH : o == 1 ? VA : BO;
        S b = B[rnd() % B.size()];
        for (size_t p; (p = b.find('N')) != S::npos;) b.replace(p, 1, N);
        if (b.empty()) b = n ? ":" : "x";
        if (b.back() == ',') b += ":";
        es.push_back(b);
        continue;
      }
      if (e == ne) break;
      if (o < 2) {
        int lo = rnd() % 5 == 0 ? -1 : (int)rndr(0, n - 1), hi = lo < 0 ? n - 1 : rnd() % 3 ? lo : (int)rndr(lo, n - 1);
        S id = sp() + (lo < 0 ? "-1" : lo == hi && rnd() % 4 ? std::to_string(lo) : std::to_string(lo) + sp() + "-" + sp() + std::to_string(hi)) + sp();
        int from = lo < 0 ? 0 : lo, to = hi;
        if (o == 0) {
          std::vector<int64_t> d;
          const In &x = in[(size_t)from];
          int len = rnd() % 6 ? (int)x.dims.size() : (int)rndr(1, 5);
          if (!len) continue;
          S c;
          for (int j = 0; j < len; ++j) {
            int64_t v = j < (int)x.dims.size() && x.dims[(size_t)j] >= 0 ? rnd() % 3 ? x.dims[(size_t)j] : rnd() % 12 ? -1 : rndr(0, 4) : rnd() % 15 ? rndr(rnd() % 10 != 0, big && j < 2 ? 20 : 4) : -1;
            d.push_back(v);
            c += (j ? "x" : "") + sp() + std::to_string(v) + sp();
          }
          es.push_back(id + ":" + c);
          for (int i = from; i <= to; ++i) over[(size_t)i] = d;
        } else {
          In y;
          S c;
          bool only = to == from;
          const T &t = *in[(size_t)from].t;
          auto val = [&] { return only ? value(t) : (double)rndr(0, 1); };
          switch (rnd() % 6) {
          case 0: y.hmin = true; y.mn = val(); c = "min" + num(y.mn); break;
          case 1: y.hmax = true; y.mx = val(); c = "max" + num(y.mx); break;
          case 2: case 3: { y.hmin = y.hmax = true; y.mn = val(); y.mx = val(); if (y.mn > y.mx && rnd() % 6) std::swap(y.mn, y.mx);
            S a = "min" + num(y.mn), b = "max" + num(y.mx); c = rnd() % 2 ? a + sp() + b : b + sp() + a; break; }
          case 4: y.hmin = y.hmax = true; y.mn = y.mx = val(); c = "val" + num(y.mn); break;
          default: y.hsoz = true; y.soz = rndr(-1, 6); c = "soz" + std::to_string(y.soz); break;
          }
          es.push_back(id + ":" + sp() + c + sp());
          for (int i = from; i <= to; ++i) { In &x = in[(size_t)i]; x.hmin = y.hmin; x.hmax = y.hmax; x.hsoz = y.hsoz; x.mn = y.mn; x.mx = y.mx; x.soz = y.soz; }
        }
      } else {
        const T &t = n && rnd() % 4 ? *in[rnd() % (size_t)n].t : TYPES[rnd() % NGOOD];
        if (!*t.np) continue;
        double v = value(t);
        if (rnd() % 3) v = o == 2 ? std::min(v, (double)t.dlo) : std::max(v, (double)t.dhi);
        (o == 2 ? lbs : ubs)[t.t] = v;
        S nm = t.kind == 3 && rnd() % 2 ? "bool" : t.np;
        es.push_back(sp() + nm + sp() + ":" + sp() + num(v) + sp());
      }
    }
    for (size_t e = 0; e < es.size(); ++e) opt[o] += (e ? "," : "") + es[e];
  }
  const char *a[4];
  for (int o = 0; o < 4; ++o) a[o] = has[o] || rnd() % 3 == 0 ? opt[o].c_str() : nullptr;
  ctx = "signature=" + show(sig.c_str()) + " shapes=" + show(a[0]) + " values=" + show(a[1]) + " lower=" + show(a[2]) + " upper=" + show(a[3]);
  /* what has to come out */
  for (int i = 0; i < n && ok; ++i) {
    In &x = in[(size_t)i];
    auto &d = over[(size_t)i];
    for (size_t j = 0; j < x.dims.size(); ++j) {
      if (j < d.size() && d[j] >= 0) { if (x.dims[j] < 0) x.dims[j] = d[j]; else if (x.dims[j] != d[j]) ok = false; }
      if (x.dims[j] < 0) ok = false;
    }
    if (!x.hmin) x.mn = lbs.count(x.t->t) ? lbs[x.t->t] : (double)x.t->dlo;
    if (!x.hmax) x.mx = ubs.count(x.t->t) ? ubs[x.t->t] : (double)x.t->dhi;
    int64_t rows = 1;
    for (size_t j = 0; j + 1 < x.dims.size(); ++j) rows *= x.dims[j];
    if (ok && x.hsoz && x.t->kind >= 4 && !rows) return; /* no row to fill: either answer will do */
    if (x.t->kind == 6) ok = false;
    if (x.hsoz ? x.dims.empty() || x.t->kind >= 4 : x.mn > x.mx) ok = false;
  }
  int inject = ok && rnd() % 10 == 0 ? (int)rndr(1, n + 1) : 0;
  if (inject) { ctx += inject > n ? " (the list cannot be made)" : " (tensor " + std::to_string(inject - 1) + " cannot be made)"; ok = false; }
  CUR("%s%s", ok ? "" : "(to be refused) ", ctx.c_str());
  if (rnd() % 3 == 0) omDefineSeed((unsigned)rnd(), 1);
  fail_tensor = inject && inject <= n ? inject : 0; fail_list = inject > n;
  size_t before = __sanitizer_get_current_allocated_bytes();
  OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str(), a[0], a[1], a[2], a[3], false);
  fail_tensor = fail_list = 0;
  if (!ok) {
    CHECK(!l, "accepts what has to be refused");
    size_t now = __sanitizer_get_current_allocated_bytes();
    CHECK(now <= before, "leaks when it refuses");
    return;
  }
  CHECK(l, "refuses a valid specification");
  ++built;
  CHECK(omTensorListGetSize(l) == n, "number of inputs");
  for (int i = 0; i < n; ++i) {
    In &x = in[(size_t)i];
    OMTensor *t = omTensorListGetOmtByIndex(l, i);
    CHECK(t && omTensorGetDataType(t) == x.t->t, "type of an input");
    CHECK(omTensorGetRank(t) == (int64_t)x.dims.size(), "rank of an input");
    int64_t st = 1;
    for (int j = (int)x.dims.size() - 1; j >= 0; --j) {
      CHECK(omTensorGetShape(t)[j] == x.dims[(size_t)j], "shape of an input");
      CHECK(omTensorGetStrides(t)[j] == st, "strides of an input");
      st *= x.dims[(size_t)j];
    }
    CHECK(omTensorGetOwning(t), "the data is owned by the input");
    const char *p = (const char *)omTensorGetDataPtr(t);
    int64_t ne = 1;
    for (int64_t e : x.dims) ne *= e;
    std::set<LD> seen;
    std::vector<LD> v((size_t)ne);
    for (int64_t e = 0; e < ne; ++e) {
      LD y;
      const char *q = p + e * x.t->size;
      switch (x.t->t) {
      case ONNX_TYPE_FLOAT: y = *(const float *)q; break;
      case ONNX_TYPE_DOUBLE: y = *(const double *)q; break;
      case ONNX_TYPE_FLOAT16: y = om_f16_to_f32(*(const uint16_t *)q); break;
      case ONNX_TYPE_INT8: y = *(const int8_t *)q; break;
      case ONNX_TYPE_INT16: y = *(const int16_t *)q; break;
      case ONNX_TYPE_INT32: y = *(const int32_t *)q; break;
      case ONNX_TYPE_INT64: y = *(const int64_t *)q; break;
      case ONNX_TYPE_UINT8: case ONNX_TYPE_BOOL: y = *(const uint8_t *)q; break;
      case ONNX_TYPE_UINT16: y = *(const uint16_t *)q; break;
      case ONNX_TYPE_UINT32: y = *(const uint32_t *)q; break;
      case ONNX_TYPE_UINT64: y = *(const uint64_t *)q; break;
      default: { const char *s = *(const char *const *)q; char *end; y = strtoll(s, &end, 10); CHECK(end != s && !*end, "a string element is a decimal number"); }
      }
      v[(size_t)e] = y; seen.insert(y);
    }
    if (x.hsoz) {
      int64_t w = x.dims.back();
      std::set<int64_t> counts;
      for (int64_t r = 0; w && r < ne / w; ++r) {
        int64_t c = 0;
        while (c < w && v[(size_t)(r * w + c)] == 1) ++c;
        counts.insert(c);
        for (int64_t e = c; e < w; ++e) CHECK(v[(size_t)(r * w + e)] == 0, "zeros follow the leading ones");
        if (x.soz >= 0) CHECK(c == std::min(x.soz, w), "number of leading ones");
        else CHECK(c >= 1 && c <= std::max<int64_t>(1, w - 1), "number of leading ones");
      }
      if (x.soz < 0 && w > 1 && ne / w >= 60 * w) CHECK((int64_t)counts.size() == w - 1, "every number of leading ones is possible");
      continue;
    }
    LD lo = x.mn, hi = x.mx;
    if (x.t->kind == 3) { lo = x.mn > 0.5; hi = x.mx > 0.5; }
    if (x.t->t == ONNX_TYPE_FLOAT) { lo = (float)x.mn; hi = (float)x.mx; }
    if (x.t->kind == 5) { lo = om_f16_to_f32(om_f32_to_f16((float)x.mn)); hi = om_f16_to_f32(om_f32_to_f16((float)x.mx)); }
    for (LD y : v) CHECK(y >= lo && y <= hi, "a value outside the bounds");
    bool integral = x.t->kind != 2 && x.t->kind != 5;
    if (integral && hi - lo < 64 && ne >= 60 * (hi - lo + 1)) CHECK((LD)seen.size() == hi - lo + 1, "every value within the bounds is possible");
    if (integral && hi - lo >= 64 && ne >= 200) CHECK(*seen.begin() - lo <= (hi - lo) * 0.3 && hi - *seen.rbegin() <= (hi - lo) * 0.3, "the values spread over the bounds");
    if (!integral && hi > lo && ne >= 200) CHECK(*seen.begin() <= lo + (hi - lo) * 0.3 && *seen.rbegin() >= hi - (hi - lo) * 0.3, "the values spread over the bounds");
  }
  omTensorListDestroy(l);
  CHECK(__sanitizer_get_current_allocated_bytes() <= before, "leaks");
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 1000);
  if (getenv("MON_STATS")) atexit([] { printf("BUILT %ld\n", built); });
  stderr = fopen("/dev/null", "w");
  omTensorListDestroy(omTensorListCreateFromInputSignature("[{\"type\":\"i8\",\"dims\":[]}]", "0:1", "0:val1", "int8:1", "int8:1"));
  omTensorListCreateFromInputSignature("[{\"type\":\"i8\",\"dims\":[]}]", "0:z", "", "", "");
  for (long k = 0; k < n; ++k) once();
  return mon_done();
}
