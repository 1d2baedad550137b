/* Monitor of C10: every small float format against a table of the values it denotes. */
#include "mon.h"
#include "src/Support/SmallFP.hpp"
#include "src/Accelerators/NNPA/Support/Stickify/Convert.hpp"
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>
using namespace onnx_mlir;
extern "C" {
float __extendhfsf2(uint16_t a); float __gnu_h2f_ieee(uint16_t a); uint16_t __gnu_f2h_ieee(float a); uint16_t __truncsfhf2(float a); uint16_t __truncdfhf2(double a);
FILE *getInstrumentFile(bool b) { return stdout; }
}
static float bf(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t fb(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
struct Fmt {
  const char *name; int bits, ebits, mbits, bias; int kind; /* 0 IEEE, 1 FN, 2 FNUZ, 3 DLFloat */
  std::vector<double> mag; /* magnitude of each positive finite pattern */
  double limit;            /* from here on a magnitude overflows */
  void init() {
    int n = 1 << (bits - 1);
    for (int p = 0; p < n; ++p) {
      int e = p >> mbits, m = p & ((1 << mbits) - 1);
      if (kind == 0 && e == (1 << ebits) - 1) break;
      if ((kind == 1 || kind == 3) && p == n - 1) break;
      double v;
      if (kind == 3) v = p == 0 ? 0 : ldexp(1 + (double)m / (1 << mbits), e - bias);
      else v = e == 0 ? ldexp((double)m, 1 - bias - mbits) : ldexp((double)m + (1 << mbits), e - bias - mbits);
      mag.push_back(v);
    }
    int last = (int)mag.size() - 1;
    limit = mag[last] + (mag[last] - mag[last - 1]) / 2;
  }
  bool isnan(uint32_t p) const {
    uint32_t m = p & ((1u << (bits - 1)) - 1);
    if (kind == 2) return p == 1u << (bits - 1);
    if (kind == 0) return m > (uint32_t)mag.size();
    return m == mag.size();
  }
  bool isinf(uint32_t p) const { return kind == 0 && (p & ((1u << (bits - 1)) - 1)) == mag.size(); }
  double value(uint32_t p) const { /* finite */
    double v = mag[p & ((1u << (bits - 1)) - 1)];
    return p >> (bits - 1) ? -v : v;
  }
  /* expected pattern; -1: any NaN */
  int64_t narrow(double f) const {
    uint32_t s = std::signbit(f) ? 1u << (bits - 1) : 0;
    if (f != f) return -1;
    double x = fabs(f);
    int last = (int)mag.size() - 1;
    if (kind == 3) { /* clipped to the range, ties away, below half of the least to zero */
      if (x > mag[last]) x = mag[last];
    } else if (x > limit || (x == limit && (last & 1))) return kind == 0 ? (int64_t)(s | (uint32_t)mag.size()) : -1;
    else if (x > mag[last]) return s | last;
    int hi = (int)(std::lower_bound(mag.begin(), mag.end(), x) - mag.begin());
    int r = hi;
    if (kind == 3 && hi <= 1) { double least = ldexp(1.0, -bias); /* the pattern below 1: 2^-bias, which is written as zero */
      double top = mag[1]; if (x < least) r = x >= least - (top - least) / 4 ? 0 : 0; else r = x - least >= (top - least) / 2 ? 1 : 0; }
    else if (mag[hi] != x) {
      double d0 = x - mag[hi - 1], d1 = mag[hi] - x;
      r = d0 < d1 ? hi - 1 : d1 < d0 ? hi : kind == 3 ? hi : (hi & 1) ? hi - 1 : hi;
    }
    if (kind == 2 && r == 0) return 0;
    return s | (uint32_t)r;
  }
};
template <typename FP> static float to(uint32_t p) { return FP::bitcastFromUInt(p).toFloat(); }
template <typename FP> static uint32_t from(float f) { return FP::fromFloat(f).bitcastToUInt(); }
template <typename FP> static bool nan_(uint32_t p) { return FP::bitcastFromUInt(p).isNaN(); }
template <typename FP> static bool eq(uint32_t p, uint32_t q) { return FP::bitcastFromUInt(p) == FP::bitcastFromUInt(q); }
static float dto(uint32_t p) { uint16_t u = (uint16_t)p; float f; dlf16_to_fp32(&u, &f, 1); return f; }
static uint32_t dfrom(float f) { uint16_t u; fp32_to_dlf16(&f, &u, 1); return u; }
struct Conv { Fmt f; float (*to)(uint32_t); uint32_t (*from)(float); bool (*nan)(uint32_t); bool (*eq)(uint32_t, uint32_t); };
static Conv C[] = {
  {{"float16", 16, 5, 10, 15, 0}, to<float_16>, from<float_16>, nan_<float_16>, eq<float_16>},
  {{"bfloat16", 16, 8, 7, 127, 0}, to<bfloat_16>, from<bfloat_16>, nan_<bfloat_16>, eq<bfloat_16>},
  {{"float8e4m3fn", 8, 4, 3, 7, 1}, to<float_8e4m3fn>, from<float_8e4m3fn>, nan_<float_8e4m3fn>, eq<float_8e4m3fn>},
  {{"float8e4m3fnuz", 8, 4, 3, 8, 2}, to<float_8e4m3fnuz>, from<float_8e4m3fnuz>, nan_<float_8e4m3fnuz>, eq<float_8e4m3fnuz>},
  {{"float8e5m2", 8, 5, 2, 15, 0}, to<float_8e5m2>, from<float_8e5m2>, nan_<float_8e5m2>, eq<float_8e5m2>},
  {{"float8e5m2fnuz", 8, 5, 2, 16, 2}, to<float_8e5m2fnuz>, from<float_8e5m2fnuz>, nan_<float_8e5m2fnuz>, eq<float_8e5m2fnuz>},
  {{"dlfloat16", 16, 6, 9, 31, 3}, dto, dfrom, 0, 0},
};
static void cur(const char *name, const char *what, double x) { snprintf(mon_cur, sizeof mon_cur, "%s %s %a (%.17g)", what, name, x, x); ++mon_cases; }
static void narrow1(Conv &c, float f) {
  uint32_t r = c.from(f); int64_t w = c.f.narrow(f);
  ++mon_cases;
  if (c.f.kind == 3 && f != f) { return; }
  bool ok = w < 0 ? c.f.isnan(r) : (int64_t)r == w;
  if (!ok) { cur(c.f.name, "narrowing to", f); FAIL("pattern 0x%x, expected %s0x%llx", r, w < 0 ? "NaN, not " : "", (unsigned long long)(w < 0 ? 0 : w)); }
}
static void widen(Conv &c) {
  uint32_t n = 1u << c.f.bits;
  for (uint32_t p = 0; p < n; ++p) {
    ++mon_cases;
    float g = c.to(p);
    snprintf(mon_cur, sizeof mon_cur, "widening %s pattern 0x%x", c.f.name, p);
    if (c.nan) CHECK(c.nan(p) == c.f.isnan(p), "isNaN() is %d", (int)c.nan(p));
    if (c.f.isnan(p)) { CHECK(g != g, "got %a, expected NaN", g); continue; }
    if (c.f.isinf(p)) { CHECK(std::isinf(g) && std::signbit(g) == (p >> (c.f.bits - 1)), "got %a, expected infinity", g); }
    else { double v = c.f.value(p); CHECK(g == v && std::signbit(g) == std::signbit(v), "got %a, expected %a", g, v); }
    if (c.f.kind != 3) CHECK(c.from(g) == p, "narrowing it again gives 0x%x", c.from(g));
  }
}
static void around(Conv &c, double v) {
  float f = (float)v; uint32_t b = fb(f);
  for (int d = -2; d <= 2; ++d) { narrow1(c, bf(b + d)); narrow1(c, bf((b + d) ^ 0x80000000u)); }
}
static void d2h(Conv &c, double x) {
  uint16_t r = __truncdfhf2(x); int64_t w = c.f.narrow(x);
  ++mon_cases;
  if (!(w < 0 ? c.f.isnan(r) : (int64_t)r == w)) { cur("float16", "narrowing double to", x); FAIL("pattern 0x%x, expected 0x%llx", r, (unsigned long long)w); }
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 100000) / mon_parts; long step = mon_arg(argc, argv, "step", 0);
  for (auto &c : C) c.f.init();
  CUR("small float formats, part %d of %d", mon_part, mon_parts);
  for (int k = 0; k < 7; ++k) {
    Conv &c = C[k];
    if (mon_part == k) {
      widen(c);
      for (size_t i = 0; i + 1 < c.f.mag.size(); ++i) { around(c, c.f.mag[i]); around(c, (c.f.mag[i] + c.f.mag[i + 1]) / 2); }
      around(c, c.f.mag.back()); around(c, c.f.limit); around(c, INFINITY); around(c, 0); around(c, NAN); around(c, 3.4028235e38); narrow1(c, bf(1)); narrow1(c, bf(0x007fffff)); narrow1(c, bf(0x7f800001)); narrow1(c, bf(0xff800001)); narrow1(c, bf(0x7fffffff)); narrow1(c, bf(0xffffffff));
      if (k == 0) for (size_t i = 0; i + 1 < c.f.mag.size(); ++i) for (int s = 0; s < 2; ++s) { double m = (c.f.mag[i] + c.f.mag[i + 1]) / 2, q = s ? -m : m; d2h(c, q); d2h(c, nextafter(q, 1e300)); d2h(c, nextafter(q, -1e300)); d2h(c, q * (1 + 1e-10)); d2h(c, q * (1 - 1e-10)); }
      if (k == 0) { double sp[] = {0.0, -0.0, 1e-320, -1e-320, 1e300, -1e300, INFINITY, -INFINITY, NAN, 65519.999999999, 65520, 65504}; for (double d : sp) d2h(c, d); }
      if (c.eq) for (int i = 0; i < 4000; ++i) { uint32_t p = rnd() & ((1u << c.f.bits) - 1), q = rnd() % 4 ? (rnd() & ((1u << c.f.bits) - 1)) : p ^ (rnd() % 2 ? 1u << (c.f.bits - 1) : 0);
        bool w = !c.f.isnan(p) && !c.f.isnan(q) && (c.f.isinf(p) || c.f.isinf(q) ? p == q : c.f.value(p) == c.f.value(q));
        ++mon_cases; if (c.eq(p, q) != w) { snprintf(mon_cur, sizeof mon_cur, "%s 0x%x == 0x%x", c.f.name, p, q); FAIL("got %d", (int)!w); } }
    }
    for (long i = 0; i < n; ++i) { uint32_t b = (uint32_t)rnd(); if (rnd() % 2) { b = (b & 0x807fffffu) | (uint32_t)(127 - 32 + rnd() % 64) << 23; if (rnd() % 4 == 0) b &= ~((1u << (rnd() % 23)) - 1); } narrow1(c, bf(b)); }
    if (step) { uint64_t lo = ((uint64_t)mon_part << 32) / mon_parts, hi = ((uint64_t)(mon_part + 1) << 32) / mon_parts; for (uint64_t b = lo; b < hi; b += step) narrow1(c, bf((uint32_t)b)); }
  }
  if (mon_part == 7 || mon_parts == 1) for (uint32_t p = 0; p < 65536; ++p) { uint16_t u = (uint16_t)p; float f = C[0].to(p); snprintf(mon_cur, sizeof mon_cur, "runtime half entry points on 0x%x", p);
    CHECK((f != f && __extendhfsf2(u) != __extendhfsf2(u)) || (fb(f) == fb(__extendhfsf2(u)) && fb(f) == fb(__gnu_h2f_ieee(u))), "widening differs");
    if (f == f) CHECK(__gnu_f2h_ieee(f) == u && __truncsfhf2(f) == u && __truncdfhf2(f) == u, "narrowing differs"); ++mon_cases; }
  /* arrays */
  for (int t = 0; t < 200; ++t) {
    int m = (int)rndr(0, 70); std::vector<float> in(m), back(m + 1, 7.0f); std::vector<uint16_t> out(m + 1, 0x1234);
    for (auto &x : in) x = bf((uint32_t)rnd());
    snprintf(mon_cur, sizeof mon_cur, "dlfloat16 array of %d", m); ++mon_cases;
    fp32_to_dlf16(in.data(), out.data(), m); CHECK(out[m] == 0x1234, "wrote past the end");
    for (int i = 0; i < m; ++i) CHECK(out[i] == dfrom(in[i]), "element %d", i);
    dlf16_to_fp32(out.data(), back.data(), m); CHECK(back[m] == 7.0f, "wrote past the end");
    for (int i = 0; i < m; ++i) CHECK(fb(back[i]) == fb(dto(out[i])) || back[i] != back[i], "element %d", i);
  }
  return mon_done();
}
