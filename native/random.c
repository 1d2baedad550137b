/* Monitor of the random generators (C12): rand/srand are wrapped. */
#include "mon.h"
#include <math.h>
#include "OnnxMlirRuntime.h"
FILE *getInstrumentFile(bool b) { return stdout; }
OMTensor *run_uniform_random(OMTensor *, float, float, float);
OMTensor *run_uniform_random_f32(OMTensor *, float, float, float);
OMTensor *run_uniform_random_f64(OMTensor *, double, double, double);
void get_random_normal_value_f64(double *, long long, double, double, double);
void get_random_normal_value_f32(float *, long long, float, float, float);
static uint32_t g_seed; static long g_draws; static int g_mode; static uint64_t g_table;
int __wrap_rand(void) {
  uint64_t z = g_seed * 0x9E3779B97F4A7C15ull + (uint64_t)g_draws++ * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 29)) * 0x94D049BB133111EBull; z ^= z >> 32;
  if (g_mode == 1 && z % 5 == 0) return RAND_MAX;
  if (g_mode == 1 && z % 5 == 1) return 0;
  return (int)(z >> 33);
}
void __wrap_srand(unsigned s) { g_seed = s; g_draws = 0; }
static void pollute(void) { g_seed = (uint32_t)rnd(); g_draws = rndr(0, 1000); }
#define CAN 0x5b
static void guards(const unsigned char *b, size_t n, const char *w) {
  for (int i = 0; i < 64; ++i) { CHECK(b[i] == CAN, "byte before the %s written", w); CHECK(b[64 + n + i] == CAN, "byte after the %s written", w); }
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long N = mon_arg(argc, argv, "n", 2000);
  for (long c = 0; c < N; ++c) {
    int64_t sh[4], rank = rndr(0, 4), n = 1;
    static const int64_t pick[] = {0, 1, 1, 2, 3, 5, 7, 8, 13};
    for (int i = 0; i < rank; ++i) n *= sh[i] = pick[rnd() % 9];
    int kind = (int)rndr(0, 4), es = (kind == 0 || kind == 3) ? 4 : (kind == 1 || kind == 4) ? 8 : (int)rndr(0, 1) * 4 + 4;
    static const double lows[] = {0, -1, 5, -1e6, 0.25, -3.5, 1e-3, -1e30};
    double low = lows[rnd() % 8], w = (double[]){0, 1, 1e-3, 7, 1e6, 2.5}[rnd() % 6];
    float fl = (float)low, fh = (float)(low + w); if (fh < fl) fh = fl;
    double high = low + w; float seed = (float)rndr(0, 1 << 20); if (rnd() % 8 == 0) seed = 0; if (rnd() % 8 == 0) seed += 0.5f;
    g_mode = (int)rndr(0, 1);
    CUR("%s shape=%s %s=%g %s=%g seed=%g", (const char *[]){"run_uniform_random_f32", "run_uniform_random_f64", "run_uniform_random", "get_random_normal_value_f32", "get_random_normal_value_f64"}[kind], vec(sh, rank), kind < 3 ? "low" : "mean", low, kind < 3 ? "high" : "scale", kind < 3 ? high : w, seed);
    unsigned char *b1 = malloc(n * es + 128), *b2 = malloc(n * es + 128);
    unsigned char *bs[2] = {b1, b2};
    for (int rep = 0; rep < 2; ++rep) {
      unsigned char *b = bs[rep];
      memset(b, CAN, n * es + 128);
      pollute();
      void *d = b + 64;
      if (kind < 3) {
        OM_DATA_TYPE dt = es == 4 ? ONNX_TYPE_FLOAT : ONNX_TYPE_DOUBLE;
        OMTensor *t = omTensorCreate(d, sh, rank, dt), *r;
        if (kind == 0) r = run_uniform_random_f32(t, fl, fh, seed);
        else if (kind == 1) r = run_uniform_random_f64(t, low, high, seed);
        else r = run_uniform_random(t, fl, fh, seed);
        CHECK(r == t, "did not return the output tensor");
        if (rep == 0 && kind == 2) { omTensorSetDataType(t, ONNX_TYPE_INT32); CHECK(run_uniform_random(t, fl, fh, seed) == NULL, "integer output tensor accepted"); omTensorSetDataType(t, dt); }
        double lo = kind == 1 ? low : fl, hi = kind == 1 ? high : fh;
        for (int64_t i = 0; i < n; ++i) {
          double x = es == 4 ? ((float *)d)[i] : ((double *)d)[i], tol = es == 4 ? 4e-7 * (fabs(lo) + fabs(hi)) : 1e-15 * (fabs(lo) + fabs(hi));
          CHECK(x >= lo && x <= hi + tol, "element %lld is %.9g, outside [%g,%g]", (long long)i, x, lo, hi);
          g_seed = (uint32_t)seed; g_draws = i; double u = __wrap_rand() / 2147483648.0, want = lo + u * (hi - lo), ctol = es == 4 ? 1e-6 * (fabs(lo) + fabs(hi)) : 1e-14 * (fabs(lo) + fabs(hi));
          CHECK(fabs(x - want) <= ctol, "element %lld is %.9g, draw %lld of the seed gives %.9g", (long long)i, x, (long long)i, want);
        }
        omTensorDestroy(t);
      } else {
        if (kind == 3) get_random_normal_value_f32((float *)d, n, (float)low, (float)w, seed); else get_random_normal_value_f64((double *)d, n, low, w, seed);
        double m = kind == 3 ? (float)low : low, s = kind == 3 ? (float)w : w;
        for (int64_t i = 0; i < n; ++i) {
          double x = es == 4 ? ((float *)d)[i] : ((double *)d)[i];
          g_seed = (uint32_t)seed; g_draws = 2 * i;
          double u1 = (__wrap_rand() + 1.0) / 2147483648.0, u2 = (__wrap_rand() + 1.0) / 2147483648.0, z = cos(2 * M_PI * u2) * sqrt(-2 * log(u1)), want = m + s * z;
          CHECK(fabs(x - want) <= 2e-4 * fabs(s) + (es == 4 ? 1e-6 : 1e-14) * fabs(m), "element %lld is %.9g, the draws of the seed give %.9g", (long long)i, x, want);
        }
      }
      guards(b, n * es, "output");
    }
    CHECK(!memcmp(b1 + 64, b2 + 64, n * es), "two runs with the same seed differ");
    free(b1); free(b2);
  }
  return mon_done();
}
