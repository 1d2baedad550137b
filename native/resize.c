/* Monitor of Resize_Scales / Resize_Size (C11): the ONNX definition in double precision. */
#define MON_ALLOC 1
#include "mon.h"
#include "onnx-mlir/Runtime/OMTensor.h"
#include <math.h>
FILE *getInstrumentFile(bool b) { return stdout; }
extern void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *);
extern void Resize_Size(OMTensor *, OMTensor *, OMTensor *, char *, char *);
static int R_, mode; static int64_t S[6], O[6]; static double SC[6]; static float *D; static int near_tie;
static double keys(double t) { t = fabs(t); double a = -0.75; return t <= 1 ? (a + 2) * t * t * t - (a + 3) * t * t + 1 : t < 2 ? a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a : 0; }
static int64_t cl(int64_t i, int64_t n) { return i < 0 ? 0 : i >= n ? n - 1 : i; }
/* definition: per dimension the weighted sum over the grid points around the position; weights by distance */
static double ref(int l, int64_t off, const int64_t *c) {
  if (l == R_) return D[off];
  int64_t inner = 1; for (int i = l + 1; i < R_; ++i) inner *= S[i];
  double u = ((double)c[l] + 0.5) / SC[l] - 0.5, f = floor(u);
  double s = 0;
  if (mode == 0) {
    if (fabs(u - f - 0.5) < 1e-3 && u - f != 0.5) near_tie = 1;
    return ref(l + 1, off + cl((int64_t)(u - f <= 0.5 ? f : f + 1), S[l]) * inner, c);
  }
  for (int k = -1; k <= 2; ++k) {
    double t = fabs(u - (f + k)), w = mode == 1 ? (t < 1 ? 1 - t : 0) : keys(t);
    if (w != 0) s += w * ref(l + 1, off + cl((int64_t)f + k, S[l]) * inner, c);
  }
  return s;
}
static const char *names[] = {"nearest", "linear", "cubic"};
static void one(int big) {
  mon_reset();
  int sizes = (int)(rnd() & 1); R_ = big ? 1 : (int)(rnd() % 8 ? rndr(1, 3) : rndr(4, 6)); mode = (int)(rnd() % 3);
  float sc[6]; int64_t tot = 1, in = 1; double maxd = 1;
  for (int i = 0; i < R_; ++i) {
    S[i] = big ? rndr(200, 3000) : rndr(1, R_ == 1 ? 40 : R_ == 2 ? 7 : R_ == 3 ? 4 : 3);
    if (sizes) { O[i] = big ? rndr(1, 300) : rndr(1, R_ == 1 ? 90 : R_ == 2 ? 10 : R_ == 3 ? 6 : 3); sc[i] = (float)O[i] / (float)S[i]; }
    else {
      static const float nice[] = {0.25f, 0.5f, 0.75f, 1, 1.25f, 1.5f, 2, 2.5f, 3, 4};
      for (int t = 0;; ++t) {
        sc[i] = t > 20 ? 1 : rnd() % 2 ? nice[rnd() % 10] : (float)(0.2 + (double)(rnd() % 3000) / 1000.0);
        if (R_ > 3 && sc[i] > 1.6f) sc[i] = 1.5f;
        double e = floor((double)sc[i] * (double)S[i]); O[i] = (int64_t)(sc[i] * (float)S[i]);
        if ((double)O[i] == e && O[i] >= 1) break;
      }
    }
    SC[i] = sc[i]; tot *= O[i]; in *= S[i]; if (S[i] > maxd) maxd = (double)S[i];
  }
  D = malloc((size_t)in * 4); float *keep = malloc((size_t)in * 4), *out = malloc((size_t)tot * 4);
  int style = (int)(rnd() % 3);
  for (int64_t i = 0; i < in; ++i) D[i] = keep[i] = style == 0 ? (float)rndr(-100, 100) : style == 1 ? (float)i : (float)((double)rndr(-100000, 100000) / 1000.0);
  uint32_t pat = 0x7FC0DEAD; for (int64_t i = 0; i < tot; ++i) memcpy(&out[i], &pat, 4);
  OMTensor *t = omTensorCreate(D, S, R_, ONNX_TYPE_FLOAT), *o = omTensorCreate(out, O, R_, ONNX_TYPE_FLOAT), *p;
  int64_t n = R_, *Op = malloc((size_t)R_ * 8); float *Sp = malloc((size_t)R_ * 4);
  memcpy(Op, O, (size_t)R_ * 8); memcpy(Sp, sc, (size_t)R_ * 4);
  p = omTensorCreate(sizes ? (void *)Op : (void *)Sp, &n, 1, sizes ? ONNX_TYPE_INT64 : ONNX_TYPE_FLOAT);
  CUR("Resize_%s mode=%s shape=%s output=%s scale[0]=%.9g scale[last]=%.9g data=%s first=%g,%g", sizes ? "Size" : "Scales", names[mode], vec(S, R_), vec(O, R_), sc[0], sc[R_ - 1], style == 1 ? "0,1,2,..." : "random", D[0], in > 1 ? D[1] : 0);
  int live = mon_live();
  char m[24]; snprintf(m, sizeof m, "%s%s", names[mode], mode == 1 && rnd() % 4 == 0 ? "_onnx" : "");
  if (sizes) Resize_Size(o, t, p, m, "round_prefer_floor"); else Resize_Scales(o, t, p, m, "round_prefer_floor");
  CHECK(mon_live() == live, "%d blocks not released", mon_live() - live);
  CHECK(!memcmp(D, keep, (size_t)in * 4), "the input was changed");
  CHECK(!memcmp(Op, O, (size_t)R_ * 8) && !memcmp(Sp, sc, (size_t)R_ * 4), "the sizes or scales were changed");
  for (int k = 0; k < 3; ++k) { OMTensor *x = k == 0 ? t : k == 1 ? o : p; CHECK(omTensorGetRank(x) == (k < 2 ? R_ : 1), "a descriptor was changed"); for (int i = 0; i < (k < 2 ? R_ : 1); ++i) CHECK(omTensorGetShape(x)[i] == (k == 0 ? S[i] : k == 1 ? O[i] : R_), "a shape was changed"); }
  double R = style == 1 ? (double)in : 100, tol = R * (1e-5 * maxd + 1e-4);
  int64_t c[6] = {0};
  for (int64_t i = 0; i < tot; ++i) {
    int64_t r = i; for (int k = R_ - 1; k >= 0; --k) { c[k] = r % O[k]; r /= O[k]; }
    near_tie = 0; double e = ref(0, 0, c);
    uint32_t w; memcpy(&w, &out[i], 4);
    CHECK(w != pat, "output element %lld at %s was not written", (long long)i, vec(c, R_));
    if (!near_tie) CHECK(fabs((double)out[i] - e) <= tol, "output element %lld at %s is %.9g, the definition gives %.9g", (long long)i, vec(c, R_), out[i], e);
  }
  omTensorDestroy(t); omTensorDestroy(o); omTensorDestroy(p);
  free(D); free(keep); free(out); free(Op); free(Sp);
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 3000);
  for (long i = 0; i < n; ++i) one(i % 200 == 199);
  return mon_done();
}
