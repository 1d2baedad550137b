// Emits the scalar conversions of ElementsAttrBuilder.cpp (templates of an anonymous namespace); the functions
// under contract are the repository's own, instantiated here.
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"
using namespace onnx_mlir;
static uint64_t bits(WideNum n) { return n.u64; }
static WideNum wide(uint64_t u) { WideNum n; n.u64 = u; return n; }
extern "C" {
int64_t vf_round_i64(double x, int64_t lo, int64_t hi) { return convertIntFromDouble<false, int64_t>(x, lo, hi); }
int64_t vf_trunc_i64(double x, int64_t lo, int64_t hi) { return convertIntFromDouble<true, int64_t>(x, lo, hi); }
uint64_t vf_round_u64(double x, uint64_t lo, uint64_t hi) { return convertIntFromDouble<false, uint64_t>(x, lo, hi); }
uint64_t vf_trunc_u64(double x, uint64_t lo, uint64_t hi) { return convertIntFromDouble<true, uint64_t>(x, lo, hi); }
uint64_t vf_nonzero_f(uint64_t w) { return bits(isWideNonZero<double>(wide(w))); }
uint64_t vf_nonzero_s(uint64_t w) { return bits(isWideNonZero<int64_t>(wide(w))); }
uint64_t vf_nonzero_u(uint64_t w) { return bits(isWideNonZero<uint64_t>(wide(w))); }
uint64_t vf_cast_us(uint64_t w) { return bits(wideCast<uint64_t, int64_t>(wide(w))); }
uint64_t vf_cast_su(uint64_t w) { return bits(wideCast<int64_t, uint64_t>(wide(w))); }
double vf_dbl_f(uint64_t w) { return wideToDouble<double>(wide(w)); }
double vf_dbl_s(uint64_t w) { return wideToDouble<int64_t>(wide(w)); }
double vf_dbl_u(uint64_t w) { return wideToDouble<uint64_t>(wide(w)); }
}
