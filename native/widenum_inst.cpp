// Emits the templates of BType.hpp / WideNum.hpp for every element type; the functions under contract are the
// repository's own, instantiated here.
#include "src/Support/SmallFP.cpp"
#include "src/Dialect/ONNX/ElementsAttr/BType.cpp"
#include "src/Dialect/ONNX/ElementsAttr/WideNum.cpp"
using namespace onnx_mlir;
#define TYPES(X) X(BOOL) X(INT8) X(UINT8) X(INT16) X(UINT16) X(INT32) X(UINT32) X(INT64) X(UINT64) X(DOUBLE) X(FLOAT) X(FLOAT16) X(BFLOAT16) X(FLOAT8E4M3FN) X(FLOAT8E4M3FNUZ) X(FLOAT8E5M2) X(FLOAT8E5M2FNUZ)
static uint64_t bits(WideNum n) { return n.u64; }
static WideNum wide(uint64_t u) { WideNum n; n.u64 = u; return n; }
template <typename T> static uint64_t raw(T x) { uint64_t u = 0; __builtin_memcpy(&u, &x, sizeof x); return u; }
template <typename T> static T of(uint64_t u) { T x; __builtin_memcpy(&x, &u, sizeof x); return x; }
template <> bool of<bool>(uint64_t u) { return u & 1; }
extern "C" {
#define X(T) uint64_t vf_widen_##T(uint64_t x) { return bits(WideNum::widen<BType::T>(of<CppType<BType::T>>(x))); } \
  uint64_t vf_narrow_##T(uint64_t w) { return raw(wide(w).narrow<BType::T>()); } \
  uint64_t vf_trip_##T(uint64_t x) { return raw(WideNum::widen<BType::T>(of<CppType<BType::T>>(x)).narrow<BType::T>()); } \
  int vf_tag_##T(void) { return (int)toBType<CppType<BType::T>>; }
TYPES(X)
#undef X
#define Y(T) T vf_to_##T(int tag, uint64_t w) { return wide(w).to<T>((BType)tag); } \
  uint64_t vf_from_##T(int tag, T x) { return bits(WideNum::from<T>((BType)tag, x)); } \
  T vf_unpack_##T(uint64_t w) { return onnx_mlir::detail::unpack<T>(wide(w)); } \
  uint64_t vf_pack_##T(T x) { return bits(onnx_mlir::detail::pack<T>(x)); }
Y(double) Y(int64_t) Y(uint64_t) Y(bool)
#undef Y
bool vf_is_float(int t) { return isFloatBType((BType)t); }
bool vf_is_int(int t) { return isIntBType((BType)t); }
bool vf_is_iof(int t) { return isIntOrFloatBType((BType)t); }
bool vf_is_signed(int t) { return isSignedIntBType((BType)t); }
bool vf_is_unsigned(int t) { return isUnsignedIntBType((BType)t); }
unsigned vf_bits(int t) { return bitwidthOfBType((BType)t); }
unsigned vf_bytes(int t) { return bytewidthOfBType((BType)t); }
int vf_wide(int t) { return (int)wideBTypeOfBType((BType)t); }
int vf_onnx(int t) { return onnxDataTypeOfBType((BType)t); }
int vf_btype(int t) { return (int)btypeOfOnnxDataType(t); }
}
