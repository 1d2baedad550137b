// Instantiates the inline members of SmallFP.hpp / PyFloat16.hpp / DLF16Conversion.hpp so that they are emitted;
// the functions under contract are the members themselves, taken from the headers of /repo.
#include "src/Support/SmallFP.cpp"
#include "src/Accelerators/NNPA/Support/Stickify/DLF16Conversion.hpp"
using namespace onnx_mlir;
extern "C" {
float vf_h_to(uint16_t u) { return float_16::bitcastFromUInt(u).toFloat(); }
uint16_t vf_h_from(float f) { return float_16::fromFloat(f).bitcastToUInt(); }
uint16_t vf_h_cast(double f) { return float_16(f).bitcastToUInt(); }
bool vf_h_nan(uint16_t u) { return float_16::bitcastFromUInt(u).isNaN(); }
bool vf_h_eq(uint16_t u, uint16_t v) { return float_16::bitcastFromUInt(u) == float_16::bitcastFromUInt(v); }
bool vf_h_ne(uint16_t u, uint16_t v) { return float_16::bitcastFromUInt(u) != float_16::bitcastFromUInt(v); }
float vf_b_to(uint16_t u) { return bfloat_16::bitcastFromUInt(u).toFloat(); }
uint16_t vf_b_from(float f) { return bfloat_16::fromFloat(f).bitcastToUInt(); }
bool vf_b_nan(uint16_t u) { return bfloat_16::bitcastFromUInt(u).isNaN(); }
bool vf_b_eq(uint16_t u, uint16_t v) { return bfloat_16::bitcastFromUInt(u) == bfloat_16::bitcastFromUInt(v); }
bool vf_b_ne(uint16_t u, uint16_t v) { return bfloat_16::bitcastFromUInt(u) != bfloat_16::bitcastFromUInt(v); }
int64_t vf_h_i64(uint16_t u) { return (int64_t)float_16::bitcastFromUInt(u); }
double vf_h_f64(uint16_t u) { return (double)float_16::bitcastFromUInt(u); }
double vf_b_f64(uint16_t u) { return (double)bfloat_16::bitcastFromUInt(u); }
uint16_t vf_d_from(float f) { return NNP1(f).uint(); }
float vf_d_to(int u) { return NNP1(u).convert(); }
}
