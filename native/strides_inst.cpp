// Instantiates the two-stride walk of the repository's header (its other users are compiled elsewhere).
#include "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"
using namespace onnx_mlir;
StridesIterator<2> &verif_next2(StridesIterator<2> &it) { return ++it; }
