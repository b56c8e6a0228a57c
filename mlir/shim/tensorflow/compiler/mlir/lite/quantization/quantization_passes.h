#ifndef VERIF_QUANTIZATION_PASSES_H_
#define VERIF_QUANTIZATION_PASSES_H_
#include "tensorflow/compiler/mlir/lite/transforms/passes.h"
#endif
