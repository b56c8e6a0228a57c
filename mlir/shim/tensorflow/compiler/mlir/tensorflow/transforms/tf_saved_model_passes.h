#ifndef VERIF_TF_SAVED_MODEL_PASSES_H_
#define VERIF_TF_SAVED_MODEL_PASSES_H_
#include "tensorflow/compiler/mlir/lite/transforms/passes.h"
namespace mlir {
namespace tf_saved_model {
TFL::ModulePass CreateOptimizeGlobalTensorsPass();
TFL::ModulePass CreateFreezeGlobalTensorsPass(bool allow_mutable_tensors = false);
TFL::ModulePass CreateFreezeAssetsPass(std::string saved_model_dir = "");
}  // namespace tf_saved_model
}  // namespace mlir
#endif
