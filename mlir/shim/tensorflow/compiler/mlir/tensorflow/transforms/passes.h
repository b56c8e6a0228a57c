#ifndef VERIF_TF_PASSES_H_
#define VERIF_TF_PASSES_H_
#include "llvm/ADT/ArrayRef.h"
#include "mlir/Pass/PassManager.h"
#include "tensorflow/compiler/mlir/lite/transforms/passes.h"
namespace mlir {
namespace TF {
struct StandardPipelineOptions {
  bool enable_inliner = false, form_clusters = false;
};
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& options);
TFL::FuncPass CreateDeviceIndexSelectorPass();
TFL::ModulePass CreateTFShapeInferencePass(llvm::ArrayRef<llvm::ArrayRef<int64_t>> input_shapes = {});
TFL::ModulePass CreateTFFunctionalControlFlowToRegions();
TFL::ModulePass CreateTFRegionControlFlowToFunctional();
struct LayoutOptimizationPipelineOptions {
  std::string force_data_format;
  bool skip_fold_transpose_in_ops = false;
};
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& options);
TFL::FuncPass CreateInitTextFileToImportPass(std::string saved_model_dir);
}  // namespace TF
namespace TFDevice {
TFL::FuncPass CreateDecomposeResourceOpsPass();
}
}  // namespace mlir
#endif
