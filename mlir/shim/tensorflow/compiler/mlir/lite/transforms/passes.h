// TensorFlow's passes of the conversion; mlir/src/pipe.cc has stand-ins.
#ifndef VERIF_TFL_PASSES_H_
#define VERIF_TFL_PASSES_H_
#include <memory>
#include <string>
#include <vector>
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/Pass.h"
#include "tensorflow/compiler/mlir/lite/quantization/quantization_config.h"
namespace mlir {
namespace TFL {
using FuncPass = std::unique_ptr<OperationPass<func::FuncOp>>;
using ModulePass = std::unique_ptr<OperationPass<ModuleOp>>;
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& specs);
FuncPass CreateDefaultQuantParamsPass(double min, double max, bool is_signed);
FuncPass CreateQuantizePass();
FuncPass CreatePostQuantizePass(bool emit_quant_adaptor_ops = true);
FuncPass CreatePostQuantizeRemoveQDQPass();
FuncPass CreateOptimizeOpOrderPass();
FuncPass CreateOptimizePass(bool enable_canonicalization = true, bool disable_fuse_mul_and_fc = false);
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& ops = {});
ModulePass CreatePrepareCompositeFunctionsPass();
ModulePass CreateLowerStaticTensorListPass(bool allow_tensorlist_pass_through = false, bool default_to_single_batch = false, bool enable_dynamic_update_slice = false);
ModulePass CreateLegalizeTFWhilePass();
FuncPass CreateReduceWhileOperandsPass();
FuncPass CreatePrepareTFPass(bool unfold_batch_matmul, bool allow_bf16_and_f16_type_legalization, bool use_fake_quant_num_bits = false);
FuncPass CreateLegalizeTFPass(bool run_tfl_runtime_verification, bool preserve_assert_op = false);
ModulePass CreateAnalyzeVariablesPass();
ModulePass CreateLegalizeVariablesPass();
ModulePass CreateLegalizeHashTablesPass();
ModulePass CreateOptimizeFunctionalOpsPass();
FuncPass CreateSplitMergedOperandsPass();
ModulePass CreateInsertCallOnceOpFromSessionInitializerPass();
ModulePass CreateUnfoldLargeSplatConstantPass();
ModulePass CreateWhileOutlinePass();
FuncPass CreateRuntimeVerifyPass();
}  // namespace TFL
}  // namespace mlir
#endif
