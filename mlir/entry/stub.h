// Stand-ins for what the native entry points of the converter take from TensorFlow: the
// importers, the exporter, statuses, sessions. They record how they are called and fail
// where the test says so (stub.cc).
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/types/span.h"
#include "llvm/ADT/PointerUnion.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassInstrumentation.h"
#include "mlir/Pass/PassManager.h"

namespace tensorflow {
using std::string;
using Status = absl::Status;
template <typename T> using StatusOr = absl::StatusOr<T>;
inline Status OkStatus() { return absl::OkStatus(); }
namespace errors {
template <typename... A> Status InvalidArgument(A... a) { return absl::InvalidArgumentError(absl::StrCat(a...)); }
template <typename... A> Status Internal(A... a) { return absl::InternalError(absl::StrCat(a...)); }
}  // namespace errors
class Session {
 public:
  virtual ~Session() {}
};
struct SavedModelBundle {
  Session* session = nullptr;
  std::shared_ptr<Session> own;
  Session* GetSession() const { return session; }
};
struct GraphDef { string bytes; };
struct GraphDebugInfo {};
template <typename P> Status LoadProtoFromBuffer(absl::string_view s, P* p);
Status LoadGraph(absl::string_view s, GraphDef* g);
template <> inline Status LoadProtoFromBuffer<GraphDef>(absl::string_view s, GraphDef* g) { return LoadGraph(s, g); }
struct ArrayInfo {
  string name, dtype;
  std::optional<std::vector<int>> shape;
};
using GraphImportInputs = std::vector<ArrayInfo>;
struct GraphImportConfig {
  GraphImportInputs inputs;
  std::vector<string> outputs, control_outputs;
  string graph_func_name;
  bool prune_unused_nodes = false, convert_legacy_fed_inputs = false, graph_as_function = false, upgrade_legacy = false,
       restrict_functionalization_to_compiled_nodes = false, enable_shape_inference = true, unconditionally_use_set_output_shapes = false;
};
Status ParseInputArrayInfo(const std::vector<string>& names, const std::vector<string>& dtypes, const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportInputs* inputs);
Status ParseOutputArrayInfo(const std::vector<string>& names, std::vector<string>* outputs);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef&, const GraphDebugInfo&, const GraphImportConfig&, mlir::MLIRContext*);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, const int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> opdefs,
                                                                  absl::Span<std::string> names, const GraphImportConfig& specs, bool enable_variable_lifting, mlir::MLIRContext*,
                                                                  std::unique_ptr<SavedModelBundle>* bundle);
class OpOrArgNameMapper {
 public:
  using OpOrVal = llvm::PointerUnion<mlir::Operation*, mlir::Value>;
  virtual ~OpOrArgNameMapper() {}
  std::string GetUniqueName(OpOrVal v) { std::string n = GetName(v); int k = used_[n]++; return k ? n + std::to_string(k) : n; }
 protected:
  virtual std::string GetName(OpOrVal) = 0;
 private:
  std::map<std::string, int> used_;
};
class OpOrArgLocNameMapper : public OpOrArgNameMapper {
 protected:
  std::string GetName(OpOrVal) override;
};
using OpOrVal = OpOrArgNameMapper::OpOrVal;
namespace converter { struct DebugOptions {}; }
void InitPassManager(mlir::PassManager&, const converter::DebugOptions&);
}  // namespace tensorflow

namespace toco {
class TocoFlags {
 public:
  void set_force_select_tf_ops(bool b) { select = b; }
  void set_allow_custom_ops(bool b) { custom = b; }
  void set_enable_select_tf_ops(bool b) { enable = b; }
  bool select = false, custom = false, enable = false;
};
}  // namespace toco
namespace tensorflow {
namespace internal { Status RegisterAllCustomOps(const toco::TocoFlags&); }
}  // namespace tensorflow
namespace tflite {
struct FlatbufferExportOptions {
  toco::TocoFlags toco_flags;
  std::unordered_set<std::string> saved_model_tags;
  std::map<std::string, std::string> metadata;
  tensorflow::OpOrArgNameMapper* op_or_arg_name_mapper = nullptr;
};
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp, const FlatbufferExportOptions&, std::string* result, bool serialize_stablehlo_ops = false);
namespace metrics {
struct ConverterErrorData { enum ErrorCode { UNKNOWN, ERROR_UNSUPPORTED_CONTROL_FLOW_V1 }; };
}
}  // namespace tflite

namespace mlir {
// As TensorFlow's: collects errors; the outermost one ends their way here.
class StatusScopedDiagnosticHandler {
 public:
  StatusScopedDiagnosticHandler(MLIRContext* c, bool propagate = false, bool filter_stack = false);
  ~StatusScopedDiagnosticHandler();
  absl::Status ConsumeStatus();
  absl::Status Combine(absl::Status);
  bool ok() const { return text_.empty(); }
 private:
  MLIRContext* c_;
  DiagnosticEngine::HandlerID id_;
  std::string text_;
};
namespace TFL {
inline InFlightDiagnostic AttachErrorCode(InFlightDiagnostic&& d, tflite::metrics::ConverterErrorData::ErrorCode) { return std::move(d); }
class ErrorCollectorInstrumentation : public PassInstrumentation {
 public:
  explicit ErrorCollectorInstrumentation(MLIRContext*) {}
};
}  // namespace TFL
namespace odml {
inline std::vector<std::string> GetAcceptedTFLiteDialects() { return {}; }
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string>);
}  // namespace odml
namespace tf_saved_model { LogicalResult FreezeVariables(ModuleOp, tensorflow::Session*); }
namespace tf_executor {
#define VERIF_OP(N, S) \
  class N : public Op<N, OpTrait::VariadicOperands, OpTrait::VariadicResults, OpTrait::ZeroSuccessors, OpTrait::VariadicRegions> { \
   public: using Op::Op; static StringRef getOperationName() { return "tf_executor." S; } static ArrayRef<StringRef> getAttributeNames() { return {}; } };
VERIF_OP(SwitchOp, "Switch") VERIF_OP(SwitchNOp, "_SwitchN") VERIF_OP(MergeOp, "Merge") VERIF_OP(EnterOp, "Enter") VERIF_OP(ExitOp, "Exit")
VERIF_OP(NextIterationSinkOp, "NextIteration.Sink") VERIF_OP(NextIterationSourceOp, "NextIteration.Source")
VERIF_OP(GraphOp, "graph") VERIF_OP(IslandOp, "island") VERIF_OP(YieldOp, "yield") VERIF_OP(FetchOp, "fetch") VERIF_OP(LoopCondOp, "LoopCond") VERIF_OP(ControlTriggerOp, "ControlTrigger")
#undef VERIF_OP
}  // namespace tf_executor
}  // namespace mlir
