#include "entry/stub.h"

#include <map>
#include <mutex>
#include <set>
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "mlir/Parser/Parser.h"
#include "pybind11/pybind11.h"
#include "pybind11/stl.h"
#include "tensorflow/compiler/mlir/lite/transforms/passes.h"
#include "tensorflow/compiler/mlir/lite/utils/fake_quant_utils.h"
#include "tensorflow/compiler/mlir/tensorflow/transforms/passes.h"
#include "tensorflow/compiler/mlir/tensorflow/transforms/tf_saved_model_passes.h"

namespace {
std::mutex mu;
std::vector<std::vector<std::string>> events;
std::map<std::string, std::string> cfg;  // "fail": what fails; "module": the text imported; ...
std::string Get(const std::string& k) { auto i = cfg.find(k); return i == cfg.end() ? "" : i->second; }
void Log(std::vector<std::string> e) {  if (getenv("VERIF_TRACE")) fprintf(stderr, "%s\n", (e[0] + " " + (e.size() > 1 ? e[1] : "")).c_str()); std::lock_guard<std::mutex> l(mu); events.push_back(std::move(e)); }
bool Fails(const std::string& k) { return Get("fail") == k; }
absl::Status Result(const std::string& k) { return Fails(k) ? absl::UnknownError("injected: " + k) : absl::OkStatus(); }
std::string S(bool b) { return b ? "1" : "0"; }
std::string S(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string S(std::optional<double> d) { return d ? S(*d) : "none"; }
std::string S(const tensorflow::GraphImportConfig& s) {
  return "prune" + S(s.prune_unused_nodes) + " fed" + S(s.convert_legacy_fed_inputs) + " function" + S(s.graph_as_function) + " upgrade" + S(s.upgrade_legacy);
}
struct Executor : mlir::Dialect {
  explicit Executor(mlir::MLIRContext* c) : Dialect("tf_executor", c, mlir::TypeID::get<Executor>()) {
    using namespace mlir::tf_executor;
    addOperations<SwitchOp, SwitchNOp, MergeOp, EnterOp, ExitOp, NextIterationSinkOp, NextIterationSourceOp, GraphOp, IslandOp, YieldOp, FetchOp, LoopCondOp, ControlTriggerOp>();
  }
  static llvm::StringRef getDialectNamespace() { return "tf_executor"; }
};
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> Module(mlir::MLIRContext* c) {
  c->allowUnregisteredDialects();
  c->loadDialect<mlir::func::FuncDialect, Executor>();
  auto m = mlir::parseSourceString<mlir::ModuleOp>(Get("module"), c);
  if (!m) { fprintf(stderr, "the harness's module does not parse\n"); _exit(3); }
  return m;
}

// A pass that records that it ran, on what and with which parameters, and stamps the module.
template <typename Op> struct Step : public mlir::PassWrapper<Step<Op>, mlir::OperationPass<Op>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Step)
  std::vector<std::string> what;
  explicit Step(std::vector<std::string> w) : what(std::move(w)) {}
  Step(const Step& o) : mlir::PassWrapper<Step<Op>, mlir::OperationPass<Op>>(o), what(o.what) {}
  void runOnOperation() override {
    mlir::Operation* o = this->getOperation();
    auto e = what;
    e.insert(e.begin(), "pass");
    auto a = o->getAttrOfType<mlir::StringAttr>("sym_name");
    e.push_back(a ? a.str() : "module");
    Log(e);
    if (Fails("pass " + what[0])) {
      if (Get("silent").empty()) o->emitError("injected");
      this->signalPassFailure();
    }
  }
};
mlir::TFL::FuncPass F(std::vector<std::string> w) { return std::make_unique<Step<mlir::func::FuncOp>>(std::move(w)); }
mlir::TFL::ModulePass M(std::vector<std::string> w) { return std::make_unique<Step<mlir::ModuleOp>>(std::move(w)); }
int depth = 0;
}  // namespace

namespace tensorflow {
Status LoadGraph(absl::string_view s, GraphDef* g) { g->bytes = std::string(s); return Result("load"); }
Status ParseInputArrayInfo(const std::vector<string>& names, const std::vector<string>& dtypes, const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportInputs* inputs) {
  if (names.size() != dtypes.size() || names.size() != shapes.size()) return absl::InvalidArgumentError("lengths");
  for (size_t i = 0; i < names.size(); ++i) inputs->push_back({names[i], dtypes[i], shapes[i]});
  return Result("parse inputs");
}
Status ParseOutputArrayInfo(const std::vector<string>& names, std::vector<string>* outputs) { *outputs = names; return Result("parse outputs"); }
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo&, const GraphImportConfig& s, mlir::MLIRContext* c) {
  std::vector<std::string> e{"import graphdef", g.bytes, S(s)};
  for (auto& i : s.inputs) {
    e.push_back("in"); e.push_back(i.name); e.push_back(i.dtype);
    std::string d = i.shape ? "" : "none";
    if (i.shape) for (int x : *i.shape) d += std::to_string(x) + ",";
    e.push_back(d);
  }
  for (auto& o : s.outputs) { e.push_back("out"); e.push_back(o); }
  for (auto& o : s.control_outputs) { e.push_back("control"); e.push_back(o); }
  Log(e);
  if (Fails("import")) return absl::UnknownError("injected: import");
  return Module(c);
}
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, const int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> opdefs,
                                                                  absl::Span<std::string> names, const GraphImportConfig& s, bool lift, mlir::MLIRContext* c, std::unique_ptr<SavedModelBundle>* bundle) {
  std::vector<std::string> e{"import saved model", dir, std::to_string(version), S(s), S(lift), std::to_string(opdefs.size())};
  for (auto& t : std::set<std::string>(tags.begin(), tags.end())) { e.push_back("tag"); e.push_back(t); }
  for (auto& n : names) { e.push_back("name"); e.push_back(n); }
  Log(e);
  if (Fails("import")) return absl::UnknownError("injected: import");
  if (!bundle) return absl::InvalidArgumentError("no bundle");
  if (Get("bundle") == "dropped") {
    bundle->reset();
  } else {
    if (!*bundle) *bundle = std::make_unique<SavedModelBundle>();
    (*bundle)->own = std::make_shared<Session>();
    (*bundle)->session = (*bundle)->own.get();
  }
  return Module(c);
}
namespace internal {
Status RegisterAllCustomOps(const toco::TocoFlags&) { Log({"register"}); return Result("register"); }
}
std::string OpOrArgLocNameMapper::GetName(OpOrVal v) {
  mlir::Location l = v.is<mlir::Operation*>() ? v.get<mlir::Operation*>()->getLoc() : v.get<mlir::Value>().getLoc();
  if (auto n = l.dyn_cast<mlir::NameLoc>()) return n.getName().str();
  return "";
}
void InitPassManager(mlir::PassManager&, const converter::DebugOptions&) {}
}  // namespace tensorflow

bool tflite::MlirToFlatBufferTranslateFunction(mlir::ModuleOp m, const FlatbufferExportOptions& o, std::string* result, bool stablehlo) {
  std::vector<std::string> e{"export", S(o.toco_flags.custom), S(o.toco_flags.select), S(o.toco_flags.enable), S(stablehlo), S(o.op_or_arg_name_mapper != nullptr)};
  for (auto& t : std::set<std::string>(o.saved_model_tags.begin(), o.saved_model_tags.end())) { e.push_back("tag"); e.push_back(t); }
  if (o.op_or_arg_name_mapper)
    m.walk([&](mlir::Operation* op) {
      if (!op->getNumResults()) return;
      e.push_back("name");
      e.push_back(o.op_or_arg_name_mapper->GetUniqueName(op));
    });
  Log(e);
  *result = Get("result");
  if (Get("broken") == "1") m->setAttr("bad", mlir::UnitAttr::get(m.getContext()));  // no longer a valid module
  return !Fails("export");
}

namespace mlir {
StatusScopedDiagnosticHandler::StatusScopedDiagnosticHandler(MLIRContext* c, bool propagate, bool) : c_(c) {
  bool outermost = depth++ == 0;
  id_ = c->getDiagEngine().registerHandler([this, propagate, outermost](Diagnostic& d) {
    if (d.getSeverity() == DiagnosticSeverity::Error) text_ += d.str() + "\n";
    return failure(propagate && !outermost);
  });
}
StatusScopedDiagnosticHandler::~StatusScopedDiagnosticHandler() { c_->getDiagEngine().eraseHandler(id_); --depth; }
absl::Status StatusScopedDiagnosticHandler::ConsumeStatus() {
  if (text_.empty()) return absl::OkStatus();
  std::string t;
  t.swap(text_);
  return absl::UnknownError(t);
}
absl::Status StatusScopedDiagnosticHandler::Combine(absl::Status s) {
  absl::Status d = ConsumeStatus();
  if (d.ok()) return s;
  if (s.ok()) return d;
  return absl::Status(s.code(), absl::StrCat(s.message(), "\n", d.message()));
}
LogicalResult tf_saved_model::FreezeVariables(ModuleOp m, tensorflow::Session* s) {
  Log({"freeze", S(s != nullptr)});
  if (Fails("freeze")) {
    if (Get("silent").empty()) m.emitError("injected");
    return failure();
  }
  return success();
}
std::unique_ptr<OperationPass<ModuleOp>> odml::createPrintOpStatsPass(std::vector<std::string>) { return M({"PrintOpStats"}); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateSetBatchSizePass() { return F({"SetBatchSize"}); }
namespace TFL {
static std::string T(LCETarget t) { return t == LCETarget::ARM ? "arm" : t == LCETarget::XCORE ? "xcore" : "?"; }
FuncPass CreateOpRemovalPass() { return F({"OpRemoval"}); }
FuncPass CreatePrepareLCEPass(LCETarget t) { return F({"PrepareLCE", T(t)}); }
FuncPass CreateOptimizeLCEPass(LCETarget t) { return F({"OptimizeLCE", T(t)}); }
FuncPass CreateBitpackWeightsLCEPass() { return F({"BitpackWeights"}); }
FuncPass CreateLCEQuantizePass() { return F({"LCEQuantize"}); }
FuncPass CreateLegalizeLCEPass() { return F({"LegalizeLCE"}); }
FuncPass QuantizeDetectionPostProcessPass() { return F({"DetectionPostProcess"}); }
FuncPass CreateFusePaddingPass() { return F({"FusePadding"}); }
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& q) {
  std::string ranges;
  for (auto& r : q.input_ranges) ranges += S(r.first) + ":" + S(r.second) + " ";
  return F({"PrepareQuantize", q.inference_type == tensorflow::DT_QINT8 ? "qint8" : "?", q.inference_input_type == tensorflow::DT_FLOAT ? "float" : "?", ranges,
            S(q.default_ranges.first), S(q.default_ranges.second), S(q.post_training_quantization)});
}
FuncPass CreateDefaultQuantParamsPass(double min, double max, bool is_signed) { return F({"DefaultQuantParams", S(min), S(max), S(is_signed)}); }
FuncPass CreateQuantizePass() { return F({"Quantize"}); }
FuncPass CreatePostQuantizePass(bool b) { return F({"PostQuantize", S(b)}); }
FuncPass CreatePostQuantizeRemoveQDQPass() { return F({"PostQuantizeRemoveQDQ"}); }
FuncPass CreateOptimizeOpOrderPass() { return F({"OptimizeOpOrder"}); }
FuncPass CreateOptimizePass(bool, bool) { return F({"Optimize"}); }
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& o) { return F({"RaiseCustomOps"}); }
ModulePass CreatePrepareCompositeFunctionsPass() { return M({"PrepareCompositeFunctions"}); }
ModulePass CreateLowerStaticTensorListPass(bool, bool, bool) { return M({"LowerStaticTensorList"}); }
ModulePass CreateLegalizeTFWhilePass() { return M({"LegalizeTFWhile"}); }
FuncPass CreateReduceWhileOperandsPass() { return F({"ReduceWhileOperands"}); }
FuncPass CreatePrepareTFPass(bool, bool, bool) { return F({"PrepareTF"}); }
FuncPass CreateLegalizeTFPass(bool, bool) { return F({"LegalizeTF"}); }
ModulePass CreateAnalyzeVariablesPass() { return M({"AnalyzeVariables"}); }
ModulePass CreateLegalizeVariablesPass() { return M({"LegalizeVariables"}); }
ModulePass CreateLegalizeHashTablesPass() { return M({"LegalizeHashTables"}); }
ModulePass CreateOptimizeFunctionalOpsPass() { return M({"OptimizeFunctionalOps"}); }
FuncPass CreateSplitMergedOperandsPass() { return F({"SplitMergedOperands"}); }
ModulePass CreateInsertCallOnceOpFromSessionInitializerPass() { return M({"InsertCallOnce"}); }
ModulePass CreateUnfoldLargeSplatConstantPass() { return M({"UnfoldLargeSplatConstant"}); }
ModulePass CreateWhileOutlinePass() { return M({"WhileOutline"}); }
FuncPass CreateRuntimeVerifyPass() { return F({"RuntimeVerify"}); }
std::vector<std::string> AllTfFakeQuantOps() { return {}; }
}  // namespace TFL
namespace TF {
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions&) { pm.addPass(M({"TFStandardPipeline"})); }
TFL::FuncPass CreateDeviceIndexSelectorPass() { return F({"DeviceIndexSelector"}); }
TFL::ModulePass CreateTFShapeInferencePass(llvm::ArrayRef<llvm::ArrayRef<int64_t>>) { return M({"TFShapeInference"}); }
TFL::ModulePass CreateTFFunctionalControlFlowToRegions() { return M({"ControlFlowToRegions"}); }
TFL::ModulePass CreateTFRegionControlFlowToFunctional() { return M({"RegionControlFlowToFunctional"}); }
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& o) { pm.addPass(F({"LayoutOptimization", o.force_data_format})); }
TFL::FuncPass CreateInitTextFileToImportPass(std::string dir) { return F({"InitTextFileToImport", dir}); }
}  // namespace TF
TFL::FuncPass TFDevice::CreateDecomposeResourceOpsPass() { return F({"DecomposeResourceOps"}); }
namespace tf_saved_model {
TFL::ModulePass CreateOptimizeGlobalTensorsPass() { return M({"OptimizeGlobalTensors"}); }
TFL::ModulePass CreateFreezeGlobalTensorsPass(bool) { return M({"FreezeGlobalTensors"}); }
TFL::ModulePass CreateFreezeAssetsPass(std::string dir) { return M({"FreezeAssets", dir}); }
}  // namespace tf_saved_model
}  // namespace mlir

PYBIND11_MODULE(_verif_entry, m) {
  m.def("reset", [](std::map<std::string, pybind11::bytes> c) {
    cfg.clear();
    for (auto& k : c) cfg[k.first] = std::string(k.second);
    events.clear();
  });
  m.def("events", [] {
    pybind11::list l;
    for (auto& e : events) {
      pybind11::list x;
      for (auto& s : e) x.append(pybind11::bytes(s));
      l.append(x);
    }
    return l;
  });
}
