// Stand-ins for TensorFlow's own passes of the conversion: those that LCE's passes rely
// on do what TensorFlow's do to the models generated here, the others do nothing.
#include <functional>

#include "mlir/IR/Matchers.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/lite/transforms/passes.h"
#include "tensorflow/compiler/mlir/lite/utils/fake_quant_utils.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/transforms/passes.h"
#include "tensorflow/compiler/mlir/tensorflow/transforms/tf_saved_model_passes.h"

namespace mlir {
namespace {
struct OnFunc : public PassWrapper<OnFunc, OperationPass<func::FuncOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(OnFunc)
  std::function<void(func::FuncOp)> f;
  explicit OnFunc(std::function<void(func::FuncOp)> f = {}) : f(std::move(f)) {}
  OnFunc(const OnFunc& o) : PassWrapper(o), f(o.f) {}
  void getDependentDialects(DialectRegistry& r) const override { r.insert<TFL::TensorFlowLiteDialect, arith::ArithDialect>(); }
  void runOnOperation() override { if (f) f(getOperation()); }
};
struct OnModule : public PassWrapper<OnModule, OperationPass<ModuleOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(OnModule)
  std::function<void(ModuleOp)> f;
  explicit OnModule(std::function<void(ModuleOp)> f = {}) : f(std::move(f)) {}
  OnModule(const OnModule& o) : PassWrapper(o), f(o.f) {}
  void runOnOperation() override { if (f) f(getOperation()); }
};
TFL::FuncPass F(std::function<void(func::FuncOp)> f = {}) { return std::make_unique<OnFunc>(std::move(f)); }
TFL::ModulePass M(std::function<void(ModuleOp)> f = {}) { return std::make_unique<OnModule>(std::move(f)); }

void Each(func::FuncOp f, const std::function<void(Operation*, OpBuilder&)>& g) {
  SmallVector<Operation*> ops;
  f.walk([&](Operation* o) { if (o != f.getOperation()) ops.push_back(o); });
  for (Operation* o : ops) {
    OpBuilder b(o);
    g(o, b);
  }
}
Operation* Make(OpBuilder& b, Operation* like, StringRef name, ValueRange in, TypeRange out, ArrayRef<NamedAttribute> attrs = {}) {
  OperationState s(like->getLoc(), name);
  s.addOperands(in);
  s.addTypes(out);
  s.addAttributes(attrs);
  return b.create(s);
}
void Replace(Operation* o, Operation* by) {
  o->replaceAllUsesWith(by);
  o->erase();
}
DenseElementsAttr Constant(Value v) {
  DenseElementsAttr a;
  if (matchPattern(v, m_Constant(&a))) return a;
  return {};
}

void InferShapes(ModuleOp m) {
  for (auto f : m.getOps<func::FuncOp>()) {
    f.walk([&](Operation* o) {
      for (auto r : o->getResults()) {
        auto t = dyn_cast<RankedTensorType>(r.getType());
        if (!t || t.hasStaticShape() || t.getRank() == 0 || !t.isDynamicDim(0)) continue;
        int64_t n = ShapedType::kDynamic;
        bool known = true;
        bool all = isa<TF::AddV2Op, TF::SubOp, TF::MulOp, TF::DivOp, TF::RealDivOp, TF::SelectOp, TF::SelectV2Op, TF::GreaterEqualOp, TF::LessEqualOp, TF::GreaterOp, TF::LessOp>(o);
        for (auto v : o->getOperands().take_front(all ? o->getNumOperands() : 1)) {
          auto i = dyn_cast<RankedTensorType>(v.getType());
          if (!i || i.getRank() != t.getRank()) continue;
          if (i.isDynamicDim(0)) known = false;
          else n = n == ShapedType::kDynamic ? i.getDimSize(0) : std::max(n, i.getDimSize(0));
        }
        if (isa<TF::ReshapeOp>(o)) {
          auto i = cast<RankedTensorType>(o->getOperand(0).getType());
          known = i.hasStaticShape();
          if (known) {
            n = i.getNumElements();
            for (int64_t d = 1; d < t.getRank(); ++d) n /= t.getDimSize(d);
          }
        }
        if (!known || n == ShapedType::kDynamic) continue;
        SmallVector<int64_t> s(t.getShape());
        s[0] = n;
        r.setType(RankedTensorType::get(s, t.getElementType()));
      }
    });
    Operation* ret = f.getBody().front().getTerminator();
    f.setType(FunctionType::get(f.getContext(), f.getFunctionType().getInputs(), ret->getOperandTypes()));
  }
}

// Batch normalisation becomes arithmetic, fake quantisation a pair of operations.
void PrepareTF(func::FuncOp f) {
  Each(f, [](Operation* o, OpBuilder& b) {
    if (auto q = dyn_cast<TF::FakeQuantWithMinMaxArgsOp>(o)) {
      auto attr = o->getAttrOfType<TypeAttr>("qtype");
      auto t = cast<RankedTensorType>(o->getOperand(0).getType());
      auto qt = RankedTensorType::get(t.getShape(), cast<RankedTensorType>(attr.getValue()).getElementType());
      auto* x = Make(b, o, "tfl.quantize", o->getOperand(0), Type(qt), {b.getNamedAttr("qtype", TypeAttr::get(qt))});
      Replace(o, Make(b, o, "tfl.dequantize", x->getResult(0), o->getResultTypes()));
    } else if (isa<TF::FusedBatchNormV3Op>(o)) {
      auto scale = Constant(o->getOperand(1)), offset = Constant(o->getOperand(2)), mean = Constant(o->getOperand(3)), var = Constant(o->getOperand(4));
      if (!scale || !offset || !mean || !var) return;
      std::vector<float> m, a;
      for (auto [s, of, me, v] : llvm::zip(scale.getValues<float>(), offset.getValues<float>(), mean.getValues<float>(), var.getValues<float>())) {
        m.push_back(s / std::sqrt(v));
        a.push_back(of - me * m.back());
      }
      auto c = [&](const std::vector<float>& v) { return b.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(scale.getType(), ArrayRef<float>(v))).getResult(); };
      auto* mul = Make(b, o, "tf.Mul", {o->getOperand(0), c(m)}, o->getResultTypes());
      Replace(o, Make(b, o, "tf.AddV2", {mul->getResult(0), c(a)}, o->getResultTypes()));
    }
  });
}

void LegalizeTF(func::FuncOp f) {
  Each(f, [](Operation* o, OpBuilder& b) {
    StringRef n = o->getName().getStringRef();
    if (!n.consume_front("tf.")) return;
    auto none = b.getNamedAttr("fused_activation_function", b.getStringAttr("NONE"));
    auto at = [&](const char* name, int i) { return (int32_t)cast<IntegerAttr>(o->getAttrOfType<ArrayAttr>(name)[i]).getInt(); };
    auto i32 = [&](const char* name, int32_t v) { return b.getNamedAttr(name, b.getI32IntegerAttr(v)); };
    static const std::map<std::string, std::string> arith = {{"AddV2", "add"}, {"Sub", "sub"}, {"Mul", "mul"}, {"Div", "div"}, {"RealDiv", "div"}};
    static const std::map<std::string, std::string> plain = {
        {"Relu", "relu"}, {"Relu6", "relu6"}, {"Sign", "sign"}, {"Pad", "pad"}, {"PadV2", "padv2"}, {"Select", "select"}, {"SelectV2", "select_v2"}, {"LogicalNot", "logical_not"},
        {"GreaterEqual", "greater_equal"}, {"LessEqual", "less_equal"}, {"Greater", "greater"}, {"Less", "less"}, {"Shape", "shape"}, {"BroadcastTo", "broadcast_to"}, {"Reshape", "reshape"}};
    if (auto i = arith.find(n.str()); i != arith.end()) Replace(o, Make(b, o, "tfl." + i->second, o->getOperands(), o->getResultTypes(), {none}));
    else if (auto i = plain.find(n.str()); i != plain.end()) Replace(o, Make(b, o, "tfl." + i->second, o->getOperands(), o->getResultTypes()));
    else if (n == "Identity" || n == "StopGradient") {
      if (o->getOperand(0).getType() != o->getResult(0).getType()) return;
      o->replaceAllUsesWith(o->getOperands());
      o->erase();
    } else if (n == "ConcatV2") Replace(o, Make(b, o, "tfl.concatenation", o->getOperands(), o->getResultTypes(), {i32("axis", 3), none}));
    else if (n == "MaxPool" || n == "AvgPool")
      Replace(o, Make(b, o, n == "MaxPool" ? "tfl.max_pool_2d" : "tfl.average_pool_2d", o->getOperands(), o->getResultTypes(),
                      {none, b.getNamedAttr("padding", o->getAttr("padding")), i32("stride_h", at("strides", 1)), i32("stride_w", at("strides", 2)), i32("filter_height", at("ksize", 1)), i32("filter_width", at("ksize", 2))}));
    else if (n == "Conv2D") {
      auto w = Constant(o->getOperand(1));
      auto fmt = o->getAttrOfType<StringAttr>("data_format");
      if (!w || (fmt && fmt.getValue() != "NHWC")) return;
      auto s = w.getType().getShape();
      std::vector<float> v(w.getValues<float>().begin(), w.getValues<float>().end()), t(v.size());
      for (int64_t k = 0; k < (int64_t)v.size(); ++k) t[k % s[3] * (s[0] * s[1] * s[2]) + k / s[3]] = v[k];
      auto filter = b.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(RankedTensorType::get({s[3], s[0], s[1], s[2]}, b.getF32Type()), ArrayRef<float>(t)));
      auto bias = b.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(RankedTensorType::get({s[3]}, b.getF32Type()), 0.0f));
      bool dil = o->getAttr("dilations") != nullptr;
      Replace(o, Make(b, o, "tfl.conv_2d", {o->getOperand(0), filter, bias}, o->getResultTypes(),
                      {none, b.getNamedAttr("padding", o->getAttr("padding")), i32("stride_h", at("strides", 1)), i32("stride_w", at("strides", 2)), i32("dilation_h_factor", dil ? at("dilations", 1) : 1), i32("dilation_w_factor", dil ? at("dilations", 2) : 1)}));
    }
  });
}

// An activation moves into the operation before it, a bias into a convolution.
void Optimize(func::FuncOp f) {
  Each(f, [](Operation* o, OpBuilder& b) {
    StringRef n = o->getName().getStringRef();
    const char* act = n == "tfl.relu" ? "RELU" : n == "tfl.relu6" ? "RELU6" : n == "tfl.relu_n1_to_1" ? "RELU_N1_TO_1" : nullptr;
    if (act) {
      Operation* d = o->getOperand(0).getDefiningOp();
      if (!d || !d->hasOneUse() || d->getName().getDialectNamespace() != "tfl") return;
      auto a = d->getAttrOfType<StringAttr>("fused_activation_function");
      if (!a || a.getValue() != "NONE") return;
      d->setAttr("fused_activation_function", b.getStringAttr(act));
      o->replaceAllUsesWith(d);
      o->erase();
    } else if (n == "tfl.add") {
      Operation* d = o->getOperand(0).getDefiningOp();
      auto c = Constant(o->getOperand(1));
      if (!d || d->getName().getStringRef() != "tfl.conv_2d" || !d->hasOneUse() || !c || c.getType().getRank() != 1 || d->getAttrOfType<StringAttr>("fused_activation_function").getValue() != "NONE") return;
      auto old = Constant(d->getOperand(2));
      if (!old || old.getType() != c.getType()) return;
      std::vector<float> v;
      for (auto [x, y] : llvm::zip(old.getValues<float>(), c.getValues<float>())) v.push_back(x + y);
      OpBuilder at(d);
      d->setOperand(2, at.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(c.getType(), ArrayRef<float>(v))));
      d->setAttr("fused_activation_function", o->getAttr("fused_activation_function"));
      o->replaceAllUsesWith(d);
      o->erase();
    }
  });
}

// Parameters of operations get ranges of their own.
void PrepareQuantize(func::FuncOp f) {
  Each(f, [](Operation* o, OpBuilder& b) {
    auto c = dyn_cast<arith::ConstantOp>(o);
    if (!c) return;
    auto v = dyn_cast<DenseElementsAttr>(c.getValue());
    if (!v || !v.getElementType().isF32()) return;
    double top = 0;
    for (float x : v.getValues<float>()) top = std::max(top, std::fabs((double)x));
    SmallVector<OpOperand*> uses;
    for (auto& u : o->getUses()) if (u.getOwner()->getName().getStringRef() == "lq.Bconv2d") uses.push_back(&u);
    if (uses.empty()) return;
    auto q = RankedTensorType::get(v.getType().getShape(), quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(8), b.getF32Type(), top > 0 ? top / 127 : 1, 0, -128, 127));
    b.setInsertionPointAfter(o);
    auto* x = Make(b, o, "tfl.quantize", o->getResult(0), Type(q), {b.getNamedAttr("qtype", TypeAttr::get(q))});
    auto* y = Make(b, o, "tfl.dequantize", x->getResult(0), o->getResultTypes());
    for (auto* u : uses) u->set(y->getResult(0));
  });
}
// Poolings and reshapes are quantised; what is left around constants goes.
void Quantize(func::FuncOp f) {
  Each(f, [](Operation* o, OpBuilder& b) {
    StringRef n = o->getName().getStringRef();
    if (n == "tfl.max_pool_2d" || n == "tfl.reshape") {
      Operation* d = o->getOperand(0).getDefiningOp();
      if (!d || d->getName().getStringRef() != "tfl.dequantize" || !o->hasOneUse()) return;
      Operation* q = *o->getResult(0).user_begin();
      if (q->getName().getStringRef() != "tfl.quantize") return;
      auto e = [](Value v) { return cast<ShapedType>(v.getType()).getElementType(); };
      if (e(d->getOperand(0)) != e(q->getResult(0))) return;
      o->setOperand(0, d->getOperand(0));
      o->getResult(0).setType(q->getResult(0).getType());
      q->replaceAllUsesWith(o);
    } else if (n == "tfl.dequantize") {
      Operation* q = o->getOperand(0).getDefiningOp();
      if (!q || q->getName().getStringRef() != "tfl.quantize" || !Constant(q->getOperand(0))) return;
      o->replaceAllUsesWith(q->getOperands());
      o->erase();
    }
  });
}
// Unwraps nothing: fake quantisation is not folded here.
}  // namespace

namespace TFL {
std::vector<std::string> AllTfFakeQuantOps() { return {"tf.FakeQuantWithMinMaxVars", "tf.FakeQuantWithMinMaxVarsPerChannel", "tf.FakeQuantWithMinMaxArgs"}; }
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs&) { return F(PrepareQuantize); }
FuncPass CreateDefaultQuantParamsPass(double, double, bool) { return F(); }
FuncPass CreateQuantizePass() { return F(Quantize); }
FuncPass CreatePostQuantizePass(bool) { return F(); }
FuncPass CreatePostQuantizeRemoveQDQPass() { return F(); }
FuncPass CreateOptimizeOpOrderPass() { return F(); }
FuncPass CreateOptimizePass(bool, bool) { return F(Optimize); }
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>&) { return F(); }
ModulePass CreatePrepareCompositeFunctionsPass() { return M(); }
ModulePass CreateLowerStaticTensorListPass(bool, bool, bool) { return M(); }
ModulePass CreateLegalizeTFWhilePass() { return M(); }
FuncPass CreateReduceWhileOperandsPass() { return F(); }
FuncPass CreatePrepareTFPass(bool, bool, bool) { return F(PrepareTF); }
FuncPass CreateLegalizeTFPass(bool, bool) { return F(LegalizeTF); }
ModulePass CreateAnalyzeVariablesPass() { return M(); }
ModulePass CreateLegalizeVariablesPass() { return M(); }
ModulePass CreateLegalizeHashTablesPass() { return M(); }
ModulePass CreateOptimizeFunctionalOpsPass() { return M(); }
FuncPass CreateSplitMergedOperandsPass() { return F(); }
ModulePass CreateInsertCallOnceOpFromSessionInitializerPass() { return M(); }
ModulePass CreateUnfoldLargeSplatConstantPass() { return M(); }
ModulePass CreateWhileOutlinePass() { return M(); }
FuncPass CreateRuntimeVerifyPass() { return F(); }
}  // namespace TFL
namespace TF {
void CreateTFStandardPipeline(OpPassManager&, const StandardPipelineOptions&) {}
TFL::FuncPass CreateDeviceIndexSelectorPass() { return F(); }
TFL::ModulePass CreateTFShapeInferencePass(llvm::ArrayRef<llvm::ArrayRef<int64_t>>) { return M(InferShapes); }
TFL::ModulePass CreateTFFunctionalControlFlowToRegions() { return M(); }
TFL::ModulePass CreateTFRegionControlFlowToFunctional() { return M(); }
void CreateLayoutOptimizationPipeline(OpPassManager&, const LayoutOptimizationPipelineOptions&) {}
TFL::FuncPass CreateInitTextFileToImportPass(std::string) { return F(); }
}  // namespace TF
namespace TFDevice {
TFL::FuncPass CreateDecomposeResourceOpsPass() { return F(); }
}
namespace tf_saved_model {
TFL::ModulePass CreateOptimizeGlobalTensorsPass() { return M(); }
TFL::ModulePass CreateFreezeGlobalTensorsPass(bool) { return M(); }
TFL::ModulePass CreateFreezeAssetsPass(std::string) { return M(); }
}  // namespace tf_saved_model
}  // namespace mlir
