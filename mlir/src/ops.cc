// The TF and TFL dialect stand-ins.
#include "llvm/ADT/StringExtras.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

namespace mlir {
// Folding of arithmetic on float constants, with broadcasting.
template <typename F>
static OpFoldResult FoldBinary(ArrayRef<Attribute> in, Type result, StringRef act, F f) {
  auto x = dyn_cast_or_null<DenseElementsAttr>(in[0]), y = dyn_cast_or_null<DenseElementsAttr>(in[1]);
  auto t = dyn_cast<RankedTensorType>(result);
  if (!x || !y || !t || !t.hasStaticShape() || act != "NONE" || !t.getElementType().isF32() || !x.getElementType().isF32() || !y.getElementType().isF32()) return {};
  auto xs = x.getType().getShape(), ys = y.getType().getShape();
  std::vector<float> xv(x.getValues<float>().begin(), x.getValues<float>().end()), yv(y.getValues<float>().begin(), y.getValues<float>().end()), out(t.getNumElements());
  auto shape = t.getShape();
  int n = shape.size();
  for (int64_t i = 0; i < (int64_t)out.size(); ++i) {
    int64_t xi = 0, yi = 0, rest = i, xm = 1, ym = 1;
    for (int d = n - 1; d >= 0; --d) {
      int64_t k = rest % shape[d];
      rest /= shape[d];
      int a = d - (n - (int)xs.size()), b = d - (n - (int)ys.size());
      if (a >= 0) { if (xs[a] != 1) xi += k * xm; xm *= xs[a]; }
      if (b >= 0) { if (ys[b] != 1) yi += k * ym; ym *= ys[b]; }
    }
    out[i] = f(xv[xi], yv[yi]);
  }
  return DenseElementsAttr::get(t, ArrayRef<float>(out));
}
namespace TF {
TensorFlowDialect::TensorFlowDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowDialect>()) {
  c->loadDialect<arith::ArithDialect>();
  addOperations<
#define GET_OP_LIST
#include "verif/tf_ops.cc.inc"
      >();
}
Operation* TensorFlowDialect::materializeConstant(OpBuilder& b, Attribute value, Type type, Location loc) {
  if (auto e = dyn_cast<ElementsAttr>(value)) return b.create<ConstOp>(loc, type, e);
  return nullptr;
}
OpFoldResult ConstOp::fold(FoldAdaptor) { return getValue(); }
// As in TensorFlow: the shape of a static type is a constant, and a broadcast to the type it has is nothing.
OpFoldResult ShapeOp::fold(FoldAdaptor) {
  auto t = dyn_cast<RankedTensorType>(getInput().getType());
  auto r = dyn_cast<RankedTensorType>(getOutput().getType());
  if (!t || !r || !t.hasStaticShape()) return {};
  auto et = RankedTensorType::get({t.getRank()}, r.getElementType());
  SmallVector<Attribute> v;
  for (int64_t d : t.getShape()) v.push_back(IntegerAttr::get(r.getElementType(), d));
  return DenseElementsAttr::get(et, v);
}
OpFoldResult BroadcastToOp::fold(FoldAdaptor) {
  auto t = dyn_cast<RankedTensorType>(getInput().getType());
  if (t && t.hasStaticShape() && t == getOutput().getType()) return getInput();
  return {};
}
Type BroadcastType(Type a, Type b) {
  auto x = cast<RankedTensorType>(a), y = cast<RankedTensorType>(b);
  SmallVector<int64_t> s;
  int n = std::max(x.getRank(), y.getRank());
  for (int i = 0; i < n; ++i) {
    int xi = i - (n - (int)x.getRank()), yi = i - (n - (int)y.getRank());
    int64_t p = xi < 0 ? 1 : x.getDimSize(xi), q = yi < 0 ? 1 : y.getDimSize(yi);
    s.push_back(p == 1 ? q : q == 1 ? p : p == ShapedType::kDynamic ? q : p);
  }
  return RankedTensorType::get(s, x.getElementType());
}
void BuildBroadcast(OpBuilder& b, OperationState& s, Value x, Value y) {
  s.addOperands({x, y});
  s.addTypes(BroadcastType(x.getType(), y.getType()));
}
void BuildTranspose(OpBuilder& b, OperationState& s, Value x, Value perm) {
  s.addOperands({x, perm});
  auto t = cast<RankedTensorType>(x.getType());
  DenseIntElementsAttr p;
  SmallVector<int64_t> shape(t.getRank(), ShapedType::kDynamic);
  if (matchPattern(perm, m_Constant(&p))) {
    int i = 0;
    for (APInt v : p) shape[i++] = t.getDimSize(v.getSExtValue());
  }
  s.addTypes(RankedTensorType::get(shape, t.getElementType()));
}
void BuildShape(OpBuilder& b, OperationState& s, Value input, BoolAttr use32Bit) {
  s.addOperands(input);
  auto t = cast<RankedTensorType>(input.getType());
  s.addTypes(RankedTensorType::get({t.getRank()}, b.getIntegerType(use32Bit.getValue() ? 32 : 64)));
}
// TensorFlow folds every operation on constants.
OpFoldResult AddV2Op::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getZ().getType(), "NONE", [](float x, float y) { return x + y; }); }
OpFoldResult SubOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getZ().getType(), "NONE", [](float x, float y) { return x - y; }); }
OpFoldResult MulOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getZ().getType(), "NONE", [](float x, float y) { return x * y; }); }
OpFoldResult DivOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getZ().getType(), "NONE", [](float x, float y) { return x / y; }); }
OpFoldResult RealDivOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getZ().getType(), "NONE", [](float x, float y) { return x / y; }); }
OpFoldResult TransposeOp::fold(FoldAdaptor a) {
  auto x = dyn_cast_or_null<DenseElementsAttr>(a.getX()), p = dyn_cast_or_null<DenseElementsAttr>(a.getPerm());
  auto t = dyn_cast<RankedTensorType>(getY().getType());
  if (!x || !p || !t || !t.hasStaticShape() || !x.getElementType().isF32()) return {};
  auto in = x.getType().getShape(), shape = t.getShape();
  SmallVector<int64_t> perm, stride(in.size(), 1);
  for (APInt v : p.getValues<APInt>()) perm.push_back(v.getSExtValue());
  if (perm.size() != in.size() || shape.size() != in.size()) return {};
  for (int d = (int)in.size() - 2; d >= 0; --d) stride[d] = stride[d + 1] * in[d + 1];
  std::vector<float> xv(x.getValues<float>().begin(), x.getValues<float>().end()), out(t.getNumElements());
  for (int64_t i = 0; i < (int64_t)out.size(); ++i) {
    int64_t rest = i, at = 0;
    for (int d = (int)shape.size() - 1; d >= 0; --d) { at += rest % shape[d] * stride[perm[d]]; rest /= shape[d]; }
    out[i] = xv[at];
  }
  return DenseElementsAttr::get(t, ArrayRef<float>(out));
}
}  // namespace TF

namespace TFL {
namespace detail {
struct ConstBytesAttrStorage : public AttributeStorage {
  using KeyTy = StringRef;
  explicit ConstBytesAttrStorage(StringRef v) : value(v) {}
  bool operator==(const KeyTy& k) const { return k == value; }
  static llvm::hash_code hashKey(const KeyTy& k) { return llvm::hash_value(k); }
  static ConstBytesAttrStorage* construct(AttributeStorageAllocator& a, const KeyTy& k) { return new (a.allocate<ConstBytesAttrStorage>()) ConstBytesAttrStorage(a.copyInto(k)); }
  StringRef value;
};
}  // namespace detail
ConstBytesAttr ConstBytesAttr::get(MLIRContext* ctx, StringRef value) { return Base::get(ctx, value); }
StringRef ConstBytesAttr::getValue() const { return getImpl()->value; }

TensorFlowLiteDialect::TensorFlowLiteDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowLiteDialect>()) {
  c->loadDialect<arith::ArithDialect>();
  c->loadDialect<quant::QuantizationDialect>();
  addAttributes<ConstBytesAttr>();
  addOperations<
#define GET_OP_LIST
#include "verif/tfl_ops.cc.inc"
      >();
}
Operation* TensorFlowLiteDialect::materializeConstant(OpBuilder& b, Attribute value, Type type, Location loc) {
  if (isa<UnitAttr>(value) && isa<NoneType>(type)) return b.create<NoValueOp>(loc, type, cast<UnitAttr>(value));
  if (arith::ConstantOp::isBuildableWith(value, type)) return b.create<arith::ConstantOp>(loc, type, cast<TypedAttr>(value));
  return nullptr;
}
Attribute TensorFlowLiteDialect::parseAttribute(DialectAsmParser& p, Type) const {
  std::string s;
  if (p.parseKeyword("const_bytes") || p.parseColon() || p.parseString(&s)) return {};
  if (!StringRef(s).starts_with("0x")) { p.emitError(p.getCurrentLocation(), "expected a hex string"); return {}; }
  return ConstBytesAttr::get(getContext(), llvm::fromHex(s.substr(2)));
}
void TensorFlowLiteDialect::printAttribute(Attribute a, DialectAsmPrinter& os) const {
  os << "const_bytes : \"0x" << llvm::toHex(cast<ConstBytesAttr>(a).getValue()) << "\"";
}
void BuildBroadcast(OpBuilder& b, OperationState& s, Value x, Value y, StringAttr act) {
  s.addOperands({x, y});
  s.addAttribute("fused_activation_function", act);
  s.addTypes(TF::BroadcastType(x.getType(), y.getType()));
}
void BuildCompare(OpBuilder& b, OperationState& s, Value x, Value y) {
  s.addOperands({x, y});
  auto t = cast<RankedTensorType>(TF::BroadcastType(x.getType(), y.getType()));
  s.addTypes(RankedTensorType::get(t.getShape(), b.getI1Type()));
}
OpFoldResult NoValueOp::fold(FoldAdaptor) { return getValueAttr(); }

OpFoldResult AddOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getOutput().getType(), getFusedActivationFunction(), [](float x, float y) { return x + y; }); }
OpFoldResult SubOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getOutput().getType(), getFusedActivationFunction(), [](float x, float y) { return x - y; }); }
OpFoldResult MulOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getOutput().getType(), getFusedActivationFunction(), [](float x, float y) { return x * y; }); }
OpFoldResult DivOp::fold(FoldAdaptor a) { return FoldBinary(a.getOperands(), getOutput().getType(), getFusedActivationFunction(), [](float x, float y) { return x / y; }); }
}  // namespace TFL
}  // namespace mlir
#include "mlir/Dialect/Quant/QuantOps.h"
MLIR_DEFINE_EXPLICIT_TYPE_ID(::mlir::TFL::ConstBytesAttr)
#define GET_OP_CLASSES
#include "verif/tf_ops.cc.inc"
#define GET_OP_CLASSES
#include "verif/tfl_ops.cc.inc"
