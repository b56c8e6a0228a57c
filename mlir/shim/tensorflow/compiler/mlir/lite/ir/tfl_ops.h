#ifndef VERIF_TFL_OPS_H_
#define VERIF_TFL_OPS_H_
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/OpDefinition.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
#include "tensorflow/lite/schema/schema_generated.h"
namespace mlir {
namespace TFL {
namespace detail { struct ConstBytesAttrStorage; }
class ConstBytesAttr : public Attribute::AttrBase<ConstBytesAttr, Attribute, detail::ConstBytesAttrStorage> {
 public:
  using Base::Base;
  static constexpr StringLiteral name = "tfl.const_bytes";
  static ConstBytesAttr get(MLIRContext* ctx, StringRef value);
  StringRef getValue() const;
};
class TensorFlowLiteDialect : public Dialect {
 public:
  explicit TensorFlowLiteDialect(MLIRContext* context);
  static constexpr llvm::StringLiteral getDialectNamespace() { return llvm::StringLiteral("tfl"); }
  Operation* materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) override;
  Attribute parseAttribute(DialectAsmParser& parser, Type type) const override;
  void printAttribute(Attribute attr, DialectAsmPrinter& os) const override;
};
void BuildBroadcast(OpBuilder& b, OperationState& s, Value x, Value y, StringAttr act);
void BuildCompare(OpBuilder& b, OperationState& s, Value x, Value y);
}  // namespace TFL
}  // namespace mlir
MLIR_DECLARE_EXPLICIT_TYPE_ID(::mlir::TFL::ConstBytesAttr)
#define GET_OP_CLASSES
#include "verif/tfl_ops.h.inc"
#endif
