#ifndef VERIF_TF_OPS_H_
#define VERIF_TF_OPS_H_
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/OpDefinition.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
namespace mlir {
namespace TF {
class TensorFlowDialect : public Dialect {
 public:
  explicit TensorFlowDialect(MLIRContext* context);
  static constexpr llvm::StringLiteral getDialectNamespace() { return llvm::StringLiteral("tf"); }
  Operation* materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) override;
};
Type BroadcastType(Type a, Type b);
void BuildBroadcast(OpBuilder& b, OperationState& s, Value x, Value y);
void BuildTranspose(OpBuilder& b, OperationState& s, Value x, Value perm);
void BuildShape(OpBuilder& b, OperationState& s, Value input, BoolAttr use32Bit);
}  // namespace TF
}  // namespace mlir
#define GET_OP_CLASSES
#include "verif/tf_ops.h.inc"
#endif
