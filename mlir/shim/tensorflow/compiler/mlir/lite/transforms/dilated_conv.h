#ifndef VERIF_DILATED_CONV_H_
#define VERIF_DILATED_CONV_H_
#include "mlir/IR/PatternMatch.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
namespace mlir {
namespace TFL {
// TensorFlow's own rewrite of SpaceToBatchND > Conv2D > BatchToSpaceND, which the
// generated models do not contain; never matches.
template <typename ConvOp>
struct ConvertTFDilatedConvOp : public OpRewritePattern<ConvOp> {
  using OpRewritePattern<ConvOp>::OpRewritePattern;
  LogicalResult matchAndRewrite(ConvOp, PatternRewriter&) const override { return failure(); }
};
}  // namespace TFL
}  // namespace mlir
#endif
