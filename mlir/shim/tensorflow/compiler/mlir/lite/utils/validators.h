#ifndef VERIF_VALIDATORS_H_
#define VERIF_VALIDATORS_H_
#include "mlir/IR/BuiltinAttributes.h"
namespace mlir {
namespace TFL {
// [1, X, Y, 1]
inline bool TFIntListIs1XY1(Attribute attr) {
  auto a = llvm::dyn_cast_or_null<ArrayAttr>(attr);
  if (!a || a.size() != 4) return false;
  for (Attribute e : a)
    if (!llvm::isa<IntegerAttr>(e)) return false;
  return llvm::cast<IntegerAttr>(a[0]).getInt() == 1 && llvm::cast<IntegerAttr>(a[3]).getInt() == 1;
}
}  // namespace TFL
}  // namespace mlir
#endif
