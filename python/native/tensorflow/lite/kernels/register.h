#ifndef VERIF_REGISTER_H_
#define VERIF_REGISTER_H_
#include "tensorflow/lite/mutable_op_resolver.h"
namespace tflite {
namespace ops {
namespace builtin {
class BuiltinOpResolver : public MutableOpResolver {
 public:
  virtual bool delegates() const { return true; }
};
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {
 public:
  bool delegates() const override { return false; }
};
}  // namespace builtin
}  // namespace ops
}  // namespace tflite
#endif
