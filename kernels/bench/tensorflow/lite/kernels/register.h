// Stand-in: TensorFlow Lite's own operators are only marked.
#pragma once
#include <memory>
#include "tensorflow/lite/mutable_op_resolver.h"
namespace tflite {
namespace ops {
namespace builtin {
class BuiltinOpResolver : public MutableOpResolver {
 public:
  bool builtin = true;
};
}  // namespace builtin
}  // namespace ops
}  // namespace tflite
