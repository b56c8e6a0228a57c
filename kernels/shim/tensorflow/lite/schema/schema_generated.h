#ifndef VERIF_TFLITE_SCHEMA_H_
#define VERIF_TFLITE_SCHEMA_H_
#include <cstdint>
namespace tflite {
enum Padding : int8_t { Padding_SAME = 0, Padding_VALID = 1, Padding_MIN = Padding_SAME, Padding_MAX = Padding_VALID };
enum ActivationFunctionType : int8_t {
  ActivationFunctionType_NONE = 0, ActivationFunctionType_RELU = 1,
  ActivationFunctionType_RELU_N1_TO_1 = 2, ActivationFunctionType_RELU6 = 3,
  ActivationFunctionType_TANH = 4, ActivationFunctionType_SIGN_BIT = 5,
};
enum TensorType : int8_t {
  TensorType_FLOAT32 = 0, TensorType_FLOAT16 = 1, TensorType_INT32 = 2, TensorType_UINT8 = 3,
  TensorType_INT64 = 4, TensorType_STRING = 5, TensorType_BOOL = 6, TensorType_INT16 = 7,
  TensorType_COMPLEX64 = 8, TensorType_INT8 = 9,
};
}  // namespace tflite
#endif
