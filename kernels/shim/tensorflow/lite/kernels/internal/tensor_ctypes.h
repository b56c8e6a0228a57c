#ifndef VERIF_TFLITE_TENSOR_CTYPES_H_
#define VERIF_TFLITE_TENSOR_CTYPES_H_
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
template <typename T> inline T* GetTensorData(TfLiteTensor* t) {
  return t != nullptr ? reinterpret_cast<T*>(t->data.raw) : nullptr;
}
template <typename T> inline const T* GetTensorData(const TfLiteTensor* t) {
  return t != nullptr ? reinterpret_cast<const T*>(t->data.raw) : nullptr;
}
inline RuntimeShape GetTensorShape(const TfLiteTensor* t) {
  if (t == nullptr) return RuntimeShape();
  return RuntimeShape(t->dims->size, reinterpret_cast<const int32_t*>(t->dims->data));
}
}  // namespace tflite
#endif
