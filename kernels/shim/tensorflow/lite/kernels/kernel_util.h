#ifndef VERIF_TFLITE_KERNEL_UTIL_H_
#define VERIF_TFLITE_KERNEL_UTIL_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/context.h"
namespace tflite {
namespace verif_detail {
inline TfLiteTensor* At(const TfLiteContext* context, const TfLiteIntArray* list, int index) {
  if (list == nullptr || index < 0 || index >= list->size) return nullptr;
  const int id = list->data[index];
  if (id == kTfLiteOptionalTensor || id < 0 || (size_t)id >= context->tensors_size) return nullptr;
  return &context->tensors[id];
}
}  // namespace verif_detail
inline const TfLiteTensor* GetInput(const TfLiteContext* c, const TfLiteNode* n, int i) { return verif_detail::At(c, n->inputs, i); }
inline TfLiteStatus GetInputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, const TfLiteTensor** t) {
  *t = GetInput(c, n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* c, const TfLiteNode* n, int i) { return GetInput(c, n, i); }
inline TfLiteTensor* GetVariableInput(TfLiteContext* c, const TfLiteNode* n, int i) {
  TfLiteTensor* t = verif_detail::At(c, n->inputs, i);
  return t && t->is_variable ? t : nullptr;
}
inline TfLiteTensor* GetOutput(TfLiteContext* c, const TfLiteNode* n, int i) { return verif_detail::At(c, n->outputs, i); }
inline TfLiteStatus GetOutputSafe(TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = GetOutput(c, n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline TfLiteTensor* GetTemporary(TfLiteContext* c, const TfLiteNode* n, int i) { return verif_detail::At(c, n->temporaries, i); }
inline TfLiteStatus GetTemporarySafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = verif_detail::At(c, n->temporaries, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int dim) { return t->dims->data[dim]; }
inline int NumInputs(const TfLiteNode* n) { return n->inputs == nullptr ? 0 : n->inputs->size; }
inline int NumOutputs(const TfLiteNode* n) { return n->outputs == nullptr ? 0 : n->outputs->size; }
inline int64_t NumElements(const TfLiteIntArray* dims) {
  int64_t count = 1;
  for (int i = 0; i < dims->size; ++i) count *= dims->data[i];
  return count;
}
inline int64_t NumElements(const TfLiteTensor* t) { return NumElements(t->dims); }
inline bool IsConstantTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteMmapRo; }
inline bool IsConstantOrPersistentTensor(const TfLiteTensor* t) { return IsConstantTensor(t) || t->allocation_type == kTfLitePersistentRo; }
inline bool IsDynamicTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteDynamic; }
inline void SetTensorToDynamic(TfLiteTensor* t) {
  if (t->allocation_type != kTfLiteDynamic) { t->allocation_type = kTfLiteDynamic; t->data.raw = nullptr; }
}
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) { return TfLiteIntArrayEqual(a->dims, b->dims); }
template <typename T> void CalculateActivationRange(TfLiteFusedActivation activation, T* lo, T* hi) {
  if (activation == kTfLiteActRelu) {
    *lo = 0;
    *hi = std::numeric_limits<T>::max();
  } else if (activation == kTfLiteActRelu6) {
    *lo = 0;
    *hi = 6;
  } else if (activation == kTfLiteActReluN1To1) {
    *lo = -1;
    *hi = 1;
  } else {
    *lo = std::numeric_limits<T>::lowest();
    *hi = std::numeric_limits<T>::max();
  }
}
}  // namespace tflite
#endif
