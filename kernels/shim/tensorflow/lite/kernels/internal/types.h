#ifndef VERIF_TFLITE_INTERNAL_TYPES_H_
#define VERIF_TFLITE_INTERNAL_TYPES_H_
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <vector>
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
enum class FusedActivationFunctionType : uint8_t { kNone, kRelu6, kRelu1, kRelu };
enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues { int16_t width; int16_t height; int16_t width_offset; int16_t height_offset; };

class RuntimeShape {
 public:
  RuntimeShape() {}
  explicit RuntimeShape(int dimensions_count) : d_(dimensions_count, 0) {}
  RuntimeShape(int shape_size, int32_t value) : d_(shape_size, value) {}
  RuntimeShape(int dimensions_count, const int32_t* dims_data) : d_(dims_data, dims_data + dimensions_count) {}
  RuntimeShape(const std::initializer_list<int> init_list) : d_(init_list.begin(), init_list.end()) {}
  bool operator==(const RuntimeShape& o) const { return d_ == o.d_; }
  bool operator!=(const RuntimeShape& o) const { return !(*this == o); }
  int32_t DimensionsCount() const { return (int32_t)d_.size(); }
  int32_t Dims(int i) const {
    if (i < 0 || i >= (int)d_.size()) TF_LITE_FATAL("RuntimeShape::Dims out of range");
    return d_[i];
  }
  void SetDim(int i, int32_t val) {
    if (i < 0 || i >= (int)d_.size()) TF_LITE_FATAL("RuntimeShape::SetDim out of range");
    d_[i] = val;
  }
  int32_t* DimsData() { return d_.data(); }
  const int32_t* DimsData() const { return d_.data(); }
  const int32_t* DimsDataUpTo5D() const { return d_.data(); }
  void Resize(int n) { d_.resize(n); }
  void ReplaceWith(int n, const int32_t* data) { d_.assign(data, data + n); }
  template <typename T> void BuildFrom(const T& it) { d_.assign(it.begin(), it.end()); }
  static RuntimeShape ExtendedShape(int n, const RuntimeShape& s) {
    RuntimeShape r(n, 1);
    int inc = n - s.DimensionsCount();
    for (int i = 0; i < s.DimensionsCount(); ++i) r.d_[inc + i] = s.d_[i];
    return r;
  }
  int FlatSize() const {
    int n = 1;
    for (int32_t d : d_) n *= d;
    return n;
  }
 private:
  std::vector<int32_t> d_;
};

inline int Offset(const RuntimeShape& shape, int i0, int i1, int i2, int i3) {
  TFLITE_DCHECK_EQ(shape.DimensionsCount(), 4);
  const int* d = reinterpret_cast<const int*>(shape.DimsDataUpTo5D());
  return ((i0 * d[1] + i1) * d[2] + i2) * d[3] + i3;
}
inline int MatchingDim(const RuntimeShape& s1, int i1, const RuntimeShape& s2, int i2) {
  TFLITE_DCHECK_EQ(s1.Dims(i1), s2.Dims(i2));
  return std::min(s1.Dims(i1), s2.Dims(i2));
}
inline int FlatSizeSkipDim(const RuntimeShape& shape, int skip_dim) {
  const int n = shape.DimensionsCount();
  TFLITE_DCHECK(skip_dim >= 0 && skip_dim < n);
  const int32_t* d = shape.DimsData();
  int r = 1;
  for (int i = 0; i < n; ++i) r *= (i == skip_dim) ? 1 : d[i];
  return r;
}
inline int MatchingFlatSize(const RuntimeShape& a, const RuntimeShape& b) { TFLITE_DCHECK(a == b); return a.FlatSize(); }
template <typename... R> inline int MatchingFlatSize(const RuntimeShape& a, const RuntimeShape& b, const R&... r) { TFLITE_DCHECK(a == b); return MatchingFlatSize(b, r...); }
template <typename... R> inline int MatchingDim(const RuntimeShape& s1, int i1, const RuntimeShape& s2, int i2, const R&... r) {
  TFLITE_DCHECK_EQ(s1.Dims(i1), s2.Dims(i2));
  return MatchingDim(s2, i2, r...);
}
inline int MatchingFlatSizeSkipDim(const RuntimeShape& a, int skip_dim, const RuntimeShape& b) {
  for (int i = 0; i < a.DimensionsCount(); ++i)
    if (i != skip_dim) TFLITE_DCHECK_EQ(a.Dims(i), b.Dims(i));
  return FlatSizeSkipDim(a, skip_dim);
}
inline int MatchingElementsSize(const RuntimeShape& a, const RuntimeShape& b, const RuntimeShape& c) {
  TFLITE_DCHECK(a.FlatSize() == b.FlatSize() && a.FlatSize() == c.FlatSize());
  return a.FlatSize();
}
template <typename T> inline T ActivationFunctionWithMinMax(T x, T lo, T hi) { return std::min(std::max(x, lo), hi); }

struct ConvParams {
  PaddingType padding_type;
  PaddingValues padding_values;
  int16_t stride_width;
  int16_t stride_height;
  int16_t dilation_width_factor;
  int16_t dilation_height_factor;
  int32_t input_offset;
  int32_t weights_offset;
  int32_t output_offset;
  int32_t output_multiplier;
  int output_shift;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};
}  // namespace tflite
#endif
