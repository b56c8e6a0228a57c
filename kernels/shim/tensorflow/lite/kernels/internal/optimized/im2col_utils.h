#ifndef VERIF_TFLITE_IM2COL_UTILS_H_
#define VERIF_TFLITE_IM2COL_UTILS_H_
#include <cstring>
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite { namespace optimized_ops {
// One row per output pixel: the patch [kheight, kwidth, depth] under the filter,
// with `zero_byte` in every byte of the positions outside of the input.
template <typename T>
inline void VerifIm2col(const ConvParams& p, int kheight, int kwidth, int dh, int dw, uint8_t zero_byte,
                        const RuntimeShape& in, const T* input, int out_h, int out_w, T* out) {
  const int depth = in.Dims(3);
  for (int b = 0; b < in.Dims(0); ++b)
    for (int y = 0; y < out_h; ++y)
      for (int x = 0; x < out_w; ++x)
        for (int fy = 0; fy < kheight; ++fy)
          for (int fx = 0; fx < kwidth; ++fx) {
            int iy = y * p.stride_height - p.padding_values.height + fy * dh;
            int ix = x * p.stride_width - p.padding_values.width + fx * dw;
            if (iy >= 0 && iy < in.Dims(1) && ix >= 0 && ix < in.Dims(2))
              memcpy(out, input + Offset(in, b, iy, ix, 0), depth * sizeof(T));
            else
              memset(out, zero_byte, depth * sizeof(T));
            out += depth;
          }
}
template <typename T>
void Im2col(const ConvParams& params, int kheight, int kwidth, uint8_t zero_byte, const RuntimeShape& input_shape,
            const T* input_data, const RuntimeShape& output_shape, T* output_data) {
  VerifIm2col(params, kheight, kwidth, 1, 1, zero_byte, input_shape, input_data, output_shape.Dims(1), output_shape.Dims(2), output_data);
}
template <typename T>
void DilatedIm2col(const ConvParams& params, uint8_t zero_byte, const RuntimeShape& input_shape, const T* input_data,
                   const RuntimeShape& filter_shape, const RuntimeShape& output_shape, T* im2col_data) {
  VerifIm2col(params, filter_shape.Dims(1), filter_shape.Dims(2), params.dilation_height_factor, params.dilation_width_factor,
              zero_byte, input_shape, input_data, output_shape.Dims(1), output_shape.Dims(2), im2col_data);
}
}}
#endif
