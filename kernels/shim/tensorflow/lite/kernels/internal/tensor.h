#ifndef VERIF_TFLITE_INTERNAL_TENSOR_H_
#define VERIF_TFLITE_INTERNAL_TENSOR_H_
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
#endif
