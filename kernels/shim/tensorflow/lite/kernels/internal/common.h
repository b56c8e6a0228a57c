#ifndef VERIF_TFLITE_INTERNAL_COMMON_H_
#define VERIF_TFLITE_INTERNAL_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/kernels/internal/compatibility.h"
#include "tensorflow/lite/kernels/internal/cppmath.h"
#include "tensorflow/lite/kernels/internal/types.h"
#endif
