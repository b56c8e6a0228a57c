#ifndef VERIF_TFLITE_CONTEXT_H_
#define VERIF_TFLITE_CONTEXT_H_
#include "tensorflow/lite/c/common.h"
#endif
