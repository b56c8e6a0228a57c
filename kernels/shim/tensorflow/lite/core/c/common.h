#include "tensorflow/lite/c/common.h"
