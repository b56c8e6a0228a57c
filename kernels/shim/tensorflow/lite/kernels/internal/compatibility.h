#ifndef VERIF_TFLITE_COMPATIBILITY_H_
#define VERIF_TFLITE_COMPATIBILITY_H_
#include <cstdint>
#include "tensorflow/lite/kernels/op_macros.h"
// Debug assertions are off in the builds users run, and so they are here unless
// the harness is compiled with VERIF_DCHECK.
#ifdef VERIF_DCHECK
#define TFLITE_DCHECK(c) do { if (!(c)) TF_LITE_FATAL("DCHECK " #c); } while (0)
#else
#define TFLITE_DCHECK(c) do { if (false) { (void)(c); } } while (0)
#endif
#define TFLITE_DCHECK_EQ(x, y) TFLITE_DCHECK((x) == (y))
#define TFLITE_DCHECK_NE(x, y) TFLITE_DCHECK((x) != (y))
#define TFLITE_DCHECK_GE(x, y) TFLITE_DCHECK((x) >= (y))
#define TFLITE_DCHECK_GT(x, y) TFLITE_DCHECK((x) > (y))
#define TFLITE_DCHECK_LE(x, y) TFLITE_DCHECK((x) <= (y))
#define TFLITE_DCHECK_LT(x, y) TFLITE_DCHECK((x) < (y))
#define TFLITE_CHECK(c) do { if (!(c)) TFLITE_ABORT; } while (0)
#define TFLITE_CHECK_EQ(x, y) TFLITE_CHECK((x) == (y))
#define TFLITE_CHECK_NE(x, y) TFLITE_CHECK((x) != (y))
#define TFLITE_CHECK_GE(x, y) TFLITE_CHECK((x) >= (y))
#define TFLITE_CHECK_GT(x, y) TFLITE_CHECK((x) > (y))
#define TFLITE_CHECK_LE(x, y) TFLITE_CHECK((x) <= (y))
#define TFLITE_CHECK_LT(x, y) TFLITE_CHECK((x) < (y))
#endif
