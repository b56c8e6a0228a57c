#ifndef VERIF_TFLITE_OP_MACROS_H_
#define VERIF_TFLITE_OP_MACROS_H_
#include <cstdio>
#include <cstdlib>
#define TFLITE_ABORT abort()
#define TFLITE_ASSERT_FALSE (static_cast<void>(0))
#define TF_LITE_FATAL(msg) do { fprintf(stderr, "%s\n", (msg)); TFLITE_ABORT; } while (0)
#define TF_LITE_ASSERT(x) do { if (!(x)) TF_LITE_FATAL(#x); } while (0)
#define TF_LITE_ASSERT_EQ(x, y) do { if ((x) != (y)) TF_LITE_FATAL(#x " didn't equal " #y); } while (0)
#endif
