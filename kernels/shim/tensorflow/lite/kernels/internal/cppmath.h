#ifndef VERIF_TFLITE_CPPMATH_H_
#define VERIF_TFLITE_CPPMATH_H_
#include <cmath>
namespace tflite {
template <class T> inline T TfLiteRound(const T x) { return std::round(x); }
template <class T> inline T TfLiteExpm1(const T x) { return std::expm1(x); }
}  // namespace tflite
#endif
