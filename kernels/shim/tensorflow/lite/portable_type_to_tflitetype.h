#ifndef VERIF_TFLITE_PORTABLE_TYPE_H_
#define VERIF_TFLITE_PORTABLE_TYPE_H_
#include <cstdint>
#include "tensorflow/lite/c/common.h"
namespace tflite {
template <typename T> constexpr TfLiteType typeToTfLiteType() { return kTfLiteNoType; }
template <TfLiteType T> struct TfLiteTypeToType {};
#define VERIF_MATCH(CPP, ENUM) \
  template <> inline constexpr TfLiteType typeToTfLiteType<CPP>() { return ENUM; } \
  template <> struct TfLiteTypeToType<ENUM> { using Type = CPP; }
VERIF_MATCH(int32_t, kTfLiteInt32); VERIF_MATCH(uint32_t, kTfLiteUInt32);
VERIF_MATCH(int16_t, kTfLiteInt16); VERIF_MATCH(uint16_t, kTfLiteUInt16);
VERIF_MATCH(int64_t, kTfLiteInt64); VERIF_MATCH(float, kTfLiteFloat32);
VERIF_MATCH(unsigned char, kTfLiteUInt8); VERIF_MATCH(int8_t, kTfLiteInt8);
VERIF_MATCH(bool, kTfLiteBool); VERIF_MATCH(uint64_t, kTfLiteUInt64);
VERIF_MATCH(double, kTfLiteFloat64);
#undef VERIF_MATCH
}  // namespace tflite
#endif
