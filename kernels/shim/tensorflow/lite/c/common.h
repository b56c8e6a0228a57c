// Stand-in for TensorFlow Lite's C API, written for the checks in /verif. Struct
// layouts follow TF 2.16 so that the same declarations describe the public types.
#ifndef VERIF_TFLITE_C_COMMON_H_
#define VERIF_TFLITE_C_COMMON_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef enum TfLiteStatus {
  kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3, kTfLiteDelegateDataNotFound = 4,
  kTfLiteDelegateDataWriteError = 5, kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7, kTfLiteCancelled = 8,
} TfLiteStatus;

typedef enum {
  kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3,
  kTfLiteInt64 = 4, kTfLiteString = 5, kTfLiteBool = 6, kTfLiteInt16 = 7,
  kTfLiteComplex64 = 8, kTfLiteInt8 = 9, kTfLiteFloat16 = 10,
  kTfLiteFloat64 = 11, kTfLiteComplex128 = 12, kTfLiteUInt64 = 13,
  kTfLiteResource = 14, kTfLiteVariant = 15, kTfLiteUInt32 = 16,
  kTfLiteUInt16 = 17, kTfLiteInt4 = 18,
} TfLiteType;

inline const char* TfLiteTypeGetName(TfLiteType t) {
  switch (t) {
    case kTfLiteNoType: return "NOTYPE"; case kTfLiteFloat32: return "FLOAT32";
    case kTfLiteInt32: return "INT32"; case kTfLiteUInt8: return "UINT8";
    case kTfLiteInt64: return "INT64"; case kTfLiteBool: return "BOOL";
    case kTfLiteInt16: return "INT16"; case kTfLiteInt8: return "INT8";
    case kTfLiteFloat16: return "FLOAT16"; case kTfLiteFloat64: return "FLOAT64";
    default: return "OTHER";
  }
}

typedef struct TfLiteQuantizationParams { float scale; int32_t zero_point; } TfLiteQuantizationParams;
typedef enum TfLiteQuantizationType { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef struct TfLiteQuantization { TfLiteQuantizationType type; void* params; } TfLiteQuantization;

typedef struct TfLiteIntArray { int size; int data[]; } TfLiteIntArray;
typedef struct TfLiteFloatArray { int size; float data[]; } TfLiteFloatArray;
inline TfLiteIntArray* TfLiteIntArrayCreate(int size) {
  TfLiteIntArray* r = (TfLiteIntArray*)malloc(sizeof(TfLiteIntArray) + sizeof(int) * (size_t)(size < 0 ? 0 : size));
  r->size = size;
  return r;
}
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src) {
  if (!src) return nullptr;
  TfLiteIntArray* r = TfLiteIntArrayCreate(src->size);
  memcpy(r->data, src->data, sizeof(int) * src->size);
  return r;
}
inline size_t TfLiteIntArrayGetSizeInBytes(int size) { return sizeof(TfLiteIntArray) + sizeof(int) * (size_t)(size < 0 ? 0 : size); }
inline TfLiteFloatArray* TfLiteFloatArrayCreate(int size) {
  TfLiteFloatArray* r = (TfLiteFloatArray*)malloc(sizeof(TfLiteFloatArray) + sizeof(float) * (size_t)(size < 0 ? 0 : size));
  r->size = size;
  return r;
}
inline void TfLiteFloatArrayFree(TfLiteFloatArray* a) { free(a); }
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
inline int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b) {
  if (a == b) return 1;
  if (!a || !b || a->size != b->size) return 0;
  return memcmp(a->data, b->data, sizeof(int) * a->size) == 0;
}
inline int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int n, const int* b) {
  return a && a->size == n && memcmp(a->data, b, sizeof(int) * n) == 0;
}
typedef struct TfLiteAffineQuantization {
  TfLiteFloatArray* scale; TfLiteIntArray* zero_point; int32_t quantized_dimension;
} TfLiteAffineQuantization;

#define kTfLiteOptionalTensor (-1)

typedef union TfLitePtrUnion {
  int32_t* i32; uint32_t* u32; int64_t* i64; uint64_t* u64; float* f; double* f64;
  char* raw; const char* raw_const; uint8_t* uint8; bool* b; int16_t* i16; uint16_t* ui16;
  int8_t* int8; void* data;
} TfLitePtrUnion;

typedef enum TfLiteAllocationType {
  kTfLiteMemNone = 0, kTfLiteMmapRo, kTfLiteArenaRw, kTfLiteArenaRwPersistent,
  kTfLiteDynamic, kTfLitePersistentRo, kTfLiteCustom, kTfLiteVariantObject,
} TfLiteAllocationType;

typedef int TfLiteBufferHandle;
typedef struct TfLiteSparsity TfLiteSparsity;
typedef struct TfLiteDelegate TfLiteDelegate;

typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type;
  size_t bytes;
  const void* allocation;
  const char* name;
  TfLiteDelegate* delegate;
  TfLiteBufferHandle buffer_handle;
  bool data_is_stale;
  bool is_variable;
  TfLiteQuantization quantization;
  TfLiteSparsity* sparsity;
  const TfLiteIntArray* dims_signature;
} TfLiteTensor;

typedef struct TfLiteNode {
  TfLiteIntArray* inputs;
  TfLiteIntArray* outputs;
  TfLiteIntArray* intermediates;
  TfLiteIntArray* temporaries;
  void* user_data;
  void* builtin_data;
  const void* custom_initial_data;
  int custom_initial_data_size;
  TfLiteDelegate* delegate;
  bool might_have_side_effect;
} TfLiteNode;

typedef enum TfLiteExternalContextType {
  kTfLiteEigenContext = 0, kTfLiteGemmLowpContext = 1, kTfLiteEdgeTpuContext = 2,
  kTfLiteCpuBackendContext = 3, kTfLiteMaxExternalContexts = 4
} TfLiteExternalContextType;
struct TfLiteContext;
typedef struct TfLiteExternalContext {
  TfLiteExternalContextType type;
  TfLiteStatus (*Refresh)(struct TfLiteContext* context);
} TfLiteExternalContext;

struct TfLiteRegistration;
typedef struct TfLiteContext {
  size_t tensors_size;
  TfLiteStatus (*GetExecutionPlan)(struct TfLiteContext*, TfLiteIntArray**);
  TfLiteTensor* tensors;
  void* impl_;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor*, TfLiteIntArray*);
  void (*ReportError)(struct TfLiteContext*, const char* msg, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int tensors_to_add, int* first_new_tensor_index);
  TfLiteStatus (*GetNodeAndRegistration)(struct TfLiteContext*, int, TfLiteNode**, struct TfLiteRegistration**);
  void* ReplaceNodeSubsetsWithDelegateKernels;
  int recommended_num_threads;
  TfLiteExternalContext* (*GetExternalContext)(struct TfLiteContext*, TfLiteExternalContextType);
  void (*SetExternalContext)(struct TfLiteContext*, TfLiteExternalContextType, TfLiteExternalContext*);
  bool allow_fp32_relax_to_fp16;
  void* profiler;
  void* (*AllocatePersistentBuffer)(struct TfLiteContext*, size_t);
  TfLiteStatus (*AllocateBufferForEval)(struct TfLiteContext*, size_t, void**);
  TfLiteStatus (*RequestScratchBufferInArena)(struct TfLiteContext*, size_t, int*);
  void* (*GetScratchBuffer)(struct TfLiteContext*, int);
  TfLiteStatus (*ResizeTensorExplicit)(struct TfLiteContext*, TfLiteTensor*, int, const int*);
  void* PreviewDelegatePartitioning;
  TfLiteTensor* (*GetTensor)(const struct TfLiteContext*, int);
  void* (*GetEvalTensor)(const struct TfLiteContext*, int);
  void* GetModelMetadata;
} TfLiteContext;

typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext* context, const char* buffer, size_t length);
  void (*free)(TfLiteContext* context, void* buffer);
  TfLiteStatus (*prepare)(TfLiteContext* context, TfLiteNode* node);
  TfLiteStatus (*invoke)(TfLiteContext* context, TfLiteNode* node);
  const char* (*profiling_string)(const TfLiteContext* context, const TfLiteNode* node);
  int32_t builtin_code;
  const char* custom_name;
  int version;
  void* registration_external;
  void* async_kernel;
  uint64_t inplace_operator;
} TfLiteRegistration;

#define TF_LITE_KERNEL_LOG(context, ...) \
  do { (context)->ReportError((context), __VA_ARGS__); } while (false)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...) \
  do { if ((context) != nullptr) { (context)->ReportError((context), __VA_ARGS__); } } while (false)
#define TF_LITE_ENSURE_MSG(context, value, ...) \
  do { if (!(value)) { TF_LITE_KERNEL_LOG((context), __FILE__ " " __VA_ARGS__); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE(context, a) \
  do { if (!(a)) { TF_LITE_KERNEL_LOG((context), "%s:%d: %s was not true.", __FILE__, __LINE__, #a); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_STATUS(a) \
  do { const TfLiteStatus s = (a); if (s != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_ENSURE_EQ(context, a, b) \
  do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d: %s != %s (%d != %d)", __FILE__, __LINE__, #a, #b, (int)(a), (int)(b)); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b) \
  do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d: %s != %s (%s != %s)", __FILE__, __LINE__, #a, #b, TfLiteTypeGetName(a), TfLiteTypeGetName(b)); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_NEAR(context, a, b, epsilon) \
  do { auto delta = ((a) > (b)) ? ((a) - (b)) : ((b) - (a)); if (delta > epsilon) { TF_LITE_KERNEL_LOG((context), "%s:%d not near", __FILE__, __LINE__); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_OK(context, status) \
  do { const TfLiteStatus s = (status); if ((s) != kTfLiteOk) { return s; } } while (0)
#endif
