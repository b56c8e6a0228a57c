#ifndef VERIF_TFLITE_CPU_BACKEND_GEMM_RUY_H_
#define VERIF_TFLITE_CPU_BACKEND_GEMM_RUY_H_
#include "ruy/mini_ruy.h"
#include "tensorflow/lite/kernels/cpu_backend_gemm_params.h"
namespace tflite { namespace cpu_backend_gemm { namespace detail {
inline ruy::CachePolicy ToRuyCachePolicy(CachePolicy p) {
  switch (p) {
    case CachePolicy::kNeverCache: return ruy::CachePolicy::kNeverCache;
    case CachePolicy::kCacheIfLargeSpeedup: return ruy::CachePolicy::kCacheIfLargeSpeedup;
    case CachePolicy::kAlwaysCache: return ruy::CachePolicy::kAlwaysCache;
  }
  return ruy::CachePolicy::kNeverCache;
}
template <typename Scalar, typename DataPointer>
void MakeRuyMatrix(const MatrixParams<Scalar>& params, DataPointer data_ptr, ruy::Matrix<Scalar>* dst, bool use_caching = false) {
  ruy::Order o = params.order == Order::kColMajor ? ruy::Order::kColMajor : ruy::Order::kRowMajor;
  ruy::MakeSimpleLayout(params.rows, params.cols, o, dst->mutable_layout());
  // The matrix is mutable here, and so is the data pointer's constness preserved.
  dst->set_data(data_ptr);
  dst->set_zero_point(params.zero_point);
  if (use_caching) dst->set_cache_policy(ToRuyCachePolicy(params.cache_policy));
}
}}}
#endif
