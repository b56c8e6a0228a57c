#ifndef VERIF_TFLITE_CPU_BACKEND_CONTEXT_H_
#define VERIF_TFLITE_CPU_BACKEND_CONTEXT_H_
#include <memory>
#include "ruy/mini_ruy.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
class CpuBackendContext : public TfLiteExternalContext {
 public:
  CpuBackendContext() { type = kTfLiteCpuBackendContext; Refresh = nullptr; }
  static CpuBackendContext* GetFromContext(TfLiteContext* context) {
    return static_cast<CpuBackendContext*>(context->GetExternalContext(context, kTfLiteCpuBackendContext));
  }
  ruy::Context* ruy_context() const { return const_cast<ruy::Context*>(&ruy_); }
  void SetMaxNumThreads(int n) { ruy_.set_max_num_threads(n); }
  int max_num_threads() const { return ruy_.max_num_threads(); }
  void SetUseCaching(bool) {}
  bool use_caching() const { return false; }
 private:
  ruy::Context ruy_;
};
}  // namespace tflite
#endif
