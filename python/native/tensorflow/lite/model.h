#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_
#include <memory>
#include <string>
#include "tensorflow/lite/op_resolver.h"
namespace tflite {
class Interpreter;
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* data, size_t size, void* reporter = nullptr);
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromBuffer(const char* data, size_t size, void* verifier = nullptr, void* reporter = nullptr) { return BuildFromBuffer(data, size); }
  const char* data = nullptr;
  size_t size = 0;
};
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& m, const OpResolver& r) : model_(m), resolver_(r) {}
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out) { return (*this)(out, -1); }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out, int num_threads);
  TfLiteStatus SetNumThreads(int n) { threads_ = n; return kTfLiteOk; }
 private:
  const FlatBufferModel& model_;
  const OpResolver& resolver_;
  int threads_ = -1;
};
}  // namespace tflite
#endif
