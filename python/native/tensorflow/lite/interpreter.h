// Stand-in for TensorFlow Lite's interpreter, written for the checks in /verif. A
// model is a list of tensors; invoking it gives its tensors the contents that the
// test has asked for. Every tensor lies between guard bytes.
#ifndef VERIF_INTERPRETER_H_
#define VERIF_INTERPRETER_H_
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/model.h"
namespace tflite {
class Interpreter {
 public:
  Interpreter();
  ~Interpreter();
  const std::vector<int>& inputs() const { return inputs_; }
  const std::vector<int>& outputs() const { return outputs_; }
  size_t tensors_size() const { return tensors_.size(); }
  TfLiteTensor* tensor(int i) { return i < 0 || i >= (int)tensors_.size() ? nullptr : &tensors_[i]; }
  const TfLiteTensor* tensor(int i) const { return i < 0 || i >= (int)tensors_.size() ? nullptr : &tensors_[i]; }
  TfLiteTensor* input_tensor(size_t i) { return tensor(inputs_[i]); }
  TfLiteTensor* output_tensor(size_t i) { return tensor(outputs_[i]); }
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
  TfLiteStatus SetNumThreads(int n) { threads = n; return kTfLiteOk; }

  // For the test.
  void Resize(int i, const std::vector<int>& dims);
  bool GuardsIntact() const;
  std::vector<TfLiteTensor> tensors_;
  std::vector<int> inputs_, outputs_;
  std::vector<std::string> names_;
  std::vector<std::vector<uint8_t>> memory_, snap_;
  struct Next { std::vector<int> dims; std::string bytes; };
  std::map<int, Next> next_;
  const FlatBufferModel* model = nullptr;
  std::string model_copy;
  int threads = 0, id = 0, invokes = 0, allocations = 0, flags = 0, resolver = 0;
};
}  // namespace tflite
#endif
