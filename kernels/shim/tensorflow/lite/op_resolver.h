// Only what registering custom operators needs.
#ifndef VERIF_TFLITE_OP_RESOLVER_H_
#define VERIF_TFLITE_OP_RESOLVER_H_
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "tensorflow/lite/c/common.h"
namespace tflite {
class OpResolver {
 public:
  virtual ~OpResolver() {}
};
class MutableOpResolver : public OpResolver {
 public:
  void AddCustom(const char* name, const TfLiteRegistration* registration, int version = 1) {
    TfLiteRegistration r = *registration;
    r.custom_name = name;
    r.version = version;
    custom_[{name, version}] = r;  // A later registration replaces an earlier one.
  }
  void AddCustom(const char* name, const TfLiteRegistration* registration, int min_version, int max_version) {
    for (int v = min_version; v <= max_version; ++v) AddCustom(name, registration, v);
  }
  const TfLiteRegistration* FindOp(const char* name, int version) const {
    auto it = custom_.find({name, version});
    return it == custom_.end() ? nullptr : &it->second;
  }
  std::map<std::pair<std::string, int>, TfLiteRegistration> custom_;
};
}  // namespace tflite
#endif
