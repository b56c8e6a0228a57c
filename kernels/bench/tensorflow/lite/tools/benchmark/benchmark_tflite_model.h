// Stand-in for TensorFlow Lite's benchmark tool: its parameters, flags and parsing, and a
// run that creates the operator resolver and reports what is in it (verif_bench_run).
#pragma once
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/mutable_op_resolver.h"
#include "tensorflow/lite/tools/logging.h"

void RegisterSelectedOps(::tflite::MutableOpResolver* resolver);

namespace tflite {
namespace benchmark {
class BenchmarkParam {
 public:
  template <typename T> static BenchmarkParam Create(const T& v) { std::ostringstream s; s << std::boolalpha << v; return BenchmarkParam{s.str(), false}; }
  std::string text;
  bool set = false;
};
template <typename T> T FromText(const std::string& s);
template <> inline std::string FromText<std::string>(const std::string& s) { return s; }
template <> inline bool FromText<bool>(const std::string& s) { return s == "true"; }
template <> inline int FromText<int>(const std::string& s) { return atoi(s.c_str()); }
class BenchmarkParams {
 public:
  void AddParam(const std::string& n, BenchmarkParam p) { all[n] = std::move(p); }
  bool HasParam(const std::string& n) const { return all.count(n) > 0; }
  template <typename T> void Set(const std::string& n, const T& v) {
    if (!HasParam(n)) abort();
    all[n] = BenchmarkParam::Create<T>(v);
    all[n].set = true;
  }
  template <typename T> T Get(const std::string& n) const {
    auto i = all.find(n);
    if (i == all.end()) { fprintf(stderr, "no parameter %s\n", n.c_str()); abort(); }
    return FromText<T>(i->second.text);
  }
  std::map<std::string, BenchmarkParam> all;
};
struct Flag {
  std::string name;
  std::function<bool(const std::string&)> parse;
};
template <typename T> bool ParseText(const std::string& s, T* v);
template <> inline bool ParseText<std::string>(const std::string& s, std::string* v) { *v = s; return true; }
template <> inline bool ParseText<int>(const std::string& s, int* v) { char* e; *v = (int)strtol(s.c_str(), &e, 10); return !s.empty() && !*e; }
template <> inline bool ParseText<bool>(const std::string& s, bool* v) { *v = s == "true" || s == "1"; return s == "true" || s == "1" || s == "false" || s == "0"; }
template <typename T> Flag CreateFlag(const char* name, BenchmarkParams* params, const std::string& usage) {
  return {name, [params, n = std::string(name)](const std::string& s) {
            T v;
            if (!ParseText<T>(s, &v)) return false;
            params->Set<T>(n, v);
            return true;
          }};
}
#define LOG_BENCHMARK_PARAM(type, name, text, verbose) \
  do { if ((verbose) || params_.all.at(name).set) TFLITE_LOG(INFO) << text << ": [" << params_.Get<type>(name) << "]"; } while (0)
class BenchmarkModel {
 public:
  explicit BenchmarkModel(BenchmarkParams p) : params_(std::move(p)) {}
  virtual ~BenchmarkModel() {}
  virtual std::vector<Flag> GetFlags() { return {CreateFlag<int>("num_threads", &params_, ""), CreateFlag<bool>("verbose", &params_, ""), CreateFlag<bool>("help", &params_, "")}; }
  virtual void LogParams() {}
  static BenchmarkParams DefaultParams() {
    BenchmarkParams p;
    p.AddParam("num_threads", BenchmarkParam::Create<int>(-1));
    p.AddParam("verbose", BenchmarkParam::Create<bool>(false));
    p.AddParam("help", BenchmarkParam::Create<bool>(false));
    return p;
  }
  virtual TfLiteStatus Run();
  TfLiteStatus Run(int argc, char** argv) {
    if (ParseFlags(argc, argv) != kTfLiteOk) return kTfLiteError;
    return Run();
  }
 protected:
  TfLiteStatus ParseFlags(int argc, char** argv) {
    auto flags = GetFlags();
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      size_t eq = a.find('=');
      for (auto& f : flags)
        if (a.substr(0, 2) == "--" && eq != std::string::npos && f.name == a.substr(2, eq - 2) && !f.parse(a.substr(eq + 1))) return kTfLiteError;
    }
    return params_.Get<bool>("help") ? kTfLiteError : kTfLiteOk;
  }
  BenchmarkParams params_;
};
class BenchmarkTfLiteModel : public BenchmarkModel {
 public:
  explicit BenchmarkTfLiteModel(BenchmarkParams p = DefaultParams()) : BenchmarkModel(std::move(p)) {}
  static BenchmarkParams DefaultParams() {
    BenchmarkParams p = BenchmarkModel::DefaultParams();
    p.AddParam("graph", BenchmarkParam::Create<std::string>(""));
    p.AddParam("input_layer", BenchmarkParam::Create<std::string>(""));
    return p;
  }
  std::vector<Flag> GetFlags() override {
    auto f = BenchmarkModel::GetFlags();
    f.push_back(CreateFlag<std::string>("graph", &params_, ""));
    f.push_back(CreateFlag<std::string>("input_layer", &params_, ""));
    return f;
  }
};
}  // namespace benchmark
}  // namespace tflite
// What a run used: the parameters, and a resolver filled by RegisterSelectedOps.
TfLiteStatus verif_bench_run(const tflite::benchmark::BenchmarkParams& params, const tflite::MutableOpResolver& resolver);
namespace tflite {
namespace benchmark {
inline TfLiteStatus BenchmarkModel::Run() {
  LogParams();
  MutableOpResolver r;
  RegisterSelectedOps(&r);
  return verif_bench_run(params_, r);
}
}  // namespace benchmark
}  // namespace tflite
