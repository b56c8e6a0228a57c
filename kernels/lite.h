// A miniature TensorFlow Lite interpreter for the LCE operators: tensors in
// separately allocated guarded buffers (at most LCE_EXTRA_BYTES may be read past
// the end, nothing may be written outside), arbitrary prior buffer contents,
// fresh addresses after every AllocateTensors, constants and inputs checked to be
// unchanged by an invocation.
#ifndef VERIF_LITE_H_
#define VERIF_LITE_H_
#include <cstdarg>
#include <memory>
#include <string>
#include <vector>
#include "../common/pbt.h"
#include "flatbuffers/flexbuffers.h"
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"

namespace compute_engine { namespace tflite {
TfLiteRegistration* Register_QUANTIZE();
TfLiteRegistration* Register_DEQUANTIZE();
TfLiteRegistration* Register_BCONV_2D();
TfLiteRegistration* Register_BCONV_2D_REF();
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM();
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM();
TfLiteRegistration* Register_BMAXPOOL_2D();
}}

namespace lite {
#ifndef VERIF_SLACK
#define VERIF_SLACK 16
#endif
constexpr size_t kSlack = VERIF_SLACK;

struct Guarded {
  char* p = nullptr;
  size_t n = 0;
  std::vector<char> slack;
  Guarded() {}
  Guarded(const Guarded&) = delete;
  Guarded& operator=(const Guarded&) = delete;
  ~Guarded() { free(p); }
  void Alloc(size_t bytes, pbt::Rng& r) {
    free(p);
    n = bytes;
    void* q = nullptr;
    if (posix_memalign(&q, 64, n + kSlack) != 0) abort();
    p = (char*)q;
    for (size_t i = 0; i < n + kSlack; ++i) p[i] = (char)r.next();
    slack.assign(p + n, p + n + kSlack);
  }
  bool SlackIntact() const { return p == nullptr || memcmp(slack.data(), p + n, kSlack) == 0; }
};

inline size_t TypeSize(TfLiteType t) {
  switch (t) {
    case kTfLiteFloat32: case kTfLiteInt32: return 4;
    case kTfLiteInt64: return 8;
    case kTfLiteInt16: return 2;
    default: return 1;
  }
}

class Interp {
 public:
  struct Node { const TfLiteRegistration* reg; TfLiteNode n; std::vector<uint8_t> custom; };

  explicit Interp(uint64_t junk_seed) : junk_(junk_seed) {
    memset(&ctx_, 0, sizeof ctx_);
    tensors_.reserve(64);
    ctx_.impl_ = this;
    ctx_.ResizeTensor = &ResizeTensorFn;
    ctx_.ReportError = &ReportErrorFn;
    ctx_.AddTensors = &AddTensorsFn;
    ctx_.GetExternalContext = &GetExternalContextFn;
    ctx_.recommended_num_threads = 1;
    Sync();
  }
  ~Interp() {
    for (auto& n : nodes_) {
      if (n->reg->free && n->n.user_data) n->reg->free(&ctx_, n->n.user_data);
      TfLiteIntArrayFree(n->n.inputs); TfLiteIntArrayFree(n->n.outputs);
      TfLiteIntArrayFree(n->n.temporaries); TfLiteIntArrayFree(n->n.intermediates);
    }
    for (auto& t : tensors_) {
      TfLiteIntArrayFree(t.dims);
      FreeQuant(t);
    }
  }
  int AddTensor(TfLiteType type, const std::vector<int>& dims, TfLiteAllocationType at, float scale = 0, int zp = 0, bool affine = false) {
    TfLiteTensor t;
    memset(&t, 0, sizeof t);
    t.type = type;
    t.dims = TfLiteIntArrayCreate((int)dims.size());
    for (size_t i = 0; i < dims.size(); ++i) t.dims->data[i] = dims[i];
    t.allocation_type = at;
    t.params.scale = scale;
    t.params.zero_point = zp;
    t.bytes = Bytes(t);
    if (affine) {
      auto* q = (TfLiteAffineQuantization*)malloc(sizeof(TfLiteAffineQuantization));
      q->scale = (TfLiteFloatArray*)malloc(sizeof(TfLiteFloatArray) + sizeof(float));
      q->scale->size = 1; q->scale->data[0] = scale;
      q->zero_point = TfLiteIntArrayCreate(1); q->zero_point->data[0] = zp;
      q->quantized_dimension = 0;
      t.quantization.type = kTfLiteAffineQuantization;
      t.quantization.params = q;
    }
    t.name = "t";
    tensors_.push_back(t);
    mem_.emplace_back(new Guarded);
    if (at == kTfLiteMmapRo) { mem_.back()->Alloc(t.bytes, junk_); tensors_.back().data.raw = mem_.back()->p; }
    Sync();
    return (int)tensors_.size() - 1;
  }
  template <typename T> int AddConst(TfLiteType type, const std::vector<int>& dims, const std::vector<T>& v) {
    int id = AddTensor(type, dims, kTfLiteMmapRo);
    if (tensors_[id].bytes != v.size() * sizeof(T)) { fprintf(stderr, "harness: bad constant size\n"); exit(3); }
    if (!v.empty()) memcpy(tensors_[id].data.raw, v.data(), v.size() * sizeof(T));
    return id;
  }
  int AddNode(const TfLiteRegistration* reg, const std::vector<int>& in, const std::vector<int>& out, const std::vector<uint8_t>& custom) {
    auto n = std::make_unique<Node>();
    n->reg = reg;
    n->custom = custom;
    memset(&n->n, 0, sizeof n->n);
    n->n.inputs = Arr(in); n->n.outputs = Arr(out);
    n->n.temporaries = TfLiteIntArrayCreate(0); n->n.intermediates = TfLiteIntArrayCreate(0);
    n->n.custom_initial_data = n->custom.data();
    n->n.custom_initial_data_size = (int)n->custom.size();
    // A custom operator gets its options in a buffer of exactly their size.
    if (reg->init) {
      std::vector<char> exact(n->custom.begin(), n->custom.end());
      exact.shrink_to_fit();
      n->n.user_data = reg->init(&ctx_, exact.data(), exact.size());
    }
    nodes_.push_back(std::move(n));
    return (int)nodes_.size() - 1;
  }
  void Resize(int id, const std::vector<int>& dims) {
    TfLiteIntArrayFree(tensors_[id].dims);
    tensors_[id].dims = Arr(dims);
    tensors_[id].bytes = Bytes(tensors_[id]);
    allocated_ = false;
  }
  TfLiteStatus Allocate() {
    for (auto& n : nodes_) {
      if (n->reg->prepare) {
        TfLiteStatus s = n->reg->prepare(&ctx_, &n->n);
        if (s != kTfLiteOk) return s;
      }
    }
    // New addresses: allocate everything before releasing what was there.
    std::vector<std::unique_ptr<Guarded>> old;
    for (size_t i = 0; i < tensors_.size(); ++i) {
      TfLiteTensor& t = tensors_[i];
      if (t.allocation_type != kTfLiteArenaRw) continue;
      for (int k = 0; k < t.dims->size; ++k)
        if (t.dims->data[k] < 0) return kTfLiteError;
      auto g = std::make_unique<Guarded>();
      t.bytes = Bytes(t);
      g->Alloc(t.bytes, junk_);
      t.data.raw = g->p;
      old.push_back(std::move(mem_[i]));
      mem_[i] = std::move(g);
    }
    for (auto& g : old)  // poison what the previous arena held
      if (g->p) memset(g->p, 0xEE, g->n);
    allocated_ = true;
    return kTfLiteOk;
  }
  // Returns a problem, or an empty string.
  std::string Invoke(const std::vector<int>& graph_inputs) {
    if (!allocated_) return "harness: invoke before allocate";
    std::vector<bool> produced(tensors_.size(), false), keep(tensors_.size(), false);
    for (int i : graph_inputs) keep[i] = true;
    for (size_t i = 0; i < tensors_.size(); ++i)
      if (tensors_[i].allocation_type == kTfLiteMmapRo) keep[i] = true;
    // Whatever is neither an input nor a constant holds arbitrary bytes before it is written.
    for (size_t i = 0; i < tensors_.size(); ++i)
      if (!keep[i] && mem_[i]->p)
        for (size_t k = 0; k < mem_[i]->n; ++k) mem_[i]->p[k] = (char)junk_.next();
    std::vector<std::vector<char>> snap(tensors_.size());
    for (size_t i = 0; i < tensors_.size(); ++i)
      if (keep[i] && mem_[i]->p) snap[i].assign(mem_[i]->p, mem_[i]->p + mem_[i]->n);
    for (size_t k = 0; k < nodes_.size(); ++k) {
      Node& n = *nodes_[k];
      TfLiteStatus s = n.reg->invoke(&ctx_, &n.n);
      if (s != kTfLiteOk) return "node " + std::to_string(k) + " failed to run";
      for (int i = 0; i < n.n.outputs->size; ++i) {
        int id = n.n.outputs->data[i];
        keep[id] = true;
        snap[id].assign(mem_[id]->p, mem_[id]->p + mem_[id]->n);
      }
      for (size_t i = 0; i < tensors_.size(); ++i) {
        if (!mem_[i]->SlackIntact()) return "node " + std::to_string(k) + " wrote past the end of tensor " + std::to_string(i);
        if (!snap[i].empty() && memcmp(snap[i].data(), mem_[i]->p, mem_[i]->n) != 0)
          return "node " + std::to_string(k) + " changed tensor " + std::to_string(i) + " which it does not produce";
      }
    }
    return "";
  }
  void Rejunk(uint64_t seed) { junk_ = pbt::Rng(seed); }
  TfLiteTensor& T(int id) { return tensors_[id]; }
  template <typename V> V* Data(int id) { return reinterpret_cast<V*>(tensors_[id].data.raw); }
  std::vector<int> Dims(int id) { auto* d = tensors_[id].dims; return std::vector<int>(d->data, d->data + d->size); }
  std::vector<char> Raw(int id) { return std::vector<char>(mem_[id]->p, mem_[id]->p + mem_[id]->n); }
  TfLiteContext* context() { return &ctx_; }
  Node& node(int i) { return *nodes_[i]; }
  tflite::CpuBackendContext backend;
  std::string log;

 private:
  static size_t Bytes(const TfLiteTensor& t) {
    size_t n = TypeSize(t.type);
    for (int i = 0; i < t.dims->size; ++i) n *= (size_t)std::max(0, t.dims->data[i]);
    return n;
  }
  static TfLiteIntArray* Arr(const std::vector<int>& v) {
    TfLiteIntArray* a = TfLiteIntArrayCreate((int)v.size());
    for (size_t i = 0; i < v.size(); ++i) a->data[i] = v[i];
    return a;
  }
  static void FreeQuant(TfLiteTensor& t) {
    if (t.quantization.type != kTfLiteAffineQuantization) return;
    auto* q = (TfLiteAffineQuantization*)t.quantization.params;
    free(q->scale); TfLiteIntArrayFree(q->zero_point); free(q);
  }
  void Sync() { ctx_.tensors = tensors_.data(); ctx_.tensors_size = tensors_.size(); }
  static Interp* Self(TfLiteContext* c) { return (Interp*)c->impl_; }
  static TfLiteStatus ResizeTensorFn(TfLiteContext* c, TfLiteTensor* t, TfLiteIntArray* dims) {
    (void)c;
    if (t->dims != dims) TfLiteIntArrayFree(t->dims);
    t->dims = dims;
    t->bytes = Bytes(*t);
    return kTfLiteOk;
  }
  static void ReportErrorFn(TfLiteContext* c, const char* msg, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, msg);
    vsnprintf(buf, sizeof buf, msg, ap);
    va_end(ap);
    Self(c)->log += buf;
    Self(c)->log += "\n";
  }
  static TfLiteStatus AddTensorsFn(TfLiteContext* c, int n, int* first) {
    Interp* s = Self(c);
    *first = (int)s->tensors_.size();
    if (s->tensors_.size() + n > s->tensors_.capacity()) { fprintf(stderr, "harness: too many tensors\n"); exit(3); }
    for (int i = 0; i < n; ++i) s->AddTensor(kTfLiteNoType, {}, kTfLiteMemNone);
    return kTfLiteOk;
  }
  static TfLiteExternalContext* GetExternalContextFn(TfLiteContext* c, TfLiteExternalContextType t) {
    return t == kTfLiteCpuBackendContext ? &Self(c)->backend : nullptr;
  }
  TfLiteContext ctx_;
  std::vector<TfLiteTensor> tensors_;
  std::vector<std::unique_ptr<Guarded>> mem_;
  std::vector<std::unique_ptr<Node>> nodes_;
  pbt::Rng junk_;
  bool allocated_ = false;
};
}  // namespace lite
#endif
