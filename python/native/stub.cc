// The implementation behind tensorflow/lite/*.h here, and what the test reads of it.
#include <cstring>
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "tensorflow/lite/interpreter.h"
#include "tensorflow/lite/kernels/register.h"

namespace tflite {
namespace {
constexpr size_t kGuard = 256;
constexpr uint8_t kFill = 0xA5;
int made = 0;
std::map<int, Interpreter*> live;

struct Reader {
  const char* p;
  const char* end;
  int32_t i() { int32_t v = 0; if (p + 4 > end) abort(); memcpy(&v, p, 4); p += 4; return v; }
  float f() { float v; int32_t x = i(); memcpy(&v, &x, 4); return v; }
  std::vector<int> list() { std::vector<int> r; for (int n = i(); n > 0; --n) r.push_back(i()); return r; }
};
size_t Size(TfLiteType t) {
  switch (t) {
    case kTfLiteFloat32: case kTfLiteInt32: case kTfLiteUInt32: return 4;
    case kTfLiteInt64: case kTfLiteFloat64: case kTfLiteComplex64: return 8;
    case kTfLiteInt16: case kTfLiteFloat16: return 2;
    default: return 1;
  }
}
void Place(Interpreter& it, int i) {
  TfLiteTensor& t = it.tensors_[i];
  size_t n = Size(t.type);
  for (int k = 0; k < t.dims->size; ++k) n *= t.dims->data[k];
  it.memory_[i].assign(n + 2 * kGuard, kFill);
  t.data.raw = (char*)it.memory_[i].data() + kGuard;
  t.bytes = n;
}
// which implementation a resolver holds: 0 default, 1 reference, 2 indirect, -1 none of them or wrong operators
bool Same(const TfLiteRegistration* a, const TfLiteRegistration* b) {
  return a && b && a->init == b->init && a->free == b->free && a->prepare == b->prepare && a->invoke == b->invoke;
}
int Implementation(const MutableOpResolver& r) {
  using namespace compute_engine::tflite;
  if (r.custom_.size() != 4) return -1;
  if (!Same(r.FindOp("LceQuantize", 1), Register_QUANTIZE())) return -1;
  if (!Same(r.FindOp("LceDequantize", 1), Register_DEQUANTIZE())) return -1;
  if (!Same(r.FindOp("LceBMaxPool2d", 1), Register_BMAXPOOL_2D())) return -1;
  auto* c = r.FindOp("LceBconv2d", 1);
  if (Same(c, Register_BCONV_2D_REF())) return 1;
  if (Same(c, Register_BCONV_2D_OPT_INDIRECT_BGEMM())) return 2;
  if (Same(c, Register_BCONV_2D())) return 0;
  return -1;
}
}  // namespace

std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromBuffer(const char* data, size_t size, void*) {
  if (size < 4 || memcmp(data, "VRFY", 4) != 0) return nullptr;
  auto m = std::make_unique<FlatBufferModel>();
  m->data = data;
  m->size = size;
  return m;
}

TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* out, int num_threads) {
  out->reset();
  Reader r{model_.data + 4, model_.data + model_.size};
  int flags = r.i();
  if (flags & 1) return kTfLiteError;
  auto it = std::make_unique<Interpreter>();
  it->flags = flags;
  it->model = &model_;
  it->model_copy.assign(model_.data, model_.size);
  it->threads = num_threads == -1 ? threads_ : num_threads;
  auto* b = dynamic_cast<const ops::builtin::BuiltinOpResolver*>(&resolver_);
  it->resolver = !b ? -100 : (b->delegates() ? 10 : 0) + Implementation(*b);
  int n = r.i();
  it->tensors_.resize(n);
  it->memory_.resize(n);
  it->snap_.resize(n);
  for (int i = 0; i < n; ++i) it->names_.push_back("tensor" + std::to_string(i));
  for (int i = 0; i < n; ++i) {
    TfLiteTensor& t = it->tensors_[i];
    memset(&t, 0, sizeof t);
    t.name = it->names_[i].c_str();
    t.type = (TfLiteType)r.i();
    auto dims = r.list();
    t.dims = TfLiteIntArrayCreate(dims.size());
    for (size_t k = 0; k < dims.size(); ++k) t.dims->data[k] = dims[k];
    int scales = r.i();
    if (scales) {
      auto* q = (TfLiteAffineQuantization*)calloc(1, sizeof(TfLiteAffineQuantization));
      q->scale = (TfLiteFloatArray*)malloc(sizeof(TfLiteFloatArray) + 4 * scales);
      q->scale->size = scales;
      for (int k = 0; k < scales; ++k) q->scale->data[k] = r.f();
      auto z = r.list();
      q->zero_point = TfLiteIntArrayCreate(z.size());
      for (size_t k = 0; k < z.size(); ++k) q->zero_point->data[k] = z[k];
      t.quantization.type = kTfLiteAffineQuantization;
      t.quantization.params = q;
      if (scales == 1) t.params = {q->scale->data[0], z[0]};  // As TensorFlow Lite sets them.
    }
  }
  it->inputs_ = r.list();
  it->outputs_ = r.list();
  *out = std::move(it);
  return kTfLiteOk;
}

Interpreter::Interpreter() { id = made++; live[id] = this; }
Interpreter::~Interpreter() {
  live.erase(id);
  for (auto& m : memory_) std::fill(m.begin(), m.end(), 0xDD);
}
void Interpreter::Resize(int i, const std::vector<int>& dims) {
  TfLiteTensor& t = tensors_[i];
  TfLiteIntArrayFree(t.dims);
  t.dims = TfLiteIntArrayCreate(dims.size());
  for (size_t k = 0; k < dims.size(); ++k) t.dims->data[k] = dims[k];
  Place(*this, i);
}
TfLiteStatus Interpreter::AllocateTensors() {
  if (flags & 2) return kTfLiteError;
  ++allocations;
  for (size_t i = 0; i < tensors_.size(); ++i) Place(*this, i);
  return kTfLiteOk;
}
bool Interpreter::GuardsIntact() const {
  for (auto& m : memory_)
    for (size_t k = 0; k < kGuard && 2 * kGuard <= m.size(); ++k)
      if (m[k] != kFill || m[m.size() - 1 - k] != kFill) return false;
  return true;
}
TfLiteStatus Interpreter::Invoke() {
  ++invokes;
  for (size_t i = 0; i < tensors_.size(); ++i) snap_[i].assign((uint8_t*)tensors_[i].data.raw, (uint8_t*)tensors_[i].data.raw + tensors_[i].bytes);
  if (model->size != model_copy.size() || memcmp(model->data, model_copy.data(), model->size) != 0) flags |= 1024;
  if (flags & 4) return kTfLiteError;
  for (auto& [i, n] : next_) {
    std::vector<int> now(tensors_[i].dims->data, tensors_[i].dims->data + tensors_[i].dims->size);
    if (now != n.dims) Resize(i, n.dims);
    if (tensors_[i].bytes != n.bytes.size()) abort();
    memcpy(tensors_[i].data.raw, n.bytes.data(), n.bytes.size());
  }
  next_.clear();
  return kTfLiteOk;
}
}  // namespace tflite

using tflite::live;
extern "C" {
int v_made() { return tflite::made; }
int v_alive(int id) { return live.count(id); }
int v_threads(int id) { return live.at(id)->threads; }
int v_resolver(int id) { return live.at(id)->resolver; }
int v_invokes(int id) { return live.at(id)->invokes; }
int v_allocations(int id) { return live.at(id)->allocations; }
int v_guards(int id) { return live.at(id)->GuardsIntact(); }
int v_flags(int id) { return live.at(id)->flags; }
void v_set_flags(int id, int f) { live.at(id)->flags = f; }
int v_snap(int id, int i, uint8_t* to, int cap) {
  auto& s = live.at(id)->snap_[i];
  if ((int)s.size() <= cap) std::copy(s.begin(), s.end(), to);
  return s.size();
}
int v_read(int id, int i, uint8_t* to, int cap) {
  auto& t = live.at(id)->tensors_[i];
  if ((int)t.bytes <= cap) memcpy(to, t.data.raw, t.bytes);
  return t.bytes;
}
void v_next(int id, int i, int rank, const int* dims, const char* bytes, int n) {
  live.at(id)->next_[i] = {std::vector<int>(dims, dims + rank), std::string(bytes, n)};
}
}
