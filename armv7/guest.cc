// Compiled with the operators for Armv7: sets up the structures they expect from what the
// host sends, and reports what they changed.
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"

namespace compute_engine { namespace tflite {
TfLiteRegistration* Register_QUANTIZE();
TfLiteRegistration* Register_DEQUANTIZE();
TfLiteRegistration* Register_BCONV_2D();
TfLiteRegistration* Register_BCONV_2D_REF();
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM();
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM();
TfLiteRegistration* Register_BMAXPOOL_2D();
}}

extern "C" void verif_report(const char*);
typedef uint32_t W;
static tflite::CpuBackendContext* g_backend;

static TfLiteRegistration* Get(int k) {
  using namespace compute_engine::tflite;
  switch (k) {
    case 0: return Register_QUANTIZE();
    case 1: return Register_DEQUANTIZE();
    case 2: return Register_BMAXPOOL_2D();
    case 3: return Register_BCONV_2D_REF();
    case 4: return Register_BCONV_2D_OPT_BGEMM();
    case 5: return Register_BCONV_2D_OPT_INDIRECT_BGEMM();
    default: return Register_BCONV_2D();
  }
}
static size_t Bytes(const TfLiteTensor* t) {
  size_t n = t->type == kTfLiteFloat32 || t->type == kTfLiteInt32 ? 4 : t->type == kTfLiteInt64 ? 8 : t->type == kTfLiteInt16 ? 2 : 1;
  for (int i = 0; i < t->dims->size; ++i) n *= t->dims->data[i] < 0 ? 0 : t->dims->data[i];
  return n;
}
static TfLiteStatus Resize(TfLiteContext*, TfLiteTensor* t, TfLiteIntArray* dims) {
  if (t->dims != dims) TfLiteIntArrayFree(t->dims);
  t->dims = dims;
  t->bytes = Bytes(t);
  return kTfLiteOk;
}
static void Report(TfLiteContext*, const char* msg, ...) { verif_report(msg); }
static TfLiteStatus AddTensors(TfLiteContext* c, int n, int* first) {
  *first = (int)c->tensors_size;
  if (c->tensors_size + n > 128) abort();
  for (int i = 0; i < n; ++i) {
    TfLiteTensor* t = &c->tensors[c->tensors_size++];
    memset(t, 0, sizeof *t);
    t->dims = TfLiteIntArrayCreate(0);
    t->name = "t";
  }
  return kTfLiteOk;
}
static TfLiteExternalContext* External(TfLiteContext*, TfLiteExternalContextType t) { return t == kTfLiteCpuBackendContext ? g_backend : nullptr; }
static TfLiteIntArray* Ints(const W*& p) {
  TfLiteIntArray* a = TfLiteIntArrayCreate((int)*p++);
  for (int i = 0; i < a->size; ++i) a->data[i] = (int)*p++;
  return a;
}
static void Context(TfLiteContext* c) {
  memset(c, 0, sizeof *c);
  c->ResizeTensor = &Resize;
  c->ReportError = &Report;
  c->AddTensors = &AddTensors;
  c->GetExternalContext = &External;
  c->recommended_num_threads = 1;
}
static float Float(W w) { float f; memcpy(&f, &w, 4); return f; }

extern "C" {
W verif_has(int k) { TfLiteRegistration* r = Get(k); return (r->init ? 1 : 0) | (r->free ? 2 : 0) | (r->prepare ? 4 : 0); }
void* verif_backend() { return new tflite::CpuBackendContext; }
void* verif_init(int k, const char* p, size_t n) {
  TfLiteContext c;
  Context(&c);
  return Get(k)->init(&c, p, n);
}
void verif_free(int k, void* u) {
  TfLiteContext c;
  Context(&c);
  Get(k)->free(&c, u);
}
W verif_run(int k, int invoke, const W* p, W* out) {
  TfLiteContext c;
  Context(&c);
  g_backend = (tflite::CpuBackendContext*)*p++;
  ruy::Schedule s;
  s.threads = (int)*p++;
  s.whole = *p++;
  s.seed = p[0] | (uint64_t)p[1] << 32;
  p += 2;
  g_backend->ruy_context()->ctx()->schedule = s;
  c.tensors_size = *p++;
  c.tensors = (TfLiteTensor*)malloc(128 * sizeof(TfLiteTensor));
  for (size_t i = 0; i < c.tensors_size; ++i) {
    TfLiteTensor* t = &c.tensors[i];
    memset(t, 0, sizeof *t);
    t->type = (TfLiteType)*p++;
    t->allocation_type = (TfLiteAllocationType)*p++;
    t->params.scale = Float(*p++);
    t->params.zero_point = (int)*p++;
    t->bytes = *p++;
    t->data.raw = (char*)*p++;
    t->dims = Ints(p);
    t->name = "t";
    if (*p++) {
      auto* q = (TfLiteAffineQuantization*)malloc(sizeof(TfLiteAffineQuantization));
      q->quantized_dimension = (int)*p++;
      q->scale = (TfLiteFloatArray*)Ints(p);
      q->zero_point = Ints(p);
      t->quantization.type = kTfLiteAffineQuantization;
      t->quantization.params = q;
    }
  }
  TfLiteNode n;
  memset(&n, 0, sizeof n);
  n.inputs = Ints(p);
  n.outputs = Ints(p);
  n.temporaries = Ints(p);
  n.intermediates = Ints(p);
  n.user_data = (void*)*p++;
  n.custom_initial_data = (const void*)*p++;
  n.custom_initial_data_size = (int)*p++;
  W r = (W)(invoke ? Get(k)->invoke(&c, &n) : Get(k)->prepare(&c, &n));
  *out++ = c.tensors_size;
  for (size_t i = 0; i < c.tensors_size; ++i) {
    TfLiteTensor* t = &c.tensors[i];
    *out++ = t->type;
    *out++ = t->allocation_type;
    *out++ = t->bytes;
    *out++ = t->dims->size;
    for (int j = 0; j < t->dims->size; ++j) *out++ = t->dims->data[j];
    TfLiteIntArrayFree(t->dims);
    if (t->quantization.params) {
      auto* q = (TfLiteAffineQuantization*)t->quantization.params;
      free(q->scale);
      TfLiteIntArrayFree(q->zero_point);
      free(q);
    }
  }
  *out++ = n.temporaries->size;
  for (int j = 0; j < n.temporaries->size; ++j) *out++ = n.temporaries->data[j];
  TfLiteIntArrayFree(n.inputs);
  TfLiteIntArrayFree(n.outputs);
  TfLiteIntArrayFree(n.temporaries);
  TfLiteIntArrayFree(n.intermediates);
  free(c.tensors);
  return r;
}
}

// What the operators use of the C++ library's trees; without the balance.
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // the header
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
}
