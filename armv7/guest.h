// The LCE operators compiled for Armv7, callable from the host's interpreter.
#ifndef VERIF_ARMV7_GUEST_H_
#define VERIF_ARMV7_GUEST_H_
#include "armv7/emu.h"
#include "kernels/lite.h"

namespace a64 { using a32::Fault; }

namespace guest {
using a32::u32;
using a32::u64;
inline bool g_thumb = false;  // which of the two builds
inline a32::Machine& M() {
  static a32::Machine* m[2] = {};
  if (!m[g_thumb]) {
    const char* p = getenv(g_thumb ? "VERIF_T32" : "VERIF_A32");  // image without its suffix
    if (!p) { fprintf(stderr, "VERIF_A32 or VERIF_T32 is not set\n"); exit(3); }
    auto* r = new a32::Machine;
    r->thumb = g_thumb;
    r->Load(p);
    auto u = r->Unknown();
    if (!u.empty()) { fprintf(stderr, "not understood:%s\n", u[0].c_str()); exit(3); }
    m[g_thumb] = r;
  }
  return *m[g_thumb];
}
inline u64& Junk() { static u64 j = 1; return j; }
inline u32 Call(const char* f, std::initializer_list<u32> a) { Junk() += 0x9E3779B9; return M().Call(M().Symbol(f), a, Junk() | 1); }

struct Block { u32 at = 0; size_t n = 0; };
inline std::map<std::pair<const void*, size_t>, Block>& Blocks() { static std::map<std::pair<const void*, size_t>, Block> b; return b; }
inline std::map<const void*, u32>& Backends() { static std::map<const void*, u32> b; return b; }
inline u32& Gone() { static u32 g; return g; }
// A case of its own: nothing is left of what went before.
inline void Reset(bool thumb) {
  g_thumb = thumb;
  M();
  a32::Heap::Get().Reset();
  Blocks().clear();
  Backends().clear();
  Gone() = a32::Heap::Get().Alloc(4096);
  a32::Heap::Get().Free(Gone());
}
inline char* Ptr(u32 a) { return (char*)(u64)a; }
// Where a tensor's bytes are on the guest's side, brought up to date.
inline u32 Place(const TfLiteTensor& t) {
  size_t n = t.bytes + lite::kSlack;
  Block& b = Blocks()[{t.data.raw, n}];
  // Another constant at the same place on the host is another constant.
  if (b.at && t.allocation_type == kTfLiteMmapRo && memcmp(Ptr(b.at), t.data.raw, n)) b = Block();
  if (!b.at) { b.at = a32::Heap::Get().Alloc(n, 64); b.n = n; }
  memcpy(Ptr(b.at), t.data.raw, n);
  return b.at;
}
inline u32 Copy(const void* p, size_t n) {
  u32 a = a32::Heap::Get().Alloc(n);
  if (n) memcpy(Ptr(a), p, n);
  return a;
}
inline TfLiteStatus Run(int kind, bool invoke, TfLiteContext* c, TfLiteNode* n) {
  auto* host = static_cast<tflite::CpuBackendContext*>(c->GetExternalContext(c, kTfLiteCpuBackendContext));
  u32& backend = Backends()[host];
  if (!backend) backend = Call("verif_backend", {});
  const ruy::Schedule& s = host->ruy_context()->ctx()->schedule;
  std::vector<u32> in{backend, (u32)s.threads, s.whole, (u32)s.seed, (u32)(s.seed >> 32), (u32)c->tensors_size};
  auto ints = [&](const TfLiteIntArray* a) { in.push_back(a->size); for (int i = 0; i < a->size; ++i) in.push_back((u32)a->data[i]); };
  std::vector<bool> mine(c->tensors_size);
  for (auto* a : {n->inputs, n->outputs, n->temporaries}) for (int i = 0; i < a->size; ++i) if (a->data[i] >= 0 && a->data[i] < (int)mine.size()) mine[a->data[i]] = true;
  std::map<int, u32> placed;
  for (size_t i = 0; i < c->tensors_size; ++i) {
    const TfLiteTensor& t = c->tensors[i];
    u32 data = 0;
    if (t.data.raw && mine[i] && (invoke || t.allocation_type == kTfLiteMmapRo)) data = placed[i] = Place(t);
    else if (t.data.raw) data = Gone();
    u32 scale;
    memcpy(&scale, &t.params.scale, 4);
    for (u32 x : {(u32)t.type, (u32)t.allocation_type, scale, (u32)t.params.zero_point, (u32)t.bytes, data}) in.push_back(x);
    ints(t.dims);
    in.push_back(t.quantization.type == kTfLiteAffineQuantization);
    if (t.quantization.type == kTfLiteAffineQuantization) {
      auto* q = (TfLiteAffineQuantization*)t.quantization.params;
      in.push_back((u32)q->quantized_dimension);
      ints((TfLiteIntArray*)q->scale);
      ints(q->zero_point);
    }
  }
  ints(n->inputs); ints(n->outputs); ints(n->temporaries); ints(n->intermediates);
  u32 custom = Copy(n->custom_initial_data, n->custom_initial_data_size);
  for (u32 x : {(u32)(u64)n->user_data, custom, (u32)n->custom_initial_data_size}) in.push_back(x);
  u32 from = Copy(in.data(), in.size() * 4), to = a32::Heap::Get().Alloc(8192);
  M().report = [&](const char* m) { c->ReportError(c, "%s", m); };
  TfLiteStatus st = (TfLiteStatus)Call("verif_run", {(u32)kind, invoke, from, to});
  for (auto& p : placed) memcpy(c->tensors[p.first].data.raw, Ptr(p.second), c->tensors[p.first].bytes + lite::kSlack);
  const u32* o = (const u32*)Ptr(to);
  u32 count = *o++;
  if (count > c->tensors_size) { int first; c->AddTensors(c, (int)(count - c->tensors_size), &first); }
  for (u32 i = 0; i < count; ++i) {
    TfLiteTensor& t = c->tensors[i];
    t.type = (TfLiteType)o[0];
    t.allocation_type = (TfLiteAllocationType)o[1];
    t.bytes = o[2];
    TfLiteIntArray* d = TfLiteIntArrayCreate((int)o[3]);
    for (int k = 0; k < d->size; ++k) d->data[k] = (int)o[4 + k];
    TfLiteIntArrayFree(t.dims);
    t.dims = d;
    o += 4 + d->size;
  }
  TfLiteIntArrayFree(n->temporaries);
  n->temporaries = TfLiteIntArrayCreate((int)*o++);
  for (int k = 0; k < n->temporaries->size; ++k) n->temporaries->data[k] = (int)*o++;
  for (u32 p : {custom, from, to}) a32::Heap::Get().Free(p);
  return st;
}

enum { kQuantize, kDequantize, kMaxPool, kRefConv, kBgemmConv, kIndirectConv, kDefaultConv, kCount };
template <int K> struct Thunk {
  static void* Init(TfLiteContext*, const char* b, size_t n) { u32 p = Copy(b, n), r = Call("verif_init", {(u32)K, p, (u32)n}); a32::Heap::Get().Free(p); return (void*)(u64)r; }
  static void Free(TfLiteContext*, void* p) { try { Call("verif_free", {(u32)K, (u32)(u64)p}); } catch (a32::Fault&) {} }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { return Run(K, false, c, n); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { return Run(K, true, c, n); }
  static TfLiteRegistration* Get() {
    static TfLiteRegistration h = [] {
      TfLiteRegistration r;
      memset(&r, 0, sizeof r);
      u32 has = Call("verif_has", {(u32)K});
      r.init = has & 1 ? &Init : nullptr;
      r.free = has & 2 ? &Free : nullptr;
      r.prepare = has & 4 ? &Prepare : nullptr;
      r.invoke = &Invoke;
      return r;
    }();
    return &h;
  }
};
inline TfLiteRegistration* Reg(int k) {
  switch (k) {
    case kQuantize: return Thunk<kQuantize>::Get();
    case kDequantize: return Thunk<kDequantize>::Get();
    case kMaxPool: return Thunk<kMaxPool>::Get();
    case kRefConv: return Thunk<kRefConv>::Get();
    case kBgemmConv: return Thunk<kBgemmConv>::Get();
    case kIndirectConv: return Thunk<kIndirectConv>::Get();
    default: return Thunk<kDefaultConv>::Get();
  }
}
}  // namespace guest
#endif
