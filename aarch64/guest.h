// The LCE operators compiled for AArch64, callable from the host's interpreter.
#ifndef VERIF_AARCH64_GUEST_H_
#define VERIF_AARCH64_GUEST_H_
#include "aarch64/emu.h"
#include "tensorflow/lite/c/common.h"

namespace guest {
using a64::u64;
inline a64::Machine& M() {
  static a64::Machine* m = [] {
    const char* p = getenv("VERIF_A64");  // image without its suffix
    if (!p) { fprintf(stderr, "VERIF_A64 is not set\n"); exit(3); }
    std::string s = p;
    auto* r = new a64::Machine;
    r->Load(s + ".elf", s + ".dis", s + ".sym", s + ".stubs");
    auto u = r->Unknown();
    if (!u.empty()) { fprintf(stderr, "not understood:%s\n", u[0].c_str()); exit(3); }
    return r;
  }();
  return *m;
}
inline u64& Junk() { static u64 j = 1; return j; }
inline u64 Arg(const void* p) { return (u64)p; }
inline u64 Arg(size_t n) { return n; }
template <typename... A> u64 Call(u64 f, A... a) { Junk() += 0x9E3779B9; return M().Call(f, {Arg(a)...}, Junk() | 1); }

enum { kQuantize, kDequantize, kMaxPool, kRefConv, kBgemmConv, kIndirectConv, kDefaultConv, kCount };
inline const char* Name(int k) {
  static const char* n[] = {"_ZN14compute_engine6tflite17Register_QUANTIZEEv", "_ZN14compute_engine6tflite19Register_DEQUANTIZEEv", "_ZN14compute_engine6tflite20Register_BMAXPOOL_2DEv",
                            "_ZN14compute_engine6tflite21Register_BCONV_2D_REFEv", "_ZN14compute_engine6tflite27Register_BCONV_2D_OPT_BGEMMEv",
                            "_ZN14compute_engine6tflite36Register_BCONV_2D_OPT_INDIRECT_BGEMMEv", "_ZN14compute_engine6tflite17Register_BCONV_2DEv"};
  return n[k];
}
template <int K> struct Thunk {
  static TfLiteRegistration& guest() {
    static TfLiteRegistration r = *(TfLiteRegistration*)Call(M().Symbol(Name(K)));
    return r;
  }
  static void* Init(TfLiteContext* c, const char* b, size_t n) { return (void*)Call((u64)guest().init, c, b, n); }
  static void Free(TfLiteContext* c, void* p) { try { Call((u64)guest().free, c, p); } catch (a64::Fault&) {} }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { return (TfLiteStatus)(int)Call((u64)guest().prepare, c, n); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { return (TfLiteStatus)(int)Call((u64)guest().invoke, c, n); }
  static TfLiteRegistration* Get() {
    static TfLiteRegistration h = [] {
      TfLiteRegistration r = guest();
      r.init = r.init ? &Init : nullptr;
      r.free = r.free ? &Free : nullptr;
      r.prepare = r.prepare ? &Prepare : nullptr;
      r.invoke = &Invoke;
      return r;
    }();
    return &h;
  }
};
inline TfLiteRegistration* Reg(int k) {
  switch (k) {
    case kQuantize: return Thunk<kQuantize>::Get();
    case kDequantize: return Thunk<kDequantize>::Get();
    case kMaxPool: return Thunk<kMaxPool>::Get();
    case kRefConv: return Thunk<kRefConv>::Get();
    case kBgemmConv: return Thunk<kBgemmConv>::Get();
    case kIndirectConv: return Thunk<kIndirectConv>::Get();
    default: return Thunk<kDefaultConv>::Get();
  }
}
}  // namespace guest
#endif
