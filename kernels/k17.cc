// K17 operators release what they take: the memory they hold does not grow with the number
// of resizes, allocations and invocations, and is all released with the interpreter, whether
// the operator ran, was resized or was refused.
#include <sanitizer/allocator_interface.h>
#include "lite.h"

namespace mem {
// What was allocated inside an operator's functions and is not yet released. A table of fixed
// size: it is used by the allocator's hooks.
constexpr size_t kSlots = 1 << 16;
struct Slot { const volatile void* p; size_t n; };
Slot table[kSlots];
size_t live_bytes, live_count, total;
thread_local int inside;
volatile int lock;
struct Guard {
  Guard() { while (__sync_lock_test_and_set(&lock, 1)) {} }
  ~Guard() { __sync_lock_release(&lock); }
};
size_t Home(const volatile void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
void OnMalloc(const volatile void* p, size_t n) {
  if (!inside || !p || ruy::making_threads) return;
  Guard g;
  size_t i = Home(p);
  for (size_t k = 0; k < kSlots; ++k, i = (i + 1) % kSlots)
    if (!table[i].p || table[i].p == (void*)1) {
      table[i] = {p, n};
      live_bytes += n; live_count++; total++;
      return;
    }
  fprintf(stderr, "harness: too many live allocations\n");
  exit(3);
}
void OnFree(const volatile void* p) {
  if (!p || !live_count) return;
  Guard g;
  size_t i = Home(p);
  for (size_t k = 0; k < kSlots && table[i].p; ++k, i = (i + 1) % kSlots)
    if (table[i].p == p) {
      live_bytes -= table[i].n; live_count--;
      table[i].p = (void*)1;
      return;
    }
}
void Reset() {
  Guard g;
  memset(table, 0, sizeof table);
  live_bytes = live_count = total = 0;
}
struct Inside {
  Inside() { inside++; }
  ~Inside() { inside--; }
};
}  // namespace mem

template <int I> struct Wrapped {
  static TfLiteRegistration* real;
  static TfLiteRegistration reg;
  static void* Init(TfLiteContext* c, const char* b, size_t n) { mem::Inside in; return real->init(c, b, n); }
  static void Free(TfLiteContext* c, void* d) { mem::Inside in; real->free(c, d); }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { mem::Inside in; return real->prepare(c, n); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { mem::Inside in; return real->invoke(c, n); }
  static TfLiteRegistration* Get(TfLiteRegistration* (*f)()) {
    if (!real) {
      real = f();
      reg = *real;
      if (real->init) reg.init = Init;
      if (real->free) reg.free = Free;
      if (real->prepare) reg.prepare = Prepare;
      if (real->invoke) reg.invoke = Invoke;
    }
    return &reg;
  }
};
template <int I> TfLiteRegistration* Wrapped<I>::real;
template <int I> TfLiteRegistration Wrapped<I>::reg;
static TfLiteRegistration* WrappedReg(int i);
#define VERIF_REG(i) WrappedReg(i)
#include "case_conv.h"
#include "case_history.h"
#include "case_pool.h"
#include "case_quant.h"
#include "case_refuse.h"

static TfLiteRegistration* WrappedReg(int i) {
  switch (i) {
    case -3: return Wrapped<-3>::Get(lce::Register_QUANTIZE);
    case -2: return Wrapped<-2>::Get(lce::Register_DEQUANTIZE);
    case -1: return Wrapped<-1>::Get(lce::Register_BMAXPOOL_2D);
    case kRef: return Wrapped<kRef>::Get(lce::Register_BCONV_2D_REF);
    case kBgemm: return Wrapped<kBgemm>::Get(lce::Register_BCONV_2D_OPT_BGEMM);
    default: return Wrapped<kIndirect>::Get(lce::Register_BCONV_2D_OPT_INDIRECT_BGEMM);
  }
}

// A network of one to three operators, resized back and forth between a few shapes. Once
// every shape has been seen twice, going through them again must not take more memory.
static const char kHeld[] = "rounds of the same resizes and invocations";
static void CycleCase(Ctx& c) {
  TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
  Conv v = GenConv(c, out, 5000);
  Post p = GenPost(c, v, out);
  Impl impl = c.pick({kIndirect, kBgemm, kRef});
  if (!Supported(v, out, impl)) impl = kRef;
  if (!Supported(v, out, impl)) c.discard();
  Interp it(c.draw(1 << 20));
  TfLiteType in_t = c.pick({kTfLiteFloat32, kTfLiteInt8});
  int x = it.AddTensor(in_t, {v.b, v.h, v.w, v.cin}, kTfLiteArenaRw, 0.5f, 0, in_t == kTfLiteInt8);
  int xq = it.AddTensor(kTfLiteInt32, {1, 1, 1, 1}, kTfLiteArenaRw);
  it.AddNode(RegQuantize(), {x}, {xq}, {});
  int f = it.AddConst<int32_t>(kTfLiteInt32, {v.cout, v.fh, v.fw, v.filter.words}, v.filter.w);
  int m = -1, b = -1, t = -1;
  if (out == kTfLiteInt32) t = it.AddConst<int32_t>(kTfLiteInt32, {v.cout}, p.thr);
  else { m = it.AddConst<float>(kTfLiteFloat32, {v.cout}, p.mul); b = it.AddConst<float>(kTfLiteFloat32, {v.cout}, p.bias); }
  int o = out == kTfLiteInt8 ? it.AddTensor(out, {0}, kTfLiteArenaRw, p.scale, p.zp, true) : it.AddTensor(out, {0}, kTfLiteArenaRw);
  it.AddNode(Reg(impl), {xq, f, m, b, t}, {o}, ConvOptions(v));
  bool tail = out == kTfLiteInt32;
  if (tail) {
    int pooled = it.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
    it.AddNode(RegPool(), {o}, {pooled}, PoolOptions((int)c.range(1, 3), (int)c.range(1, 3), (int)c.range(1, 2), (int)c.range(1, 2), true));
  }
  struct Shape { int b, h, w, runs; bool bad; };
  vector<Shape> shapes;
  int ekh = (v.fh - 1) * v.dh + 1, ekw = (v.fw - 1) * v.dw + 1, n = (int)c.range(1, 4);
  c.desc("%s %s out=%s in=%s:", kImplName[impl], Describe(v).c_str(), TfLiteTypeGetName(out), TfLiteTypeGetName(in_t));
  for (int i = 0; i < n; ++i) {
    Shape s{(int)c.range(1, 3), ekh + (int)c.range(0, 4), ekw + (int)c.range(0, 4), c.weighted({15, 60, 25}), i > 0 && c.coin(15)};
    shapes.push_back(s);
    c.desc(" %dx%dx%d*%d%s", s.b, s.h, s.w, s.runs, s.bad ? "!" : "");
  }
  size_t bytes = 0, count = 0;
  // SetSchedule draws, so once only.
  if (impl == kBgemm) SetSchedule(c, it);
  const int kCycles = 5;
  for (int cycle = 0; cycle < kCycles; ++cycle) {
    size_t before_total = mem::total;
    for (const Shape& s : shapes) {
      // A shape of another rank is refused; the graph recovers with the next good one.
      if (s.bad) {
        it.Resize(x, {s.b, s.h * s.w, v.cin});
        if (it.Allocate() == kTfLiteOk) c.fail("an input of rank 3 was accepted");
        it.log.clear();
        it.log.shrink_to_fit();
        continue;
      }
      it.Resize(x, {s.b, s.h, s.w, v.cin});
      if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
      for (int k = 0; k < s.runs; ++k) {
        memset(it.Data<char>(x), (cycle * 37 + k) & 63, it.T(x).bytes);
        std::string e = it.Invoke({x});
        if (!e.empty()) c.fail("%s", e.c_str());
      }
    }
    if (cycle == 1) { bytes = mem::live_bytes; count = mem::live_count; }
    if (cycle > 1 && (mem::live_bytes > bytes || mem::live_count > count))
      c.fail("after %d %s the operators hold %zu bytes in %zu blocks; after 2 rounds it was %zu in %zu", cycle + 1, kHeld, mem::live_bytes, mem::live_count, bytes, count);
    if (cycle == kCycles - 1 && mem::total - before_total > 0) c.label("allocates in every round");
  }
  if (bytes > 0) c.label("holds memory");
  c.label(kImplName[impl]);
  c.nontrivial(n > 1);
}

static void Body(Ctx& c, int kind) {
  switch (kind) {
    case 0: CycleCase(c); break;
    case 1: RefuseCase(c); break;
    case 2: HistoryCase(c); break;
    case 3: ConvProperty(c, c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32}), 5000); break;
    case 4: PoolCase(c); break;
    default: QuantCase(c); break;
  }
}

PBT_PROPERTY(K17) {
  static bool hooked = [] {
    if (!__sanitizer_install_malloc_and_free_hooks(mem::OnMalloc, mem::OnFree)) { fprintf(stderr, "harness: no allocator hooks\n"); exit(3); }
    return true;
  }();
  (void)hooked;
  static const char* kName[] = {"cycles", "refusals", "histories", "convolutions", "pooling", "quantization"};
  int kind = c.weighted({35, 25, 15, 10, 8, 7});
  mem::Reset();
  mem::inside = 0;
  try {
    Body(c, kind);
  } catch (const pbt::Failure& f) {
    // What the operators compute is for the other checks; the memory must be released then too.
    if (f.msg.find(kHeld) == std::string::npos && f.msg.find("harness") == std::string::npos) c.label("another check's failure");
    else throw;
  }
  // The interpreter is gone.
  if (mem::live_count) {
    c.desc(" [%s]", kName[kind]);
    c.fail("%zu bytes in %zu blocks, of %zu taken by the operators, were not released with the interpreter", mem::live_bytes, mem::live_count, mem::total);
  }
  c.label(kName[kind]);
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
