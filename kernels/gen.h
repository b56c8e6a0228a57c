// Generators, operator builders and output checks shared by K01..K12: the LCE
// operators of /repo, compiled with stand-ins for TFLite and ruy, against the models
// in model.h.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include <algorithm>
#include <cinttypes>
#include <cstring>
#include <limits>
#include <string>
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "lite.h"
#include "model.h"

using lite::Interp;
using model::Conv;
using model::Packed;
using pbt::Ctx;
using std::vector;
namespace lce = compute_engine::tflite;

// ------------------------------------------------------------------ generators

static void FillBits(Ctx& c, Packed* p) {
  int mode = c.weighted({60, 8, 8, 12, 12});
  pbt::Rng r = c.bulk();
  for (int i = 0; i < p->rows; ++i)
    for (int j = 0; j < p->cols; ++j) {
      bool b = false;
      switch (mode) {
        case 0: b = r.next() & 1; break;
        case 1: b = false; break;
        case 2: b = true; break;
        case 3: b = r.below(16) == 0; break;
        case 4: b = r.below(16) != 0; break;
      }
      p->set(i, j, b);
    }
}

enum Impl { kRef, kBgemm, kIndirect };
static const char* kImplName[] = {"reference", "bgemm", "indirect"};
#ifndef VERIF_REG
static TfLiteRegistration* RegQuantize() { return lce::Register_QUANTIZE(); }
static TfLiteRegistration* RegDequantize() { return lce::Register_DEQUANTIZE(); }
static TfLiteRegistration* RegPool() { return lce::Register_BMAXPOOL_2D(); }
static TfLiteRegistration* Reg(Impl i) {
  return i == kRef ? lce::Register_BCONV_2D_REF() : i == kBgemm ? lce::Register_BCONV_2D_OPT_BGEMM() : lce::Register_BCONV_2D_OPT_INDIRECT_BGEMM();
}
#else
static TfLiteRegistration* RegQuantize() { return VERIF_REG(-3); }
static TfLiteRegistration* RegDequantize() { return VERIF_REG(-2); }
static TfLiteRegistration* RegPool() { return VERIF_REG(-1); }
static TfLiteRegistration* Reg(Impl i) { return VERIF_REG(i); }
#endif

// One dimension far beyond the usual sizes, at up to VERIF_STRETCH times the usual cost.
#ifndef VERIF_STRETCH
#define VERIF_STRETCH 25
#endif
static void Stretch(Ctx& c, Conv& v, long* most) {
  switch (c.weighted({25, 15, 15, 15, 10, 8, 6, 6, VERIF_STRETCH > 10 ? 4 : 0})) {
    case 0:  // input channels
      v.cin = v.groups > 1 ? v.groups * 32 * (int)c.range(8, 64) : c.coin() ? (int)c.range(300, 9000) : 32 * (int)c.range(10, 300);
      v.cout = v.groups * (int)c.range(1, 9);
      v.b = 1; v.h = std::min(v.h, v.same ? 3 : v.h); v.w = std::min(v.w, v.same ? 3 : v.w);
      break;
    case 1:  // output channels
      v.cout = v.groups * (int)c.range(80, 1100) / (v.groups > 1 ? 4 : 1) / v.groups * v.groups;
      if (v.cout < v.groups) v.cout = v.groups;
      v.b = 1; v.fh = std::min(v.fh, 2); v.fw = std::min(v.fw, 2); v.cin = std::min(v.cin, v.groups * 64);
      v.h = std::min(v.h, v.same ? 2 : (v.fh - 1) * v.dh + 2); v.w = std::min(v.w, v.same ? 2 : (v.fw - 1) * v.dw + 2);
      break;
    case 2:  // a wide or high image
      v.cin = std::min(v.cin, v.groups * 64); v.cout = v.groups * (int)c.range(1, 4); v.b = 1;
      if (c.coin()) { v.w = (int)c.range(30, 600); v.h = std::min(v.h, v.same ? 2 : (v.fh - 1) * v.dh + 1); }
      else { v.h = (int)c.range(30, 600); v.w = std::min(v.w, v.same ? 2 : (v.fw - 1) * v.dw + 1); }
      break;
    case 3:  // a large filter
      v.fh = (int)c.range(1, 20); v.fw = (int)c.range(1, 20);
      v.cin = std::min(v.cin, v.groups * 64); v.cout = v.groups * (int)c.range(1, 6); v.b = 1;
      if (!v.same || c.coin()) { v.h = (v.fh - 1) * v.dh + (int)c.range(1, 4); v.w = (v.fw - 1) * v.dw + (int)c.range(1, 4); }
      break;
    case 4: v.b = (int)c.range(4, 80); v.cout = v.groups * (int)c.range(1, 4); v.h = std::min(v.h, v.same ? 3 : v.h); v.w = std::min(v.w, v.same ? 3 : v.w); break;  // batch
    case 5: v.sh = (int)c.range(1, 20); v.sw = (int)c.range(1, 20); v.h += (int)c.range(0, 30); v.w += (int)c.range(0, 30); break;
    case 6:  // dilation
      v.dh = (int)c.range(1, 15); v.dw = (int)c.range(1, 15);
      if (!v.same || c.coin()) { v.h = (v.fh - 1) * v.dh + (int)c.range(1, 5); v.w = (v.fw - 1) * v.dw + (int)c.range(1, 5); }
      break;
    case 7:  // groups
      v.groups = (int)c.range(2, 40); v.cin = v.groups * 32 * (int)c.range(1, 2); v.cout = v.groups * (int)c.range(1, 5);
      v.fh = std::min(v.fh, 3); v.fw = std::min(v.fw, 3); v.b = 1;
      break;
    case 8:  // more pixels than 16 bits count
      v.groups = 1; v.cin = (int)c.range(1, 16); v.cout = (int)c.range(1, 2); v.b = (int)c.range(1, 2);
      v.fh = (int)c.range(1, 2); v.fw = 1; v.sh = v.sw = v.dh = v.dw = 1;
      v.h = (int)c.range(150, 400); v.w = (int)c.range(150, 400);
      *most *= 4;
      break;
  }
  if (!v.same) { v.h = std::max(v.h, (v.fh - 1) * v.dh + 1); v.w = std::max(v.w, (v.fw - 1) * v.dw + 1); }
}

// Percentage of convolutions at the block sizes of the hand-written kernels: any number of
// words, few pixels.
static int g_blocks = 0;

// A convolution whose cost stays below `budget` bit operations.
static Conv GenConv(Ctx& c, TfLiteType out, long budget, bool any_pad0 = true) {
  Conv v;
  v.fh = (int)c.range(1, c.coin(70) ? 3 : 5);
  v.fw = (int)c.range(1, c.coin(70) ? 3 : 5);
  v.sh = (int)c.range(1, c.coin(80) ? 2 : 4);
  v.sw = (int)c.range(1, c.coin(80) ? 2 : 4);
  if (c.coin(30)) { v.dh = (int)c.range(1, 3); v.dw = (int)c.range(1, 3); }
  v.same = c.coin(60);
  v.groups = c.weighted({70, 15, 10, 5}) + 1;
  if (v.groups > 1) {
    v.cin = v.groups * 32 * (c.coin(88) ? (int)c.range(1, c.coin(70) ? 2 : 5) : (int)c.pick({6, 7, 8, 10, 12}));
    v.cout = v.groups * (int)c.range(1, c.coin(80) ? 12 : 40);
  } else {
    switch (c.weighted({40, 40, 20})) {
      case 0: v.cin = 32 * (c.coin(80) ? (int)c.range(1, 5) : (int)c.pick({6, 7, 8, 10, 12, 16})); break;
      case 1: v.cin = (int)c.range(1, 100); break;
      case 2: v.cin = (int)c.pick({1, 31, 33, 63, 65, 96, 127, 129, 160, 190, 255, 256, 300}); break;
    }
    switch (c.weighted({50, 25, 25})) {
      case 0: v.cout = (int)c.range(1, 20); break;
      case 1: v.cout = (int)c.pick({1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65}); break;
      case 2: v.cout = (int)c.range(1, 80); break;
    }
  }
  // input size: around the effective filter size, or larger
  int ekh = (v.fh - 1) * v.dh + 1, ekw = (v.fw - 1) * v.dw + 1;
  if (v.same) {
    v.h = (int)c.range(1, c.coin(70) ? 6 : 12);
    v.w = (int)c.range(1, c.coin(70) ? 6 : 12);
  } else {
    v.h = ekh + (int)c.range(0, c.coin(70) ? 5 : 9);
    v.w = ekw + (int)c.range(0, c.coin(70) ? 5 : 9);
  }
  v.b = 1 + c.weighted({70, 20, 10});
  if (g_blocks && c.coin(g_blocks)) {
    v.fh = (int)c.range(1, 2); v.fw = (int)c.range(1, 3); v.b = 1;
    v.cin = v.groups * 32 * (int)c.range(1, 14);
    if (v.groups == 1 && c.coin(20)) v.cin -= (int)c.range(1, 31);
    v.cout = v.groups * (int)c.range(1, 18);
    ekh = (v.fh - 1) * v.dh + 1; ekw = (v.fw - 1) * v.dw + 1;
    v.h = (v.same ? 0 : ekh - 1) + (int)c.range(1, 2); v.w = (v.same ? 0 : ekw - 1) + (int)c.range(1, 8);
    budget *= 2;
    c.label("blocks");
  } else if (VERIF_STRETCH && c.coin(4)) {
    long most = 1500000;
    Stretch(c, v, &most);
    budget = std::min(budget * VERIF_STRETCH, 1500000l) * (most / 1500000);
    ekh = (v.fh - 1) * v.dh + 1; ekw = (v.fw - 1) * v.dw + 1;
    c.label("stretched");
  }
  auto cost = [&] { return (long)v.b * v.oh() * v.ow() * v.cout * v.fh * v.fw * std::max(16, v.cpg()); };
  while (cost() > budget) {
    if (v.b > 1) v.b--;
    else if (v.cout / v.groups > 4) v.cout = v.groups * (v.cout / v.groups / 2);
    else if (v.h > ekh && v.h > 2) v.h--;
    else if (v.w > ekw && v.w > 2) v.w--;
    else if (v.fh > 1) { v.fh--; ekh = (v.fh - 1) * v.dh + 1; }
    else if (v.fw > 1) { v.fw--; ekw = (v.fw - 1) * v.dw + 1; }
    else if (v.h > 1 && v.same) v.h--;
    else if (v.w > 1 && v.same) v.w--;
    else break;
  }
  if (out != kTfLiteInt32) v.act = c.weighted({50, 20, 15, 15});
  if (v.same && any_pad0 && c.coin(40)) {
    v.pad_value = 0;
    // Documented support: the reference kernel with an even channel count, and
    // float output without activation for every kernel.
    if (out == kTfLiteFloat32 && c.coin(70)) v.act = 0;
    if (c.coin(70) && v.groups == 1 && v.cin % 2) v.cin++;
  } else if (c.coin(15)) {
    v.pad_value = v.same ? 1 : 0;  // with VALID, the pad value means nothing
  }
  v.in = Packed(v.b * v.h * v.w, v.cin);
  v.filter = Packed(v.cout * v.fh * v.fw, v.cpg());
  FillBits(c, &v.in);
  FillBits(c, &v.filter);
  return v;
}
static std::string Describe(const Conv& v) {
  char b[300];
  snprintf(b, sizeof b, "in=%dx%dx%dx%d filter=%dx%d cout=%d stride=%dx%d dil=%dx%d groups=%d %s pad=%d act=%d", v.b, v.h, v.w,
           v.cin, v.fh, v.fw, v.cout, v.sh, v.sw, v.dh, v.dw, v.groups, v.same ? "SAME" : "VALID", v.pad_value, v.act);
  return b;
}
static bool Supported(const Conv& v, TfLiteType out, Impl impl) {
  if (v.groups > 1 && impl == kBgemm) return false;
  if (v.same && v.pad_value == 0) {
    if (impl == kRef) return v.cin % 2 == 0;
    return out == kTfLiteFloat32 && v.act == 0;
  }
  return true;
}
static vector<uint8_t> ConvOptions(const Conv& v) {
  flexbuffers::Builder f;
  f.Map([&] {
    f.Int("channels_in", v.cin);
    f.Int("dilation_height_factor", v.dh);
    f.Int("dilation_width_factor", v.dw);
    f.Int("fused_activation_function", v.act);
    f.Int("pad_values", v.pad_value);
    f.Int("padding", v.same ? 0 : 1);
    f.Int("stride_height", v.sh);
    f.Int("stride_width", v.sw);
  });
  f.Finish();
  return f.GetBuffer();
}
struct ConvIds { int in, filter, mul, bias, thr, out; };
struct Post {
  vector<float> mul, bias;
  vector<int32_t> thr;
  float scale = 1;
  int zp = 0;
};
static Post GenPost(Ctx& c, const Conv& v, TfLiteType out) {
  Post p;
  if (out == kTfLiteInt32) {
    int mode = c.weighted({50, 30, 20});
    pbt::Rng r = c.bulk();
    int a = v.backtransform();
    for (int i = 0; i < v.cout; ++i) {
      switch (mode == 2 ? (int)r.below(4) : mode) {
        case 0: p.thr.push_back((int)r.below(a + 4) - 2); break;
        case 1: p.thr.push_back(a / 2 - 4 + (int)r.below(9)); break;
        case 2: p.thr.push_back(r.below(2) ? std::numeric_limits<int32_t>::max() : std::numeric_limits<int32_t>::min()); break;
        default: p.thr.push_back((int32_t)r.next()); break;
      }
    }
    return p;
  }
  int mode = c.weighted({20, 30, 50});
  pbt::Rng r = c.bulk();
  for (int i = 0; i < v.cout; ++i) {
    float m, b;
    if (mode == 0) { m = 1; b = 0; }
    else if (mode == 1) { m = (float)((int)r.below(9) - 4) / 4.0f; b = (float)((int)r.below(65) - 32) / 2.0f; }
    else { m = (float)((r.unit() * 2 - 1) * 3); b = (float)((r.unit() * 2 - 1) * 50); if (r.below(12) == 0) m = 0; }
    p.mul.push_back(m);
    p.bias.push_back(b);
  }
  if (out == kTfLiteInt8) {
    p.scale = c.pick({1.0f, 0.5f, 2.0f, 0.0625f, 0.37f, 7.3f, 0.011f, 0.0005f});
    p.zp = (int)c.range(0, 255) - 128;
    if (c.coin(30)) p.zp = 0;
  }
  return p;
}
static ConvIds BuildConv(Interp& it, const Conv& v, const Post& p, TfLiteType out, Impl impl, bool const_input = false) {
  ConvIds d;
  if (const_input) d.in = it.AddConst<int32_t>(kTfLiteInt32, {v.b, v.h, v.w, v.in.words}, v.in.w);
  else d.in = it.AddTensor(kTfLiteInt32, {v.b, v.h, v.w, v.in.words}, kTfLiteArenaRw);
  d.filter = it.AddConst<int32_t>(kTfLiteInt32, {v.cout, v.fh, v.fw, v.filter.words}, v.filter.w);
  d.mul = d.bias = d.thr = -1;
  if (out == kTfLiteInt32) {
    d.thr = it.AddConst<int32_t>(kTfLiteInt32, {v.cout}, p.thr);
  } else {
    d.mul = it.AddConst<float>(kTfLiteFloat32, {v.cout}, p.mul);
    d.bias = it.AddConst<float>(kTfLiteFloat32, {v.cout}, p.bias);
  }
  d.out = out == kTfLiteInt8 ? it.AddTensor(out, {0}, kTfLiteArenaRw, p.scale, p.zp, true) : it.AddTensor(out, {0}, kTfLiteArenaRw);
  it.AddNode(Reg(impl), {d.in, d.filter, d.mul, d.bias, d.thr}, {d.out}, ConvOptions(v));
  return d;
}
template <typename T> static void Put(Interp& it, int id, const vector<T>& v) {
  memcpy(it.Data<char>(id), v.data(), v.size() * sizeof(T));
}

// Compares an output tensor with the definition; returns a problem or "".
static std::string CheckConvOutput(Interp& it, int out_id, const Conv& v, const Post& p, TfLiteType out) {
  char msg[500];
  int oh = v.oh(), ow = v.ow(), last = out == kTfLiteInt32 ? (v.cout + 31) / 32 : v.cout;
  vector<int> want{v.b, oh, ow, last}, got = it.Dims(out_id);
  if (want != got) {
    std::string s = "output shape";
    for (int d : got) s += " " + std::to_string(d);
    s += ", expected";
    for (int d : want) s += " " + std::to_string(d);
    return s;
  }
  double a = v.backtransform();
  for (int b = 0; b < v.b; ++b)
    for (int y = 0; y < oh; ++y)
      for (int x = 0; x < ow; ++x) {
        size_t row = ((size_t)b * oh + y) * ow + x;
        vector<uint32_t> words(last, 0);
        for (int oc = 0; oc < v.cout; ++oc) {
          int sum, diff;
          v.At(b, y, x, oc, &sum, &diff);
          if (out == kTfLiteInt32) {
            if (diff > p.thr[oc]) words[oc / 32] |= 1u << (oc % 32);
            continue;
          }
          double m = p.mul[oc], bi = p.bias[oc];
          double real = (double)v.Clamp(sum) * m + bi;
          double tol = 2e-6 * (4 * a * std::fabs(m) + std::fabs(bi)) + 1e-6;
          if (out == kTfLiteFloat32) {
            float g = it.Data<float>(out_id)[row * v.cout + oc];
            if (!(std::fabs(g - real) <= tol)) {
              snprintf(msg, sizeof msg, "output[%d,%d,%d,%d] = %.9g, expected %.9g (sum of products %d, multiplier %g, bias %g)", b, y, x, oc, g, real, sum, m, bi);
              return msg;
            }
          } else {
            double q = real / p.scale + p.zp, qt = tol / p.scale + 1e-5 * (1 + std::fabs((double)p.zp));
            int lo = model::Sat8(std::ceil(q - 0.5 - qt)), hi = model::Sat8(std::floor(q + 0.5 + qt));
            int g = it.Data<int8_t>(out_id)[row * v.cout + oc];
            if (g < lo || g > hi) {
              snprintf(msg, sizeof msg, "output[%d,%d,%d,%d] = %d, expected %d (real value %.9g, scale %g, zero point %d)", b, y, x, oc, g, lo, real, p.scale, p.zp);
              return msg;
            }
          }
        }
        if (out == kTfLiteInt32)
          for (int k = 0; k < last; ++k) {
            uint32_t g = (uint32_t)it.Data<int32_t>(out_id)[row * last + k];
            if (g != words[k]) {
              snprintf(msg, sizeof msg, "output word [%d,%d,%d,%d] = %08x, expected %08x", b, y, x, k, g, words[k]);
              return msg;
            }
          }
      }
  return "";
}

static void SetSchedule(Ctx& c, Interp& it) {
  ruy::Schedule s;
  s.whole = !c.coin(60);
  s.threads = c.coin(25) ? (int)c.range(1, 8) : 1;
  s.seed = c.draw(1 << 20);
  it.backend.ruy_context()->ctx()->schedule = s;
}


// ------------------------------------------------------------------ values and buffers
// Reads of at most 16 bytes past the end of the input are tolerated, writes are not.
template <typename T> struct Buf {
  lite::Guarded g;
  size_t n;
  explicit Buf(size_t n_, Ctx& c) : n(n_) { pbt::Rng r(c.draw(1 << 20)); g.Alloc(n * sizeof(T), r); }
  T* p() { return reinterpret_cast<T*>(g.p); }
};

template <typename T> static T SpecialValue(pbt::Rng& r, int32_t zp) {
  if constexpr (std::is_floating_point<T>::value) {
    static const float f[] = {0.0f, -0.0f, 1.0f, -1.0f, 1e-45f, -1e-45f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(),
                              std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::quiet_NaN(), 3.4e38f, -3.4e38f, 0.5f, -0.25f};
    return (T)f[r.below(14)];
  } else {
    switch (r.below(6)) {
      case 0: return (T)zp;
      case 1: return (T)(uint32_t)((uint32_t)zp - 1);
      case 2: return (T)(uint32_t)((uint32_t)zp + 1);
      case 3: return std::numeric_limits<T>::lowest();
      case 4: return std::numeric_limits<T>::max();
      default: return (T)r.next();
    }
  }
}
template <typename T> static T AnyValue(pbt::Rng& r) {
  if constexpr (std::is_floating_point<T>::value) {
    uint32_t u = (uint32_t)r.next();
    if (r.below(4)) return (T)((r.unit() - 0.5) * 4);
    float f;
    memcpy(&f, &u, 4);
    return (T)f;
  } else {
    return (T)r.next();
  }
}
static vector<int> GenShape(Ctx& c, int min_rank, long budget) {
  int rank = (int)c.range(min_rank, 5);
  vector<int> d(rank, 1);
  if (VERIF_STRETCH && c.coin(3)) {  // one dimension far beyond the usual sizes
    int k = (int)c.range(0, rank - 1);
    d[k] = (int)c.range(1, budget * 4);
    if (k != rank - 1) d[rank - 1] = (int)c.range(1, std::max(1l, budget * 4 / d[k]));
    c.label("stretched");
    return d;
  }
  int last = c.coin(50) ? (int)c.range(1, 100) : c.pick({31, 32, 33, 64, 96, 128, 129});
  d[rank - 1] = last;
  long n = last;
  for (int i = rank - 2; i >= 0; --i) {
    int m = (int)std::min<long>(6, budget / n);
    if (m < 1) m = 1;
    d[i] = (int)c.range(1, m);
    n *= d[i];
  }
  return d;
}
static std::string ShapeStr(const vector<int>& d) {
  std::string s = "[";
  for (size_t i = 0; i < d.size(); ++i) s += (i ? "," : "") + std::to_string(d[i]);
  return s + "]";
}
static long Count(const vector<int>& d) { long n = 1; for (int x : d) n *= x; return n; }
static bool g_no_negative_zero = false;  // nor a NaN with a sign
static void FillTyped(pbt::Rng& r, TfLiteType t, char* p, long n, int32_t zp, bool special) {
  for (long i = 0; i < n; ++i) {
    bool s = special && r.below(2);
    if (t == kTfLiteFloat32) { float v = s ? SpecialValue<float>(r, 0) : AnyValue<float>(r); if (g_no_negative_zero && std::signbit(v) && !(v < 0)) v = 0; memcpy(p + i * 4, &v, 4); }
    else if (t == kTfLiteInt8) { int8_t v = s ? SpecialValue<int8_t>(r, zp) : AnyValue<int8_t>(r); p[i] = (char)v; }
    else p[i] = (char)(r.next() & 1);
  }
}
static bool SignBit(TfLiteType t, const char* p, long i, int32_t zp) {
  if (t == kTfLiteFloat32) { float v; memcpy(&v, p + i * 4, 4); return v < 0; }
  if (t == kTfLiteInt8) return (int)(int8_t)p[i] < zp;
  return p[i] == 0;
}

// ------------------------------------------------------------------ pooling
static Packed PoolModel(const Packed& in, int b, int h, int w, int fh, int fw, int sh, int sw, bool same, int* oh, int* ow) {
  model::Geo gy = model::Geometry(same, h, fh, sh, 1), gx = model::Geometry(same, w, fw, sw, 1);
  *oh = gy.out; *ow = gx.out;
  Packed o(b * gy.out * gx.out, in.cols);
  for (int bi = 0; bi < b; ++bi)
    for (int y = 0; y < gy.out; ++y)
      for (int x = 0; x < gx.out; ++x)
        for (int ch = 0; ch < in.cols; ++ch) {
          bool all = true;  // the maximum of +/-1 values is -1 (bit 1) iff all are -1
          for (int fy = 0; fy < fh; ++fy)
            for (int fx = 0; fx < fw; ++fx) {
              int iy = y * sh - gy.before + fy, ix = x * sw - gx.before + fx;
              if (iy < 0 || iy >= h || ix < 0 || ix >= w) continue;
              all = all && in.get((bi * h + iy) * w + ix, ch);
            }
          o.set((bi * gy.out + y) * gx.out + x, ch, all);
        }
  return o;
}
static vector<uint8_t> PoolOptions(int fh, int fw, int sh, int sw, bool same) {
  flexbuffers::Builder f;
  f.Map([&] {
    f.Int("filter_height", fh);
    f.Int("filter_width", fw);
    f.Int("padding", same ? 0 : 1);
    f.Int("stride_height", sh);
    f.Int("stride_width", sw);
  });
  f.Finish();
  return f.GetBuffer();
}
#endif
