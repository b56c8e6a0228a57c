// One binary convolution against a naive computation of its definition.
#include "kernels/lite.h"
#include "flatbuffers/flexbuffers.h"
#include <cmath>
namespace lce = compute_engine::tflite;
struct Spec {
  int b = 1, h = 5, w = 5, c = 64, n = 8, fh = 3, fw = 3, sh = 1, sw = 1, dh = 1, dw = 1;
  bool same = true;
  int pad = 1, groups = 1, act = 0 /* 0 none, 1 relu, 2 relu_n1_to_1, 3 relu6 */;
  int type = 0 /* 0 float, 1 int8, 2 packed */;
  float scale = 1; int zp = 0;
  int threads = 1;
};
enum { kRefused = -1 };
static std::vector<int32_t> RandomBits(size_t rows, int ch, uint64_t seed) {
  pbt::Rng r(seed);
  int words = (ch + 31) / 32;
  std::vector<int32_t> v(rows * words, 0);
  for (size_t i = 0; i < rows; ++i) for (int c = 0; c < ch; ++c) if (r.next() >> 33 & 1) v[i * words + c / 32] |= 1u << (c % 32);
  return v;
}
static int Bit(const std::vector<int32_t>& v, size_t row, int words, int ch) { return (uint32_t)v[row * words + ch / 32] >> (ch % 32) & 1; }
static int OutSize(bool same, int in, int k, int s, int d) { return same ? (in + s - 1) / s : (in - (k - 1) * d - 1) / s + 1; }
// A convolution in an interpreter of its own; Run() gives it new activations of the given size.
struct Conv {
  Spec p;
  lite::Interp it;
  std::vector<int32_t> flt, thr;
  std::vector<float> mul, bias;
  int in, out, words, fwords, runs = 0;
  bool reuse = false;
  Conv(TfLiteRegistration* reg, Spec p, uint64_t seed = 1) : p(p), it(seed) {
    words = (p.c + 31) / 32; fwords = words / p.groups;
    flt = RandomBits((size_t)p.n * p.fh * p.fw, p.groups > 1 ? fwords * 32 : p.c, seed * 31 + 5);
    pbt::Rng r(seed * 77 + 3);
    int K = p.fh * p.fw * p.c / p.groups;
    for (int i = 0; i < p.n; ++i) {
      mul.push_back(((int)(r.next() >> 40) % 9 - 4) * 0.25f);
      bias.push_back(((int)(r.next() >> 40) % 17 - 8) * 0.5f);
      thr.push_back(K / 2 + (int)(r.next() >> 40) % 9 - 4);
    }
    in = it.AddTensor(kTfLiteInt32, {p.b, p.h, p.w, words}, kTfLiteArenaRw);
    int f = it.AddConst<int32_t>(kTfLiteInt32, {p.n, p.fh, p.fw, fwords}, flt);
    int m = it.AddConst<float>(kTfLiteFloat32, {p.n}, mul), bb = it.AddConst<float>(kTfLiteFloat32, {p.n}, bias);
    int t = it.AddConst<int32_t>(kTfLiteInt32, {p.n}, thr);
    out = it.AddTensor(p.type == 0 ? kTfLiteFloat32 : p.type == 1 ? kTfLiteInt8 : kTfLiteInt32, {0}, kTfLiteArenaRw, p.type == 1 ? p.scale : 0, p.zp, p.type == 1);
    flexbuffers::Builder o;
    o.Map([&] {
      o.Int("channels_in", p.c); o.Int("dilation_height_factor", p.dh); o.Int("dilation_width_factor", p.dw);
      o.Int("fused_activation_function", p.act); o.Int("pad_values", p.pad); o.Int("padding", p.same ? 0 : 1);
      o.Int("stride_height", p.sh); o.Int("stride_width", p.sw);
    });
    o.Finish();
    it.AddNode(reg, p.type == 2 ? std::vector<int>{in, f, -1, -1, t} : std::vector<int>{in, f, m, bb, -1}, {out}, o.GetBuffer());
    it.backend.ruy_context()->ctx()->schedule.threads = p.threads;
  }
  // Number of wrong outputs, or kRefused.
  int Run(int b, int h, int w) {
    if (!reuse || b != p.b || h != p.h || w != p.w) {
      p.b = b; p.h = h; p.w = w;
      it.Resize(in, {b, h, w, words});
      if (it.Allocate() != kTfLiteOk) return kRefused;
      reuse = true;
    }
    auto x = RandomBits((size_t)b * h * w, p.c, 100 + runs++);
    memcpy(it.Data<char>(in), x.data(), x.size() * 4);
    std::string e = it.Invoke({in});
    if (!e.empty()) { printf("%s\n", e.c_str()); return 1; }
    int oh = OutSize(p.same, h, p.fh, p.sh, p.dh), ow = OutSize(p.same, w, p.fw, p.sw, p.dw), owords = (p.n + 31) / 32;
    if (it.Dims(out) != std::vector<int>{b, oh, ow, p.type == 2 ? owords : p.n}) { printf("wrong output shape\n"); return 1; }
    int pt = p.same ? std::max(0, (oh - 1) * p.sh + (p.fh - 1) * p.dh + 1 - h) / 2 : 0, pl = p.same ? std::max(0, (ow - 1) * p.sw + (p.fw - 1) * p.dw + 1 - w) / 2 : 0;
    int bad = 0, cg = p.c / p.groups, ng = p.n / p.groups, K = p.fh * p.fw * cg;
    for (int bi = 0; bi < b; ++bi) for (int y = 0; y < oh; ++y) for (int xx = 0; xx < ow; ++xx) {
      size_t o = ((size_t)bi * oh + y) * ow + xx;
      std::vector<uint32_t> packed(owords, 0);
      for (int oc = 0; oc < p.n; ++oc) {
        int g = oc / ng, sum = 0, diff = 0;
        for (int fy = 0; fy < p.fh; ++fy) for (int fx = 0; fx < p.fw; ++fx) {
          int iy = y * p.sh - pt + fy * p.dh, ix = xx * p.sw - pl + fx * p.dw;
          bool inside = iy >= 0 && iy < h && ix >= 0 && ix < w;
          for (int ch = 0; ch < cg; ++ch) {
            int a = inside ? Bit(x, ((size_t)bi * h + iy) * w + ix, words, g * cg + ch) : 0, f = Bit(flt, ((size_t)oc * p.fh + fy) * p.fw + fx, fwords, ch);
            diff += a != f;
            if (inside || p.pad == 1) sum += a == f ? 1 : -1;
          }
        }
        (void)K;
        int v = sum;
        if (p.act == 1) v = std::max(v, 0);
        if (p.act == 2) v = std::max(-1, std::min(1, v));
        if (p.act == 3) v = std::max(0, std::min(6, v));
        double r = v * (double)mul[oc] + bias[oc];
        if (p.type == 0) bad += !(std::fabs(it.Data<float>(out)[o * p.n + oc] - r) <= 1e-3);
        if (p.type == 1) {
          double q = r / p.scale + p.zp, lo = std::max(-128.0, std::min(127.0, std::floor(q + 0.499))), hi = std::max(-128.0, std::min(127.0, std::floor(q + 0.501)));
          double got = it.Data<int8_t>(out)[o * p.n + oc];
          bad += !(got >= lo && got <= hi);
        }
        if (p.type == 2 && diff > thr[oc]) packed[oc / 32] |= 1u << (oc % 32);
      }
      if (p.type == 2) for (int k = 0; k < owords; ++k) bad += (uint32_t)it.Data<int32_t>(out)[o * owords + k] != packed[k];
    }
    if (bad) printf("%d outputs are wrong\n", bad);
    return bad;
  }
};
static TfLiteRegistration* Impl(int k) { return k == 0 ? lce::Register_BCONV_2D_REF() : k == 1 ? lce::Register_BCONV_2D_OPT_BGEMM() : lce::Register_BCONV_2D_OPT_INDIRECT_BGEMM(); }
