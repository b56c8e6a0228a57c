// Parts of this check call functions that only other functions of the library call.
// The build leaves them out, in the order VERIF_LEVEL names, when they do not compile:
// 1 without the packing routine and the kernel parameters, 2 with whole convolutions only.
#ifndef VERIF_LEVEL
#define VERIF_LEVEL 0
#endif
#if VERIF_LEVEL < 2
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/bgemm/bgemm.h"
#endif
#include "case_conv.h"

#if VERIF_LEVEL < 2

// K11 binary GEMM
template <typename Acc, typename Dst> static void GemmCase(Ctx& c, const char* name) {
  using namespace compute_engine::core;
  int n = (int)c.size(1, 70), m = (int)c.size(1, 24), k = (int)c.size(1, 12);
  if (VERIF_STRETCH && c.coin(3)) {
    switch (c.draw(3)) {
      case 0: n = (int)c.range(70, 900); break;
      case 1: m = (int)c.range(24, 900); break;
      default: k = (int)c.range(12, 400); break;
    }
    c.label("stretched");
  }
  bool packed = std::is_same<Dst, int32_t>::value;
  bool lhs_row = c.coin(75), rhs_col = c.coin(75), dst_col = packed || c.coin(75);
  Packed L(n, k * 32), R(m, k * 32);
  FillBits(c, &L);
  FillBits(c, &R);
  ruy::Schedule s;
  s.whole = c.coin(30);
  s.threads = c.coin(30) ? (int)c.range(1, 8) : 1;
  s.seed = c.draw(1 << 20);
  c.desc("gemm %s n=%d m=%d k=%d lhs_row=%d rhs_col=%d dst_col=%d whole=%d threads=%d", name, n, m, k, lhs_row, rhs_col, dst_col, s.whole, s.threads);
  Buf<int32_t> l((size_t)n * k, c), r((size_t)m * k, c);
  for (int i = 0; i < n; ++i) for (int x = 0; x < k; ++x) l.p()[lhs_row ? i * k + x : x * n + i] = L.w[(size_t)i * k + x];
  for (int j = 0; j < m; ++j) for (int x = 0; x < k; ++x) r.p()[rhs_col ? j * k + x : x * m + j] = R.w[(size_t)j * k + x];
  tflite::cpu_backend_gemm::MatrixParams<int32_t> lp, rp;
  tflite::cpu_backend_gemm::MatrixParams<Dst> dp;
  using O = tflite::cpu_backend_gemm::Order;
  lp.order = lhs_row ? O::kRowMajor : O::kColMajor; lp.rows = n; lp.cols = k;
  if (c.coin()) lp.cache_policy = tflite::cpu_backend_gemm::CachePolicy::kAlwaysCache;
  rp.order = rhs_col ? O::kColMajor : O::kRowMajor; rp.rows = k; rp.cols = m;
  dp.order = dst_col ? O::kColMajor : O::kRowMajor; dp.rows = n; dp.cols = m;
  bconv2d::OutputTransform<Dst> ot;
  vector<float> mul(n), bias(n);
  vector<int32_t> thr(n);
  pbt::Rng g = c.bulk();
  int cmin = (int)g.below(k * 64), cmax = cmin + (int)g.below(k * 64);
  for (int i = 0; i < n; ++i) {
    mul[i] = (float)((int)g.below(33) - 16) / 8; bias[i] = (float)((int)g.below(201) - 100) / 4; thr[i] = (int)g.below(k * 32 + 2) - 1;
  }
  if constexpr (std::is_same<Dst, int32_t>::value) ot.thresholds = thr.data();
  else { ot.multiplier = mul.data(); ot.bias = bias.data(); ot.clamp_min = cmin; ot.clamp_max = cmax; }
  int ow = packed ? (n + 31) / 32 : n;
  Buf<Dst> d((size_t)ow * m, c);
  if (packed && n % 32) memset(d.p(), 0, d.n * sizeof(Dst));
  tflite::CpuBackendContext ctx;
  ctx.ruy_context()->ctx()->schedule = s;
  for (int again = 0; again < 2; ++again) {
    bgemm::BGemm<Acc, Dst>(lp, l.p(), rp, r.p(), dp, d.p(), ot, &ctx);
    for (int j = 0; j < m; ++j) {
      vector<uint32_t> words(ow, 0);
      for (int i = 0; i < n; ++i) {
        int diff = 0;
        for (int x = 0; x < k * 32; ++x) diff += L.get(i, x) != R.get(j, x);
        if (packed) { if (diff > thr[i]) words[i / 32] |= 1u << (i % 32); continue; }
        int y = std::max(std::min(2 * diff, cmax), cmin);
        double want = (double)y * mul[i] + bias[i];  // exact: small dyadic numbers
        Dst got = d.p()[dst_col ? (size_t)j * n + i : (size_t)i * m + j];
        if (std::is_same<Dst, float>::value) {
          if ((double)got != want) c.fail("dst[%d,%d] = %g, expected %g", i, j, (double)got, want);
        } else {
          int lo = model::Sat8(std::ceil(want - 0.5)), hi = model::Sat8(std::floor(want + 0.5));
          if ((int)got < lo || (int)got > hi) c.fail("dst[%d,%d] = %d, expected %d..%d", i, j, (int)got, lo, hi);
        }
      }
      if (packed)
        for (int w = 0; w < ow; ++w)
          if ((uint32_t)(int64_t)d.p()[(size_t)j * ow + w] != words[w]) c.fail("dst word %d of column %d is %08x, expected %08x", w, j, (uint32_t)(int64_t)d.p()[(size_t)j * ow + w], words[w]);
    }
    if (!d.g.SlackIntact()) c.fail("wrote past the end of the destination");
  }
  c.label(name);
  if (s.threads > 1) c.label("multi-threaded");
  c.nontrivial(n * m > 1);
}
#endif
#if VERIF_LEVEL < 1
static void PackCase(Ctx& c) {  // the optimised 4x4 packing routine
  using namespace compute_engine::core;
  int rows = (int)c.size(1, 40), cols = (int)c.size(1, 30), stride = rows + (c.coin(30) ? (int)c.range(1, 5) : 0);
  c.desc("pack4x4 rows=%d cols=%d stride=%d", rows, cols, stride);
  Buf<int32_t> src((size_t)stride * cols, c);
  ruy::Mat<int32_t> m;
  m.data.set((const int32_t*)src.p());
  m.layout.rows = rows; m.layout.cols = cols; m.layout.stride = stride; m.layout.order = ruy::Order::kColMajor;
  using Fixed = ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>;
  ruy::PMat<int32_t> p;
  p.layout.rows = (rows + 3) / 4 * 4; p.layout.cols = (cols + 3) / 4 * 4;
  p.layout.stride = p.layout.rows + (c.coin(30) ? 16 : 0);
  p.layout.kernel = ruy::ToKernelLayout<Fixed>();
  Buf<int32_t> dst((size_t)p.layout.stride * p.layout.cols, c);
  p.data = dst.p();
  int start = 0;
  while (start < p.layout.cols) {  // in pieces, like the multi-threaded callers
    int end = start + 4 * (int)c.range(1, (p.layout.cols - start) / 4);
    if (c.coin()) {
      bgemm::LceRuyPackImpl<ruy::Path::kStandardCpp, Fixed, ruy::Order::kColMajor>::Run(ruy::Tuning::kAuto, m, &p, start, end);
    } else {
      ruy::EMat e = ruy::EraseType(m);
      ruy::PEMat pe;
      pe.data = p.data; pe.elem_size = 4; pe.layout = p.layout;
      bgemm::RunRuyPack<ruy::Path::kStandardCpp, Fixed>(ruy::Tuning::kAuto, e, &pe, start, end);
    }
    start = end;
  }
  for (int y = 0; y < p.layout.rows; ++y)
    for (int x = 0; x < p.layout.cols; ++x) {
      int32_t want = y < rows && x < cols ? src.p()[x * stride + y] : 0, got = ruy::Element(p, y, x);
      if (want != got) c.fail("packed element [%d,%d] is %d, expected %d", y, x, got, want);
    }
  if (!dst.g.SlackIntact()) c.fail("packing wrote past the end");
  c.label("pack 4x4");
  c.nontrivial(rows > 1 && cols > 1);
}
template <typename Dst, int LC, int RC> static void KernelParamsCase(Ctx& c) {  // what assembly kernels are given
  using namespace compute_engine::core;
  bool packed = std::is_same<Dst, int32_t>::value;
  int n = (int)c.range(1, 80), m = (int)c.range(1, 40), k = (int)c.range(1, 9);
  int nr = (n + LC - 1) / LC * LC, mr = (m + RC - 1) / RC * RC;
  auto blk = [&](int total, int unit, int* s, int* e) {
    int units = total / unit;
    int a = (int)c.draw(units), b = a + 1 + (int)c.draw(units - a);
    *s = a * unit; *e = b * unit;
  };
  int sr, er, sc, ec;
  blk(nr, packed ? std::max(LC, 8) : LC, &sr, &er);
  blk(mr, RC, &sc, &ec);
  ruy::PMat<int32_t> l, r;
  l.layout.rows = r.layout.rows = (k + 3) / 4 * 4;
  l.layout.stride = l.layout.rows + (c.coin() ? 16 : 0); l.layout.cols = nr;
  r.layout.stride = r.layout.rows; r.layout.cols = mr;
  vector<int32_t> lm((size_t)l.layout.stride * nr), rm((size_t)r.layout.stride * mr);
  l.data = lm.data(); r.data = rm.data();
  ruy::Mat<Dst> d;
  int ow = packed ? (n + 31) / 32 : n;
  vector<Dst> dm((size_t)ow * m);
  d.data.set(dm.data());
  d.layout.rows = n; d.layout.cols = m; d.layout.stride = n;
  bgemm::BinaryMulParams<std::int16_t, Dst> mp;
  bgemm::BinaryKernelParams<Dst, LC, RC> kp;
  bgemm::MakeBinaryKernelParams(l, r, sr, sc, er, ec, &d, mp, &kp);
  c.desc("kernel params %dx%d n=%d m=%d k=%d block [%d,%d)x[%d,%d) size=%d", LC, RC, n, m, k, sr, er, sc, ec, (int)sizeof(Dst));
  char* dst = (char*)dm.data() + (packed ? (size_t)sc * ow * 4 + sr / 8 : ((size_t)sc * n + sr) * sizeof(Dst));
  if (kp.lhs_base_ptr != l.data + sr * l.layout.stride || kp.rhs_base_ptr != r.data + sc * r.layout.stride) c.fail("source pointers");
  if ((char*)kp.dst_base_ptr != dst) c.fail("destination pointer is off by %ld bytes", (long)((char*)kp.dst_base_ptr - dst));
  if (kp.start_row != sr || kp.start_col != sc || kp.last_row != er - LC || kp.last_col != ec - RC) c.fail("block bounds");
  if (kp.dst_rows != n || kp.dst_cols != m || kp.depth != l.layout.rows) c.fail("sizes");
  if (kp.lhs_stride != 4 * l.layout.stride || kp.rhs_stride != 4 * r.layout.stride || kp.dst_stride != (packed ? ow * 4 : n * (int)sizeof(Dst))) c.fail("strides");
  c.label("kernel params");
  c.nontrivial(true);
}
#endif
PBT_PROPERTY(K11) {
#if VERIF_LEVEL >= 2
  ConvProperty(c, c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32}), 120000);
#else
  switch (c.weighted({20, 15, 15, 8, 7, 5, 20, 10})) {
    case 0: return GemmCase<std::int32_t, float>(c, "i32->float");
    case 1: return GemmCase<std::int32_t, std::int8_t>(c, "i32->int8");
    case 2: return GemmCase<std::int32_t, std::int32_t>(c, "i32->packed");
    case 3: return GemmCase<std::int16_t, float>(c, "i16->float");
    case 4: return GemmCase<std::int16_t, std::int8_t>(c, "i16->int8");
    case 5: return GemmCase<std::int16_t, std::int32_t>(c, "i16->packed");
#if VERIF_LEVEL < 1
    case 6: return PackCase(c);
    case 7:
      switch (c.draw(4)) {
        case 0: return KernelParamsCase<float, 8, 4>(c);
        case 1: return KernelParamsCase<std::int8_t, 4, 4>(c);
        case 2: return KernelParamsCase<std::int32_t, 8, 4>(c);
        case 3: return KernelParamsCase<float, 4, 4>(c);
      }
      return;
#endif
    default: return GemmCase<std::int32_t, float>(c, "i32->float");
  }
#endif
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
