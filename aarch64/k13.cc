// K13: the kernels built for AArch64 (with their hand-written assembly) against the
// models of kernels/model.h, run by the interpreter in emu.h. K15: the same for Armv7.
#ifdef VERIF_ARMV7
#include "armv7/guest.h"
#else
#include "aarch64/guest.h"
#endif
static bool g_native = false;
TfLiteRegistration* NativeReg(int i);
#define VERIF_REG(i) (g_native ? NativeReg((int)(i)) : guest::Reg(guest::kRefConv + (int)(i)))
#include "case_history.h"
#include "case_pool.h"
#include "case_quant.h"

TfLiteRegistration* NativeReg(int i) {
  return i == kRef ? lce::Register_BCONV_2D_REF() : i == kBgemm ? lce::Register_BCONV_2D_OPT_BGEMM() : lce::Register_BCONV_2D_OPT_INDIRECT_BGEMM();
}

// So many products per output value that 16 bits may not count them.
static Conv GenDeep(Ctx& c) {
  Conv v;
  v.same = c.coin(75);
  v.fh = (int)c.range(1, 9);
  v.fw = (int)c.range(1, 9);
  v.groups = c.weighted({75, 25}) + 1;
  int total;  // products per output value
  switch (c.weighted({40, 30, 30})) {
    case 0: total = 65536 + (int)c.range(0, 40) * 32 - 640; break;
    case 1: total = (int)c.range(66000, 140000); break;
    default: total = (int)c.range(40000, 65000); break;
  }
  int words = std::max(1, total / (32 * v.fh * v.fw));
  if (c.coin(30)) words = (words + 3) / 4 * 4;
  v.cin = words * 32 * v.groups;
  if (v.groups == 1 && c.coin(20)) v.cin -= (int)c.range(0, 31);
  v.cout = v.groups * (int)c.range(1, 9);
  v.h = v.same ? (int)c.range(1, 3) : v.fh;
  v.w = v.same ? (int)c.range(1, 2) : v.fw;
  v.sh = v.sw = (int)c.range(1, 3);
  if (c.coin(25)) v.act = (int)c.range(1, 3);
  v.in = Packed(v.b * v.h * v.w, v.cin);
  v.filter = Packed(v.cout * v.fh * v.fw, v.cpg());
  pbt::Rng r = c.bulk();
  // Mostly one sign, so that the count of differing signs approaches its limits.
  unsigned in1 = (unsigned)c.pick({0, 1, 8, 15, 16}), f1 = (unsigned)c.pick({0, 1, 8, 15, 16});
  for (int i = 0; i < v.in.rows; ++i) for (int j = 0; j < v.in.cols; ++j) v.in.set(i, j, r.below(16) < in1);
  for (int i = 0; i < v.filter.rows; ++i) for (int j = 0; j < v.filter.cols; ++j) v.filter.set(i, j, r.below(16) < f1);
  return v;
}

static void ConvCase(Ctx& c, bool deep) {
  TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
  Conv v = deep ? GenDeep(c) : GenConv(c, out, c.thorough() ? 200000 : 60000);
  if (deep && out == kTfLiteInt32) v.act = 0;
  Post p = GenPost(c, v, out);
  c.desc("%s out=%s", Describe(v).c_str(), TfLiteTypeGetName(out));
  if (out == kTfLiteInt8) c.desc(" scale=%g zp=%d", p.scale, p.zp);
  bool any = false;
  for (Impl impl : {kBgemm, kIndirect}) {
    if (!Supported(v, out, impl)) continue;
    any = true;
    Interp it(c.draw(1 << 20));
    ConvIds d = BuildConv(it, v, p, out, impl);
    if (impl == kBgemm) SetSchedule(c, it);
    if (it.Allocate() != kTfLiteOk) c.fail("%s refused a supported convolution: %s", kImplName[impl], it.log.c_str());
    Put(it, d.in, v.in.w);
    std::string e = it.Invoke({d.in});
    if (e.empty()) e = CheckConvOutput(it, d.out, v, p, out);
    if (!e.empty()) c.fail("%s: %s", kImplName[impl], e.c_str());
    // The same bits as the portable build, where rounding leaves nothing open.
    if (out != kTfLiteInt8) {
      Interp n(c.draw(1 << 20));
      g_native = true;
      ConvIds dn = BuildConv(n, v, p, out, impl);
      g_native = false;
      if (n.Allocate() != kTfLiteOk) c.fail("%s refused a supported convolution: %s", kImplName[impl], n.log.c_str());
      Put(n, dn.in, v.in.w);
      e = n.Invoke({dn.in});
      if (!e.empty()) c.fail("%s, portable: %s", kImplName[impl], e.c_str());
      vector<char> x = it.Raw(d.out), y = n.Raw(dn.out);
      if (x != y) {
        size_t k = 0;
        while (k < x.size() && k < y.size() && x[k] == y[k]) ++k;
        c.fail("%s: the output differs from the portable build's at byte %zu of %zu", kImplName[impl], k, x.size());
      }
    }
    c.label(kImplName[impl]);
  }
  if (!any) c.discard();
  c.label(TfLiteTypeGetName(out));
  if (deep) c.label("deep");
  c.nontrivial(v.backtransform() > 1 && v.oh() * v.ow() * v.cout > 1);
}

template <typename F> static void OnGuest(Ctx& c, F f) {
  g_blocks = 45;
  guest::Junk() = c.draw(1 << 20);
#ifdef VERIF_ARMV7
  bool thumb = c.coin(50);
  guest::Reset(thumb);
  c.label(thumb ? "Thumb" : "Arm");
  const char* where = thumb ? "Armv7 (Thumb)" : "Armv7 (Arm)";
#else
  const char* where = "AArch64";
#endif
  try {
    f();
  } catch (a64::Fault& e) {
    c.fail("on %s: %s", where, e.msg.c_str());
  }
}
#ifdef VERIF_ARMV7
PBT_PROPERTY(K15) {
  OnGuest(c, [&] {
    switch (c.weighted({46, 18, 18, 4, 14})) {
      case 0: ConvCase(c, false); c.label("convolution"); break;
      case 1: ConvCase(c, true); break;
      case 2: QuantCase(c); c.label("packing"); break;
      case 3: PoolCase(c); c.label("pooling"); break;
      default: HistoryCase(c); c.label("history"); break;
    }
  });
}
#else
PBT_PROPERTY(K13) {
  OnGuest(c, [&] {
    g_no_negative_zero = true;  // K13_negative_zero
    switch (c.weighted({46, 18, 18, 4, 14})) {
      case 0: ConvCase(c, false); c.label("convolution"); break;
      case 1: ConvCase(c, true); break;
      case 2: QuantCase(c); c.label("packing"); break;
      case 3: PoolCase(c); c.label("pooling"); break;
      default: HistoryCase(c); c.label("history"); break;
    }
  });
}
// Known finding: the assembly packs the sign bit, so a zero or NaN with a sign counts as -1.
PBT_PROPERTY(K13_negative_zero) {
  OnGuest(c, [&] {
    vector<int> d{(int)c.range(1, 6), 128};
    Interp it(c.draw(1 << 20));
    int in = it.AddTensor(kTfLiteFloat32, d, kTfLiteArenaRw), q = it.AddTensor(kTfLiteInt32, {1, 1}, kTfLiteArenaRw);
    it.AddNode(RegQuantize(), {in}, {q}, {});
    if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
    int n = d[0] * 128, at = (int)c.draw(n);
    for (int i = 0; i < n; ++i) it.Data<float>(in)[i] = i == at ? -0.0f : 1.0f;
    std::string e = it.Invoke({in});
    if (!e.empty()) c.fail("%s", e.c_str());
    for (int i = 0; i < n / 32; ++i) if (it.Data<int32_t>(q)[i]) c.fail("-0.0 at %d of %d is packed as -1", at, n);
  });
}
#endif

int main(int argc, char** argv) {
#ifndef VERIF_ARMV7
  if (getenv("VERIF_SURVEY")) {
    guest::M().tolerance = 1000;
    int r = pbt::Main(argc, argv);
    for (auto& p : guest::M().overreads) printf("OVERREAD %d %s\n", p.second, guest::M().Where(p.first).c_str());
    return r;
  }
#endif
  return pbt::Main(argc, argv);
}
