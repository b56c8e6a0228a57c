// M09: explicit padding folded into convolutions.
#include "mlir/src/mlirx.h"

namespace {
using namespace mx;
string Attr(const char* n, int64_t v) { return string(n) + " = " + S(v) + " : i32"; }
string Attr(const char* n, const string& v) { return string(n) + " = \"" + v + "\""; }
}  // namespace

PBT_PROPERTY(M09) {
  E().Fresh();
  Fn f;
  pbt::Rng r(c.bulk());
  vector<T> in;
  int n = (int)c.range(1, 2);
  int dyn = c.coin(10) ? (int)c.range(1, 15) : 0;
  bool interesting = false;
  int must = 0;  // paddings that can plainly be folded
  for (int k = 0; k < n; ++k) {
    int64_t N = c.range(1, 2), H = c.range(1, 9), W = c.range(1, 9), C = c.range(1, 4);
    int64_t fh = c.range(1, 4), fw = c.coin(60) ? fh : c.range(1, 4), sh = c.coin(50) ? 1 : c.range(2, 3), sw = c.coin(70) ? sh : c.range(1, 3), dh = c.coin(75) ? 1 : c.range(2, 3), dw = c.coin(85) ? dh : c.range(1, 3);
    bool dwc = c.coin(40), quant = c.coin(8);
    // Paddings: that of SAME, near to it, or any.
    int64_t p[4][2] = {{0, 0}, {0, 0}, {0, 0}, {0, 0}};
    int how = (int)c.weighted({6, 4, 2, 1});
    auto total = [](int64_t in, int64_t k, int64_t s, int64_t d) { int64_t o = (in + s - 1) / s; return std::max<int64_t>((o - 1) * s + (k - 1) * d + 1 - in, 0); };
    for (int d = 1; d <= 2; ++d) {
      int64_t t = d == 1 ? total(H, fh, sh, dh) : total(W, fw, sw, dw);
      if (how == 1 && c.coin(70)) t += c.range(0, 2) - (t > 0 ? 1 : 0);
      if (how == 3) t = c.range(0, 6);
      p[d][0] = t / 2;
      p[d][1] = t - t / 2;
      if (how == 2 && c.coin(70)) { if (c.coin()) std::swap(p[d][0], p[d][1]); else { p[d][0] = c.range(0, 3); p[d][1] = c.range(0, 3); } }
    }
    if (c.coin(6)) p[0][c.draw(2)] = 1;
    if (c.coin(6)) p[3][c.draw(2)] = c.range(1, 2);
    int64_t PH = H + p[1][0] + p[1][1], PW = W + p[2][0] + p[2][1], PC = C + p[3][0] + p[3][1], PN = N + p[0][0] + p[0][1];
    bool same = c.coin(8);
    if (PH < (fh - 1) * dh + 1 || PW < (fw - 1) * dw + 1) { c.discard(); return; }
    string e = quant ? "!quant.uniform<i8:f32, 5.000000e-01:3>" : "f32";
    (void)e;
    V x = f.Arg({N, H, W, C}, "f32", dyn);
    in.push_back(RandomFloat(r, {N, H, W, C}, true));
    bool plain = !dyn && !same;
    for (int d = 0; d < 4; ++d) {
      int64_t t = d == 1 ? total(H, fh, sh, dh) : d == 2 ? total(W, fw, sw, dw) : 0;
      if (p[d][0] != t / 2 || p[d][1] != t - t / 2) plain = false;
    }
    bool i64 = c.coin(5), fixed = !c.coin(5), v2 = c.coin(45);
    vector<int32_t> pv;
    for (auto& d : p) { pv.push_back((int32_t)d[0]); pv.push_back((int32_t)d[1]); }
    V pads;
    if (!fixed) {
      pads = f.Arg({4, 2}, "i32");
      T t;
      t.k = "i32";
      t.s = {4, 2};
      t.v.assign(pv.begin(), pv.end());
      in.push_back(t);
    } else if (i64) pads = f.Const(DenseL({4, 2}, vector<int64_t>(pv.begin(), pv.end())), {4, 2}, "i64");
    else pads = f.CI({4, 2}, pv);
    float value = 0;
    vector<V> po{x, pads};
    if (v2) {
      if (c.coin(25)) value = c.pick({1.f, -1.f, 0.25f, 1e-30f, -0.5f});
      else if (c.coin(20)) value = -0.f;
      Shape vs = c.coin(70) ? Shape{} : Shape{1};
      if (c.coin(95)) po.push_back(f.CF(vs, {value}));
      else { po.push_back(f.Arg(vs)); T t; t.s = vs; t.v = {value}; Interp::Fill(t); in.push_back(t); }
    }
    V y = f.Op(v2 ? "tfl.padv2" : "tfl.pad", po, "", {PN, PH, PW, PC});
    if (i64 || !fixed || value != 0 || std::signbit(value) || (v2 && po.back().name[1] == 'a')) plain = false;
    if (c.coin(8)) { f.Ret(y); plain = false; }
    int64_t mult = dwc ? c.range(1, 2) : 1, O = dwc ? PC * mult : c.range(1, 4);
    Shape fs = dwc ? Shape{1, fh, fw, O} : Shape{O, fh, fw, PC};
    vector<float> fv(Count(fs));
    for (auto& q : fv) q = ((float)r.below(17) - 8) / 4;
    V fil, bias;
    if (c.coin(92)) fil = f.CF(fs, fv);
    else { fil = f.Arg(fs, "f32", c.coin(30) ? 2 << c.draw(2) : 0); in.push_back(RandomFloat(r, fs, true)); }
    if (c.coin(20)) bias = f.None();
    else { vector<float> b(O); for (auto& q : b) q = ((float)r.below(17) - 8) / 4; bias = f.CF({O}, b); }
    Geo gy = Geometry(same, PH, fh, sh, dh), gx = Geometry(same, PW, fw, sw, dw);
    string a = Attr("dilation_h_factor", dh) + ", " + Attr("dilation_w_factor", dw) + ", " + Attr("fused_activation_function", string(c.coin(80) ? "NONE" : c.pick({"RELU", "RELU6"}))) + ", " +
               Attr("padding", string(same ? "SAME" : "VALID")) + ", " + Attr("stride_h", sh) + ", " + Attr("stride_w", sw) + (dwc ? ", " + Attr("depth_multiplier", mult) : "");
    int fdyn = fil.dyn;
    fil.dyn = 0;
    V z;
    {
      // The result's unknown dimensions are those of the image; the filter's do not count.
      V ff = fil;
      ff.dyn = fdyn;
      vector<V> o{y, ff, bias};
      z = f.Op(dwc ? "tfl.depthwise_conv_2d" : "tfl.conv_2d", o, a, {PN, gy.out, gx.out, O});
    }
    f.Ret(z);
    if (c.coin(8)) { f.Ret(f.Op("tfl.relu", {y}, "", y.s)); plain = false; }
    if (fdyn || fil.name[1] == 'a') plain = false;
    must += plain;
    c.label(how == 0 ? "same padding" : how == 1 ? "near to it" : "other padding");
    if (sh > 1 || sw > 1) c.label("strided");
    if (dh > 1 || dw > 1) c.label("dilated");
    if (dwc) c.label("depthwise");
    interesting = true;
  }
  if (!interesting) { c.discard(); return; }
  c.text(f.Module());
  auto again = in;
  for (auto& t : again) if (t.s.size() == 4 && t.isf()) t = RandomFloat(r, t.s, true);
  int before = 0;
  for (size_t at = f.body.find("\"tfl.pad"); at != string::npos; at = f.body.find("\"tfl.pad", at + 1)) ++before;
  if (!Preserves(c, f, {in, again}, true, false, [](mlir::ModuleOp m) { return RunPass(m, mlir::TFL::CreateFusePaddingPass()); }, [&](mlir::ModuleOp m, bool) {
        int now = CountOps(m, "tfl.pad") + CountOps(m, "tfl.padv2");
        if (before - now < must) c.fail("%d of %d paddings were folded, although %d are those of SAME. Afterwards:\n%s", before - now, before, must, Print(m).substr(0, 3000).c_str());
        if (must) c.label("has to be folded");
        if (now < before) { c.nontrivial(); c.label("fused"); }
      })) c.discard();
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
