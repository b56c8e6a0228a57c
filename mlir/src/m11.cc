// M11: quantise/dequantise pairs around LCE operations.
#include "mlir/src/mlirx.h"

namespace {
using namespace mx;
string Attr(const char* n, int64_t v) { return string(n) + " = " + S(v) + " : i32"; }
string Attr(const char* n, const string& v) { return string(n) + " = \"" + v + "\""; }

struct Gen {
  Ctx& c;
  Fn f, ref;  // ref: the same, with the parameters of convolutions as they were before they were quantised
  vector<T> in;
  pbt::Rng r;
  int dyn;
  bool zero_q = false;  // a zero-padded convolution has a quantised result (known finding)
  int pairs = 0;
  explicit Gen(Ctx& c) : c(c), r(c.bulk()), dyn(c.coin(8) ? (int)c.range(1, 7) : 0) {}

  V Op(const string& op, const vector<V>& i, const string& a, const Shape& s, const string& e = "f32") {
    V v = f.Op(op, i, a, s, e), w = ref.Op(op, i, a, s, e);
    if (v.name != w.name) { fprintf(stderr, "harness: names\n"); exit(3); }
    return v;
  }
  V Const(const Shape& s, const vector<float>& v) { ref.CF(s, v); return f.CF(s, v); }
  V None() { ref.None(); return f.None(); }
  V Arg(const Shape& s, const string& e = "f32") {
    int d = s.size() == 4 ? dyn : 0;
    ref.Arg(s, e, d);
    return f.Arg(s, e, d);
  }
  void Ret(V v) { f.Ret(v); ref.Ret(v); }
  // A quantised type; scales are powers of two so that nothing is rounded differently.
  string QType(bool params = false) {
    static const char* scales[] = {"1.000000e+00", "2.500000e-01", "5.000000e-01", "2.000000e+00", "6.250000e-02", "7.812500e-03", "1.600000e+01"};
    const char* st = c.coin(93) ? "i8" : "i16";
    int zp = c.coin(40) ? 0 : (int)c.range(-128, 127);
    (void)params;
    return string("!quant.uniform<") + st + ":f32, " + scales[c.draw(7)] + (zp ? ":" + S(zp) : "") + ">";
  }
  V Q(V x, const string& e) { V t{"", x.s, e, x.dyn}; return Op("tfl.quantize", {x}, "qtype = " + t.type(), x.s, e); }
  V DQ(V x) { return Op("tfl.dequantize", {x}, "", x.s); }
  V QArg(const Shape& s, const string& e) {
    V v = Arg(s, e);
    T t = Tensor(e.find("i16") != string::npos ? "q16" : "q8", s, {});
    size_t at = e.find(", ") + 2;
    t.scale = atof(e.c_str() + at);
    size_t colon = e.find(':', at);
    t.zp = colon == string::npos ? 0 : atoi(e.c_str() + colon + 1);
    for (int64_t i = 0, n = Count(s); i < n; ++i) t.v.push_back(r.below(4) == 0 ? (double)t.zp : (double)(int64_t)r.below(256) - 128);
    in.push_back(t);
    return v;
  }
  V LQuantize(V x) {
    Shape s = x.s;
    s.back() = Words(s.back());
    return Op("lq.Quantize", {x}, "", s, "i32");
  }
  // A parameter of a convolution: as it is, quantised (in `ref` too only if `both` is not), or computed.
  V Param(int64_t O, bool mult, int how, bool both) {
    vector<float> v(O);
    for (auto& q : v) q = mult ? c.pick({1.f, 0.5f, -1.f, -0.25f, 2.f, 0.f}) : ((float)r.below(65) - 32) / 8;
    if (how == 3) {
      V a = Arg({O});
      T t;
      t.s = {O};
      t.v.assign(v.begin(), v.end());
      Interp::Fill(t);
      in.push_back(t);
      return a;
    }
    if (how == 2) return DQ(QArg({O}, QType()));
    if (how == 4) return DQ(Q(QArg({O}, QType()), QType()));  // quantised twice: what it was is not known
    V x = Const({O}, v);
    if (how == 0) return x;
    string e = QType(true);
    V q = Q(x, e), d = DQ(q);
    if (c.coin(10)) Ret(q);
    if (c.coin(10)) Ret(d);
    ++pairs;
    if (both) d.name += "|" + x.name;  // resolved by Conv
    return d;
  }
  V Conv() {
    int64_t N = c.range(1, 2), H = c.range(1, 5), W = c.range(1, 5), C = c.pick({1, 3, 31, 32, 33, 64, 96}), O = c.coin(15) ? c.range(31, 34) : c.range(1, 5);
    int64_t fh = c.range(1, 3), fw = c.range(1, 3), sh = c.coin(75) ? 1 : c.range(1, 3), sw = c.coin(75) ? sh : c.range(1, 3), dh = c.coin(85) ? 1 : 2, dw = c.coin(85) ? dh : 2;
    bool fits = H >= (fh - 1) * dh + 1 && W >= (fw - 1) * dw + 1;
    int pad = !fits || c.coin(45) ? (c.coin(70) ? 1 : 0) : 2;  // SAME zero, SAME one, VALID
    string act = pad == 0 || c.coin(70) ? "NONE" : c.pick({"RELU", "RELU6", "RELU_N1_TO_1"});
    V x = Arg({N, H, W, Words(C)}, "i32");
    in.push_back(RandomPacked(r, {N, H, W, 0}, C));
    V fil;
    if (c.coin()) {
      vector<float> fv(O * fh * fw * C);
      for (auto& q : fv) q = r.below(2) ? 1.f : -1.f;
      fil = Const({O, fh, fw, C}, fv);
    } else {
      fil = Arg({O, fh, fw, Words(C)}, "i32");
      fil.dyn = 0;
      f.args.back().dyn = ref.args.back().dyn = 0;
      in.push_back(RandomPacked(r, {O, fh, fw, 0}, C));
    }
    Geo gy = Geometry(pad != 2, H, fh, sh, dh), gx = Geometry(pad != 2, W, fw, sw, dw);
    string a = Attr("channels_in", C) + ", " + Attr("dilation_height_factor", dh) + ", " + Attr("dilation_width_factor", dw) + ", " + Attr("fused_activation_function", act) + ", " +
               Attr("pad_values", pad == 1 ? 1 : 0) + ", " + Attr("padding", string(pad == 2 ? "VALID" : "SAME")) + ", " + Attr("stride_height", sh) + ", " + Attr("stride_width", sw);
    Shape os{N, gy.out, gx.out, O};
    if (c.coin(6) && pad != 0) {  // packed output
      V none = None(), th = Arg({O}, "i32");
      T t;
      t.k = "i32";
      t.s = {O};
      for (int64_t i = 0; i < O; ++i) t.v.push_back((double)((int64_t)r.below(fh * fw * C + 3) - 1));
      in.push_back(t);
      os.back() = Words(O);
      V y = Op("lq.Bconv2d", {x, fil, none, none, th}, a, os, "i32");
      if (c.coin()) { Ret(y); return {}; }
      os.back() = O;
      c.label("packed convolution");
      return Op("lq.Dequantize", {y}, "", os);
    }
    int hm = (int)c.weighted({3, 8, 1, 1, 1}), hb = c.coin(80) ? hm : (int)c.weighted({3, 8, 1, 1, 1});
    bool both = hm == 1 && hb == 1;
    V m = Param(O, true, hm, both), b = Param(O, false, hb, both), none = None();
    auto split = [](V& v, V& raw) { raw = v; size_t at = v.name.find('|'); if (at != string::npos) { raw.name = v.name.substr(at + 1); v.name.resize(at); } };
    V rm, rb;
    split(m, rm);
    split(b, rb);
    V y;
    string e = c.coin(10) ? QType() : "f32";  // absorbed already
    if (e.find("i16") != string::npos) e = "f32";
    if (pad == 0) { if (e != "f32") e = "f32"; zero = true; }
    y = f.Op("lq.Bconv2d", {x, fil, m, b, none}, a, os, e);
    ref.Op("lq.Bconv2d", {x, fil, rm, rb, none}, a, os, e);
    if (both) c.label("parameters quantised");
    return y;
  }
  bool zero = false;
  V Source() {
    zero = false;
    switch (c.weighted({6, 3, 3, 1})) {
      case 0: return Conv();
      case 1: {
        int64_t C = c.pick({1, 3, 32, 33, 64});
        Shape s{c.range(1, 2), c.range(1, 3), c.range(1, 3), Words(C)};
        if (c.coin(20)) s = {c.range(1, 3), Words(C)};
        V x = Arg(s, "i32");
        in.push_back(RandomPacked(r, s, C));
        s.back() = C;
        string e = c.coin(15) ? QType() : "f32";
        if (e.find("i16") != string::npos) e = "f32";
        return Op("lq.Dequantize", {x}, "", s, e);
      }
      case 2: {
        Shape s{c.range(1, 2), c.range(1, 3), c.range(1, 3), c.pick({1, 3, 32, 33, 64})};
        if (c.coin(20)) s = {c.pick({1, 5, 32, 40})};
        return QArg(s, QType());
      }
      default: {
        Shape s{c.range(1, 2), c.range(1, 3), c.range(1, 3), c.pick({1, 3, 33})};
        V v = Arg(s);
        in.push_back(RandomFloat(r, s, true));
        return v;
      }
    }
  }
  void Chain() {
    V x = Source();
    if (x.name.empty()) return;
    bool from_conv = true, z = zero;
    for (int i = (int)c.range(0, 4); i > 0; --i) {
      if (c.coin(12)) Ret(x);
      if (x.e[0] == '!') {
        if (c.coin(15)) x = Q(x, QType());
        else { x = DQ(x); ++pairs; }
      } else if (c.coin(55)) {
        bool direct = z && from_conv;
        x = Q(x, QType());
        if (direct) zero_q = true;
        ++pairs;
      } else if (c.coin(50)) {
        V p = LQuantize(x);
        Ret(p);
        if (c.coin(40)) continue;
        if (c.coin(50)) return;
        x = Op("lq.Dequantize", {p}, "", x.s, c.coin(80) ? "f32" : "!quant.uniform<i8:f32, 5.000000e-01:3>");
      } else x = Op("tfl.relu", {x}, "", x.s);
      from_conv = false;
      z = false;
    }
    if (c.coin(10) && x.e[0] == '!') Ret(DQ(x));
    if (c.coin(25) && x.e[0] == '!') Ret(LQuantize(DQ(x)));
    Ret(x);
  }
};
int Count3(mlir::ModuleOp m, const char* n) { return CountOps(m, n); }
}  // namespace

PBT_PROPERTY(M11) {
  E().Fresh();
  Gen g(c);
  int n = (int)c.range(1, 3);
  for (int i = 0; i < n; ++i) g.Chain();
  c.text(g.f.Module());
  // Another set of inputs, of packed and float values only.
  vector<T> again = g.in;
  for (auto& t : again) if (t.k == "f32" && t.s.size() == 4) t = RandomFloat(g.r, t.s, true);
  int before[3] = {0, 0, 0}, calls = 0;
  static const char* lce[3] = {"lq.Bconv2d", "lq.Quantize", "lq.Dequantize"};
  for (int k = 0; k < 3; ++k)
    for (size_t at = g.f.body.find(string("\"") + lce[k]); at != string::npos; at = g.f.body.find(string("\"") + lce[k], at + 1)) ++before[k];
  (void)calls;
  if (!Preserves(c, g.ref, {g.in, again}, true, !g.zero_q, [](mlir::ModuleOp m) { return RunPass(m, mlir::TFL::CreateLCEQuantizePass()); },
                 [&](mlir::ModuleOp m, bool changed) {
                   for (int k = 0; k < 3; ++k) if (Count3(m, lce[k]) > before[k]) c.fail("there are more %s than before:\n%s", lce[k], Print(m).substr(0, 3000).c_str());
                   m.walk([&](mlir::Operation* o) {
                     if (o->getName().getStringRef() != "lq.Bconv2d") return;
                     auto par = [&](int i) {
                       auto d = o->getOperand(i).getDefiningOp();
                       if (!d || d->getName().getStringRef() != "tfl.dequantize") return false;
                       auto q = d->getOperand(0).getDefiningOp();
                       return q && q->getName().getStringRef() == "tfl.quantize" && mlir::cast<mlir::ShapedType>(q->getOperand(0).getType()).getElementType().isF32();
                     };
                     if (par(2) && par(3)) c.fail("the parameters of a convolution are still quantised:\n%s", Print(m).substr(0, 3000).c_str());
                   });
                   if (changed && g.pairs) c.nontrivial();
                 },
                 1e-5, nullptr, &g.f)) c.discard();
}

// Known finding: a zero-padded convolution gets an 8-bit result, which only the reference kernel computes.
PBT_PROPERTY(M11_zero_padding) {
  E().Fresh();
  Fn f;
  V x = f.Arg({1, 2, 2, 1}, "i32"), w = f.Arg({1, 3, 3, 1}, "i32"), m = f.CF({1}, {1.f}), b = f.CF({1}, {0.f}), none = f.None();
  V y = f.Op("lq.Bconv2d", {x, w, m, b, none}, Attr("channels_in", 32) + ", " + Attr("dilation_height_factor", 1) + ", " + Attr("dilation_width_factor", 1) + ", " + Attr("fused_activation_function", "NONE") + ", " + Attr("pad_values", 0) + ", " + Attr("padding", "SAME") + ", " + Attr("stride_height", 1) + ", " + Attr("stride_width", 1), {1, 2, 2, 1});
  string e = "!quant.uniform<i8:f32, 5.000000e-01>";
  V q = f.Op("tfl.quantize", {y}, "qtype = " + Ty({1, 2, 2, 1}, e), {1, 2, 2, 1}, e);
  f.Ret(q);
  pbt::Rng r(c.bulk());
  c.text(f.Module());
  Preserves(c, f, {{RandomPacked(r, {1, 2, 2, 0}, 32), RandomPacked(r, {1, 3, 3, 0}, 32)}}, true, true, [](mlir::ModuleOp m) { return RunPass(m, mlir::TFL::CreateLCEQuantizePass()); }, [](mlir::ModuleOp, bool) {});
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
