// M04, M05, M06: the optimise pass. Arithmetic, activations, packed output, comparisons and pooling.
#include "mlir/src/mlirx.h"

namespace {
using namespace mx;

auto Optimise(LCETarget t) {
  return [t](mlir::ModuleOp m) { return RunPass(m, mlir::TFL::CreateOptimizeLCEPass(t)); };
}
int CountText(const string& s, const string& w) { int n = 0; for (size_t at = s.find(w); at != string::npos; at = s.find(w, at + 1)) ++n; return n; }
string Attr(const char* n, int64_t v) { return string(n) + " = " + S(v) + " : i32"; }
string Attr(const char* n, const string& v) { return string(n) + " = \"" + v + "\""; }

struct Gen {
  Ctx& c;
  Fn f;
  vector<T> in;
  pbt::Rng r;
  bool exact;
  int dyn;
  int relu_n = 0;
  explicit Gen(Ctx& c) : c(c), r(c.bulk()), exact(c.coin(60)), dyn(c.coin(8) ? (int)c.range(1, 7) : 0) {}

  float Mult(bool div = false) {
    if (exact) return c.pick({1.f, 2.f, 0.5f, -1.f, -2.f, -0.5f, 4.f, div ? 1.f : 0.f, div ? -4.f : -0.f});
    float v = (float)((0.05 + r.unit() * 3) * (r.below(3) ? 1 : -1));
    return !div && r.below(12) == 0 ? 0.f : v;
  }
  float Bias() {
    if (exact) return ((float)r.below(65) - 32) / 4;
    return r.below(8) == 0 ? 0.f : (float)(r.unit() * 20 - 10);
  }
  V Vec(int64_t n, bool mult, int kind) {  // kind 0: one / zero; 1: a single value; 2: per channel
    vector<float> v(n, mult ? 1.f : 0.f);
    if (kind) { float one = mult ? Mult() : Bias(); for (auto& x : v) x = kind == 1 ? one : mult ? MultBulk() : Bias(); }
    return f.CF({n}, v);
  }
  float MultBulk() {
    static const float e[] = {1, 2, 0.5f, -1, -2, -0.5f, 4, 0, -0.f, 1, -1, 2};
    if (exact) return e[r.below(12)];
    float v = (float)((0.05 + r.unit() * 3) * (r.below(2) ? 1 : -1));
    return r.below(12) == 0 ? 0.f : v;
  }
  struct Shape4 { int64_t n, h, w, c; };

  V Packed(int64_t N, int64_t H, int64_t W, int64_t C) {
    V p = f.Arg({N, H, W, Words(C)}, "i32", dyn);
    in.push_back(RandomPacked(r, {N, H, W, 0}, C));
    return p;
  }
  V Float(const Shape& s, const string& e = "f32") {
    V v = f.Arg(s, e, s.size() == 4 ? dyn : 0);
    T t = RandomFloat(r, s, true);
    t.k = e;
    if (e[0] == 'i') { t.m.clear(); for (auto& x : t.v) x = std::floor(x); }
    in.push_back(t);
    return v;
  }
  // A binary convolution of packed x with C channels.
  V Conv(V x, int64_t C, bool may_zero_pad) {
    int64_t groups = C % 64 == 0 && c.coin(20) ? 2 : 1, cpg = C / groups;
    int64_t O = groups * (c.coin(15) ? c.range(30, 34) : c.range(1, 5));
    int64_t fh = c.range(1, 3), fw = c.range(1, 3), sh = c.coin(75) ? 1 : c.range(1, 3), sw = c.coin(80) ? sh : c.range(1, 3), dh = c.coin(85) ? 1 : c.range(1, 2), dw = c.coin(85) ? dh : c.range(1, 2);
    bool fits = x.s[1] >= (fh - 1) * dh + 1 && x.s[2] >= (fw - 1) * dw + 1;
    int pad = !fits || c.coin(45) ? (c.coin(may_zero_pad ? 60 : 100) ? 1 : 0) : 2;  // SAME zero, SAME one, VALID
    string act = pad == 0 || c.coin(70) ? "NONE" : c.pick({"RELU", "RELU6", "RELU_N1_TO_1"});
    vector<float> fv(O * fh * fw * cpg);
    float s = c.coin(80) ? 1.f : 0.25f;
    for (auto& v : fv) v = r.below(2) ? s : -s;
    V fil = f.CF({O, fh, fw, cpg}, fv);
    int kind = (int)c.weighted({5, 1, 4});
    V mul = Vec(O, true, kind), bias = Vec(O, false, c.coin(70) ? kind : (int)c.range(0, 2));
    Geo gy = Geometry(pad != 2, x.s[1], fh, sh, dh), gx = Geometry(pad != 2, x.s[2], fw, sw, dw);
    V none = f.None();
    string a = Attr("channels_in", C) + ", " + Attr("dilation_height_factor", dh) + ", " + Attr("dilation_width_factor", dw) + ", " + Attr("fused_activation_function", act) + ", " +
               Attr("pad_values", pad == 1 ? 1 : 0) + ", " + Attr("padding", string(pad == 2 ? "VALID" : "SAME")) + ", " + Attr("stride_height", sh) + ", " + Attr("stride_width", sw);
    c.label(pad == 0 ? "zero-padded" : pad == 1 ? "one-padded" : "valid");
    if (act != "NONE") c.label("fused activation");
    return f.Op("lq.Bconv2d", {x, fil, mul, bias, none}, a, {x.s[0], gy.out, gx.out, O});
  }
  string AfAttr(int none = 85) { return Attr("fused_activation_function", string(c.coin(none) ? "NONE" : c.pick({"RELU", "RELU6", "RELU_N1_TO_1"}))); }
  // One step of arithmetic or an activation on x.
  V Step(V x) {
    int k = (int)c.weighted({4, 3, 4, 3, 3, 1, 1});
    if (k >= 4) return f.Op(k == 4 ? c.pick({"tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1"}) : k == 5 ? "tfl.relu" : "tfl.relu6", {x}, "", x.s);
    static const char* names[] = {"tfl.add", "tfl.sub", "tfl.mul", "tfl.div"};
    bool mult = k >= 2;
    int64_t O = x.s.back();
    Shape s, out = x.s;
    switch (c.weighted({10, 3, 1, 2, 1, 1, 1, 1})) {
      case 0: s = {O}; break;
      case 1: break;
      case 2: s = {1}; break;
      case 3: s = {1, 1, 1, O}; break;
      case 4: s = {x.s[1], x.s[2], O}; break;
      case 5: s = {1, x.s[1], 1, 1}; break;
      case 6: s = {x.s[2], 1}; break;
      default:  // makes the result larger
        s = {O == 1 ? c.range(2, 3) : O};
        if (c.coin() && x.s[0] == 1) s = {2, 1, 1, O};
        break;
    }
    for (size_t i = 0; i < s.size(); ++i) { int64_t& d = out[4 - s.size() + i]; d = std::max(d, s[i]); }
    V o;
    if (c.coin(93)) {
      vector<float> v(Count(s));
      bool div = k == 3;
      for (auto& q : v) q = mult ? (div ? [&] { float m; do m = MultBulk(); while (m == 0); return m; }() : MultBulk()) : Bias();
      if (c.coin(15) && !v.empty()) for (auto& q : v) q = mult ? 1.f : 0.f;
      o = f.CF(s, v);
    } else {
      if (k == 3) { k = 2; }
      o = Float(s);
      for (auto& q : in.back().v) q = mult ? 2 : q;
      in.back().m.clear();
      Interp::Fill(in.back());
    }
    bool swap = k != 3 && c.coin(12);
    V res = f.Op(names[k], swap ? vector<V>{o, x} : vector<V>{x, o}, AfAttr(), out);
    return res;
  }
  V Quantize(V x) {
    Shape s = x.s;
    s.back() = Words(s.back());
    return f.Op("lq.Quantize", {x}, "", s, "i32");
  }
  V Pool(V x, bool max = true) {
    int64_t fh = c.range(1, 3), fw = c.range(1, 3), sh = c.range(1, 3), sw = c.coin(70) ? sh : c.range(1, 3);
    bool same = c.coin() || x.s[1] < fh || x.s[2] < fw;
    string a = Attr("filter_height", fh) + ", " + Attr("filter_width", fw) + ", " + AfAttr(80) + ", " + Attr("padding", string(same ? "SAME" : "VALID")) + ", " + Attr("stride_h", sh) + ", " + Attr("stride_w", sw);
    return f.Op(max ? "tfl.max_pool_2d" : "tfl.average_pool_2d", {x}, a, {x.s[0], Geometry(same, x.s[1], fh, sh, 1).out, Geometry(same, x.s[2], fw, sw, 1).out, x.s[3]});
  }
  void Image(int64_t& N, int64_t& H, int64_t& W, int64_t& C) {
    N = c.range(1, 2);
    H = c.range(1, 6);
    W = c.range(1, 6);
    C = c.pick({1, 3, 31, 32, 33, 64, 128});
  }
  bool Finish(LCETarget t, const std::function<void(mlir::ModuleOp, bool)>& after) {
    c.text(string(t == LCETarget::ARM ? "arm" : "xcore") + (exact ? " exact\n" : "\n") + f.Module());
    vector<vector<T>> ins{in};
    auto again = in;
    for (size_t i = 0; i < again.size(); ++i) {
      T& t = again[i];
      if (t.k == "i32" && f.args[i].e == "i32" && f.args[i].s.size() == 4 && packed.count(f.args[i].name))
        t = RandomPacked(r, {t.s[0], t.s[1], t.s[2], 0}, packed[f.args[i].name]);
    }
    ins.push_back(again);
    return Preserves(c, f, ins, exact, true, Optimise(t), after);
  }
  std::map<string, int64_t> packed;
};
}  // namespace

PBT_PROPERTY(M04) {
  E().Fresh();
  Gen g(c);
  int64_t N, H, W, C;
  g.Image(N, H, W, C);
  V p = g.Packed(N, H, W, C);
  g.packed[p.name] = C;
  V x = g.Conv(p, C, true);
  int steps = (int)c.range(1, g.exact ? 3 : 4);
  bool shared = c.coin(10);
  if (shared) g.f.Ret(x);
  for (int i = 0; i < steps; ++i) {
    x = g.Step(x);
    if (i + 1 < steps && c.coin(12)) g.f.Ret(x);
  }
  g.f.Ret(x);
  if (!shared && c.coin(10)) g.f.Ret(g.Quantize(x));
  LCETarget t = c.coin() ? LCETarget::ARM : LCETarget::XCORE;
  int before = steps;
  if (!g.Finish(t, [&](mlir::ModuleOp m, bool) {
        int left = 0;
        for (auto n : {"tfl.add", "tfl.sub", "tfl.mul", "tfl.div", "tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1"}) left += CountOps(m, n);
        if (left < before) { c.nontrivial(); c.label("fused " + S(before - left)); }
      })) c.discard();
}

PBT_PROPERTY(M05) {
  E().Fresh();
  Gen g(c);
  int64_t N, H, W, C;
  g.Image(N, H, W, C);
  V p = g.Packed(N, H, W, C);
  g.packed[p.name] = C;
  V x = g.Conv(p, C, c.coin(30));
  int steps = (int)c.weighted({5, 3, 2, 1});
  for (int i = 0; i < steps; ++i) x = g.Step(x);
  if (c.coin(8)) g.f.Ret(x);
  V q = g.Quantize(x);
  g.f.Ret(q);
  if (c.coin(20) && x.s[1] > 0 && x.s[2] > 0) {  // and on into the next layer
    V y = g.Conv(q, x.s[3], true);
    if (c.coin()) y = g.Quantize(y);
    g.f.Ret(y);
  }
  LCETarget t = c.coin() ? LCETarget::ARM : LCETarget::XCORE;
  if (!g.Finish(t, [&](mlir::ModuleOp m, bool) {
        bool out = false;
        m->walk([&](mlir::lq::Bconv2dOp o) { out = out || mlir::cast<mlir::ShapedType>(o.getOutput().getType()).getElementType().isInteger(32); });
        if (out) { c.nontrivial(); c.label("packed output"); }
      })) c.discard();
}

PBT_PROPERTY(M06) {
  E().Fresh();
  Gen g(c);
  g.exact = true;
  int64_t N, H, W, C;
  g.Image(N, H, W, C);
  C = c.pick({1, 2, 31, 32, 33});
  Shape s{N, H, W, C};
  if (c.coin(25)) { s.clear(); for (int64_t i = c.range(1, 3); i > 0; --i) s.push_back(c.range(1, 4)); }
  string e = c.pick({"f32", "f32", "f32", "f32", "f32", "i32", "i64"});
  V x;
  int kind = (int)c.weighted({5, 4});
  if (s.size() != 4 || s[0] < 1) kind = 0;
  x = g.Float(s, kind ? "f32" : e);
  if (kind == 0) {
    // quantise(compare(...))
    Shape o = s;
    switch (c.weighted({4, 4, 3, 1})) {
      case 0: o = {}; break;
      case 1: o = {s.back()}; break;
      case 3: { o.insert(o.begin(), c.range(1, 2)); break; }
      default: for (auto& d : o) if (c.coin(30)) d = 1; break;
    }
    if (c.coin(10)) for (size_t i = 0; i < o.size() && i < s.size(); ++i) if (s[s.size() - 1 - i] == 1 && c.coin()) o[o.size() - 1 - i] = c.range(1, 3);
    V y;
    bool zero = c.coin(45);
    if (c.coin(75)) {
      vector<float> v(Count(o), 0.f);
      if (!zero) for (auto& q : v) q = ((float)g.r.below(33) - 16) / 4;
      if (zero && c.coin(20)) for (auto& q : v) q = -0.f;
      if (zero && c.coin(10) && !v.empty()) v[c.draw(v.size())] = 0.25f;
      if (e == "f32") y = g.f.CF(o, v);
      else {
        vector<int64_t> w(v.begin(), v.end());
        y = e == "i32" ? g.f.CI(o, vector<int32_t>(w.begin(), w.end())) : g.f.Const(DenseL(o, w), o, "i64");
      }
    } else {
      y = g.Float(o, e);
    }
    Shape out;
    { size_t n = std::max(s.size(), o.size()); for (size_t i = 0; i < n; ++i) out.push_back(std::max(i + s.size() < n ? 1 : s[i + s.size() - n], i + o.size() < n ? 1 : o[i + o.size() - n])); }
    string op = c.pick({"tfl.greater_equal", "tfl.greater_equal", "tfl.less_equal", "tfl.greater", "tfl.less"});
    V b = g.f.Op(op, c.coin(75) ? vector<V>{x, y} : vector<V>{y, x}, "", out, "i1");
    int uses = (int)c.weighted({8, 1, 1, 1});
    V q = g.Quantize(b);
    g.f.Ret(q);
    if (uses == 1) g.f.Ret(b);
    if (uses == 2) g.f.Ret(g.Quantize(b));
    if (uses == 3 && e == "f32") g.f.Ret(g.Quantize(x));  // the runtime takes no integers
    c.label(zero ? "compared with zero" : "compared");
    LCETarget t = c.coin() ? LCETarget::ARM : LCETarget::XCORE;
    int before = CountText(g.f.body, "tfl.greater_equal") + CountText(g.f.body, "tfl.less_equal");
    if (!g.Finish(t, [&](mlir::ModuleOp m, bool) {
          int now = CountOps(m, "tfl.greater_equal") + CountOps(m, "tfl.less_equal");
          if (now < before) { c.nontrivial(); c.label(CountOps(m, "tfl.sub") ? "became a difference" : "removed"); }
        })) c.discard();
    return;
  }
  V y = x;
  if (c.coin(25)) y = g.f.Op(c.pick({"tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1"}), {y}, "", y.s);
  y = g.Pool(y, c.coin(85));
  if (c.coin(12)) g.f.Ret(y);
  V q = g.Quantize(y);
  g.f.Ret(q);
  if (c.coin(15)) g.f.Ret(g.Quantize(y));
  LCETarget t = c.coin(65) ? LCETarget::ARM : LCETarget::XCORE;
  if (!g.Finish(t, [&](mlir::ModuleOp m, bool) {
        int n = CountOps(m, "lq.BMaxPool2d");
        if (n) { c.nontrivial(); c.label("binary pooling"); }
        if (n && t != LCETarget::ARM) c.fail("binary pooling on a target that does not have it");
      })) c.discard();
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
