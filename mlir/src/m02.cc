// M02, M03: the prepare pass. Sign recognition, and convolutions becoming binary.
#include "mlir/src/mlirx.h"

namespace {
using namespace mx;

LCETarget Target(Ctx& c) { return c.coin(70) ? LCETarget::ARM : LCETarget::XCORE; }
auto Prepare(LCETarget t) {
  return [t](mlir::ModuleOp m) { return RunPass(m, mlir::TFL::CreatePrepareLCEPass(t)); };
}

Shape RandomShape(Ctx& c, int max_rank = 5) {
  Shape s;
  int r = (int)c.weighted({3, 6, 6, 4, 6, 1});
  for (int i = 0; i < std::min(r, max_rank); ++i) s.push_back(c.coin(8) ? c.range(30, 34) : c.range(1, 4));
  return s;
}
// A shape that broadcasts to s.
Shape Narrow(Ctx& c, const Shape& s) {
  Shape r = s;
  for (auto& d : r) if (c.coin(25)) d = 1;
  size_t drop = c.coin(40) ? c.draw(r.size() + 1) : 0;
  r.erase(r.begin(), r.begin() + drop);
  return r;
}
string FloatConst(const Shape& s, const string& e, const vector<double>& v) {
  string body;
  size_t at = 0;
  bool same = true;
  for (double x : v) same = same && x == v[0];
  auto one = +[](double x) { return Num((float)x); };
  body = same ? one(v[0]) : Nest<double>(v, s, 0, at, one);
  return "dense<" + body + "> : " + Ty(s, e);
}

}  // namespace

PBT_PROPERTY(M02) {
  E().Fresh();
  Fn f;
  pbt::Rng r = c.bulk();
  vector<T> in;
  auto arg = [&](const Shape& s, const string& e, bool dyn) {
    V v = f.Arg(s, e, dyn);
    T t = RandomFloat(r, s, true);
    t.k = e;
    if (e == "i1") for (auto& x : t.v) x = (double)r.below(2);
    else if (e[0] == 'i') for (auto& x : t.v) x = std::floor(x);
    if (!t.isf()) t.m.clear();
    in.push_back(t);
    return v;
  };
  int pieces = (int)c.range(1, 3);
  bool dyn = c.coin(12);
  std::vector<V> all;
  for (int p = 0; p < pieces; ++p) {
    if (c.coin(70)) {
      bool v2 = c.coin(60);
      Shape s = RandomShape(c);
      Shape cs = s, xs = s, ys = s;
      if (v2 && c.coin(60)) {
        cs = c.coin(40) ? s : Narrow(c, s);
        xs = c.coin(30) ? s : Narrow(c, s);
        ys = c.coin(30) ? s : Narrow(c, s);
        auto bc = [](const Shape& a, const Shape& b) {
          size_t n = std::max(a.size(), b.size());
          Shape o;
          for (size_t i = 0; i < n; ++i) o.push_back(std::max(i + a.size() < n ? 1 : a[i + a.size() - n], i + b.size() < n ? 1 : b[i + b.size() - n]));
          return o;
        };
        s = bc(cs, bc(xs, ys));
      } else if (!v2) {
        switch (c.weighted({6, 1, 2})) {
          case 1: cs = {}; break;
          case 2: if (!s.empty()) cs = {s[0]}; break;
          default: break;
        }
      }
      string e = c.pick({"f32", "f32", "f32", "f32", "f32", "f32", "f64", "f16", "bf16", "i32", "i64"});
      bool d = dyn && cs == s && !cs.empty();
      V cond;
      if (c.coin(50)) {
        V x = arg(cs, "f32", d), z = f.CF({}, {0});
        cond = f.Op(c.pick({"tf.GreaterEqual", "tf.Greater", "tf.Less"}), {x, z}, "", cs, "i1");
        cond.dyn = x.dyn;
      } else {
        cond = arg(cs, "i1", d);
      }
      int kind = (int)c.weighted({8, 6, 1, 1, 1, 1, 1, 1, 1});
      auto branch = [&](bool then, const Shape& bs) {
        vector<double> v(Count(bs), 0);
        double val = kind == 0 ? (then ? 1 : -1) : kind == 1 ? (then ? -1 : 1) : kind == 2 ? 1 : kind == 3 ? -1 : kind == 4 ? (then ? 1.00390625 : -1) : kind == 5 ? (then ? 1 : 0) : (then ? 1 : -1);
        for (auto& x : v) x = val;
        if (kind == 6 && !v.empty()) v[c.draw(v.size())] = then ? 0.5 : -0.5;
        if (kind == 7 && then && !v.empty()) v[c.draw(v.size())] = NAN;
        if (kind == 8 && then) return arg(bs, e, false);
        if (e[0] == 'i') {
          // integers, sometimes those that look like +/-1 in floating point
          bool look = c.coin(50);
          vector<int64_t> w;
          for (double x : v) { int32_t bits = x >= 0 ? 0x3f800000 : (int32_t)0xbf800000; w.push_back(look ? bits : std::isnan(x) ? 2 : (int64_t)x); }
          bool same = true;
          for (auto x : w) same = same && x == w[0];
          size_t at = 0;
          string body = same ? S(w[0]) : Nest<int64_t>(w, bs, 0, at, +[](int64_t x) { return S(x); });
          return f.Const("dense<" + body + "> : " + Ty(bs, e), bs, e);
        }
        string op = c.coin(15) ? "tf.Const" : "arith.constant";
        return f.Op(op, {}, "value = " + [&] {
          string t = FloatConst(bs, e, v);
          size_t at;
          while ((at = t.find("0x7FC00000")) != string::npos) t.replace(at, 10, e == "f64" ? "0x7FF8000000000000" : e == "f16" ? "0x7E00" : e == "bf16" ? "0x7FC0" : "0x7fc00000");
          return t;
        }(), bs, e);
      };
      V a = branch(true, xs), b = branch(false, ys);
      V o = f.Op(v2 ? "tf.SelectV2" : "tf.Select", {cond, a, b}, "", s, e);
      c.label(v2 ? "SelectV2" : "Select");
      if (cs != s) c.label("condition broadcast");
      all.push_back(o);
      if (c.coin(25)) all.push_back(cond);
    } else {
      c.label("legacy sign");
      Shape s = RandomShape(c);
      string e = "f32";
      bool d = dyn && !s.empty();
      V x = arg(s, e, d);
      V sg = f.Op("tf.Sign", {x}, "", s, e);
      Shape cs = c.coin(60) ? Shape{} : c.coin(60) ? Narrow(c, s) : s;
      Shape os = s;
      if (c.coin(10)) { cs = s; cs.insert(cs.begin(), 2); os = cs; }
      V cc;
      if (c.coin(90)) {
        float val = c.pick({0.1f, 0.5f, 0.9f, 1e-6f, 0.f, 1.f, 1.5f, -0.1f, -1.f, 3.f});
        vector<float> v(Count(cs), val);
        if (c.coin(10) && !v.empty()) v[c.draw(v.size())] = c.pick({0.25f, -0.5f, 2.f});
        cc = f.CF(cs, v);
      } else {
        cc = arg(cs, e, false);
      }
      V sum = f.Op("tf.AddV2", c.coin(70) ? vector<V>{sg, cc} : vector<V>{cc, sg}, "", os, e);
      V o = f.Op("tf.Sign", {sum}, "", os, e);
      all.push_back(o);
      if (c.coin(15)) all.push_back(sg);
      if (c.coin(15)) all.push_back(sum);
    }
  }
  for (auto& v : all) { if (c.coin(15) && v.e == "f32") { V k = f.Op("tf.Relu", {v}, "", v.s, v.e); f.Ret(k); } f.Ret(v); }
  c.text(f.Module());
  vector<vector<T>> ins{in};
  for (auto& t : in) if (t.k == "i1") for (auto& x : t.v) x = 1 - x; else if (t.isf()) for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = -t.v[i];
  ins.push_back(in);
  if (!Preserves(c, f, ins, true, false, Prepare(Target(c)), [&](mlir::ModuleOp m, bool changed) {
        if (CountOps(m, "lq.Quantize")) { c.nontrivial(); c.label("recognised"); }
      })) c.discard();
}

PBT_PROPERTY(M03) {
  E().Fresh();
  Fn f;
  vector<T> in;
  pbt::Rng r = c.bulk();
  bool exact = c.coin(60);
  double tol = 1e-5;
  LCETarget target = Target(c);
  // geometry
  int64_t N = c.range(1, 2), H = c.range(1, 8), W = c.range(1, 8);
  int64_t groups = c.coin(15) ? c.pick({2, 2, 3, 4}) : 1;
  int64_t cpg = groups > 1 ? c.pick({32, 32, 64, 8, 16, 31}) : c.pick({1, 2, 3, 8, 31, 32, 33, 64});
  int64_t C = groups * cpg, O = groups * c.range(1, 4);
  int64_t fh = c.range(1, 4), fw = c.range(1, 4), sh = c.coin(60) ? 1 : c.range(1, 4), sw = c.coin(60) ? sh : c.range(1, 4), dh = c.coin(75) ? 1 : c.range(1, 3), dw = c.coin(75) ? dh : c.range(1, 3);
  int64_t ekh = (fh - 1) * dh + 1, ekw = (fw - 1) * dw + 1;
  if (c.coin(60)) { H = std::max(H, ekh); W = std::max(W, ekw); }
  int dyn = c.coin(10) ? (int)c.range(1, 7) : 0;
  static const char* modes[] = {"VALID", "SAME", "PadV2", "EXPLICIT", "Pad", "PadV2+SAME"};
  string mode = modes[c.weighted({7, 6, 10, 1, 1, 1})];
  // The signs.
  V x;
  Shape s{N, H, W, C};
  bool raw = c.coin(8);  // not signs at all
  if (raw) {
    x = f.Arg(s, "f32", dyn);
    in.push_back(RandomFloat(r, s, true));
  } else if (c.coin(75)) {
    V p = f.Arg({N, H, W, Words(C)}, "i32", dyn);
    in.push_back(RandomPacked(r, s, C));
    x = f.Op("lq.Dequantize", {p}, "", s);
  } else {
    V a = f.Arg(s, "f32", dyn), z = f.CF({}, {0});
    in.push_back(RandomFloat(r, s, true));
    V ge = f.Op("tf.GreaterEqual", {a, z}, "", s, "i1");
    ge.dyn = dyn;
    x = f.Op("tf.SelectV2", {ge, f.CF({}, {1}), f.CF({}, {-1})}, "", s);
  }
  if (c.coin(8)) f.Ret(x);
  // The padding.
  bool same_attr = mode == "SAME" || mode == "PadV2+SAME";
  string explicit_attr;
  V y = x;
  Shape ps = s;
  // A known finding: explicit padding that gives the size SAME gives, but at another offset.
  bool known = false;
  Fn alt;
  V alty;
  vector<int64_t> pads(8, 0);
  string padtext = "none";
  float pv = 1;
  bool pad_i64 = false;
  if (mode != "VALID" && mode != "SAME") {
    auto total = [](int64_t in, int64_t ek, int64_t st) { int64_t o = (in + st - 1) / st; return std::max<int64_t>((o - 1) * st + ek - in, 0); };
    int64_t th = total(H, ekh, sh), tw = total(W, ekw, sw);
    pads[2] = th / 2; pads[3] = th - th / 2; pads[4] = tw / 2; pads[5] = tw - tw / 2;
    switch (c.weighted({16, 3, 2, 2, 2, 1, 1})) {
      case 1: {  // symmetric, as ZeroPadding2D gives
        int64_t k = c.range(0, 2);
        pads[2] = pads[3] = k;
        pads[4] = pads[5] = c.coin() ? k : c.range(0, 2);
        break;
      }
      case 2: std::swap(pads[2], pads[3]); std::swap(pads[4], pads[5]); break;
      case 3: pads[3]++; pads[5]++; break;
      case 4: for (int i = 2; i < 6; ++i) pads[i] = c.range(0, 3); break;
      case 5: pads[c.draw(2)] = 1; break;
      case 6: pads[6 + c.draw(2)] = c.coin() ? 1 : C; break;
      default: break;
    }
    if (mode == "EXPLICIT") pads[0] = pads[1] = pads[6] = pads[7] = 0;
    if (!same_attr) {  // the filter has to fit
      while (H + pads[2] + pads[3] < ekh) pads[3]++;
      while (W + pads[4] + pads[5] < ekw) pads[5]++;
    }
    for (int i = 0; i < 8; ++i) { padtext = (i ? padtext + "," : "") + S(pads[i]); explicit_attr += (i ? ", " : "") + S(pads[i]); }
    if (mode != "EXPLICIT") {
      for (int d = 0; d < 4; ++d) ps[d] += pads[2 * d] + pads[2 * d + 1];
      pad_i64 = c.coin(12);
      V pc = pad_i64 ? f.Const(DenseL({4, 2}, pads), {4, 2}, "i64") : f.CI({4, 2}, vector<int32_t>(pads.begin(), pads.end()));
      bool keep = (pads[0] + pads[1]) == 0;
      if (mode == "PadV2") {
        auto half = [&](int d) { int64_t t = pads[2 * d] + pads[2 * d + 1]; return pads[2 * d] == t / 2; };
        auto size = [&](int d, int64_t ek, int64_t st) { return (s[d] + pads[2 * d] + pads[2 * d + 1] - ek) / st + 1 == (s[d] + st - 1) / st; };
        bool none = !pads[0] && !pads[1] && !pads[6] && !pads[7];
        known = none && half(1) && half(2) && size(1, ekh, sh) && size(2, ekw, sw) && (pads[2] + pads[3] != th || pads[4] + pads[5] != tw);
      }
      if (mode == "Pad") {
        y = f.Op("tf.Pad", {x, pc}, "", ps);
      } else {
        pv = c.coin(75) ? 1.f : c.pick({0.f, -1.f, 0.5f, 1.00390625f});
        V pvv = c.coin(93) ? f.CF({}, {pv}) : [&] { V v = f.Arg({}, "f32"); in.push_back(Tensor("f32", {}, {pv})); return v; }();
        if (known) {
          alt = f;
          V ac = alt.CI({4, 2}, {0, 0, (int32_t)(th / 2), (int32_t)(th - th / 2), (int32_t)(tw / 2), (int32_t)(tw - tw / 2), 0, 0});
          alty = alt.Op("tf.PadV2", {x, ac, pvv}, "", {s[0], s[1] + th, s[2] + tw, s[3]});
        }
        y = f.Op("tf.PadV2", {x, pc, pvv}, "", ps);
      }
      if (!keep && y.dyn) c.discard();
      if (c.coin(10) && !known) f.Ret(y);
    }
  } else if (mode == "VALID") {
    if (H < ekh || W < ekw) c.discard();
  }
  // Channel padding changes the number of channels the filter sees.
  int64_t fin = ps[3] == C ? cpg : ps[3];
  if (ps[3] == 2 * C && c.coin(70)) { fin = C; O += O % 2; }  // as many as another group has
  else if (ps[3] != C) { O = std::max<int64_t>(1, O / groups); groups = 1; }
  // The filter.
  Shape fs{fh, fw, fin, O};
  vector<float> fv(Count(fs));
  vector<float> scale(O);
  int fk = (int)c.weighted({6, 16, 3, 2, 1, 1, 1, 1, 1, 1});
  for (auto& k : scale) k = fk == 0 ? 1.f : exact ? std::ldexp(1.f, (int)r.below(7) - 3) : (float)(0.05 + r.unit() * 3);
  for (size_t i = 0; i < fv.size(); ++i) fv[i] = (r.below(2) ? 1 : -1) * scale[i % O];
  size_t odd = c.draw(fv.size());
  switch (fk) {
    case 2:  // nearly binary
      for (size_t i = 0; i < fv.size(); ++i) if (i >= (size_t)O) fv[i] *= 1 + (float)(r.unit() * 0.008 - 0.004);
      exact = false;
      tol = 6e-3;
      break;
    case 3: fv[odd] *= c.pick({1.01f, 0.99f, 1.006f, 0.994f}); exact = false; tol = 1e-4; break;
    case 4: fv[odd] = 0; break;
    case 5: fv[odd] = NAN; break;
    case 6: for (auto& v : fv) v = 0; break;
    case 7: fv[odd] = fv[odd] * 2; break;
    case 8: for (size_t i = 0; i < fv.size(); ++i) fv[i] = ((float)r.below(9) - 4) / 4; break;
    case 9: for (size_t i = 0; i < fv.size(); ++i) if (i % O == odd % O) fv[i] *= 1e-9f; exact = false; break;  // too small to trust
    default: break;
  }
  bool binary = true;  // up to the half percent that is allowed for
  for (size_t i = 0; i < fv.size(); ++i) binary = binary && std::fabs(std::fabs(fv[i] / fv[i % O]) - 1) <= 0.0051;
  bool constant = c.coin(93);
  string filop = c.coin(15) ? "tf.Const" : "arith.constant";
  if (!constant) in.push_back(Tensor("f32", fs, vector<double>(fv.begin(), fv.end())));
  // The convolution.
  string pad = same_attr ? "SAME" : mode == "EXPLICIT" ? "EXPLICIT" : "VALID";
  int64_t eh = ps[1], ew = ps[2];
  if (mode == "EXPLICIT") { eh += pads[2] + pads[3]; ew += pads[4] + pads[5]; }
  Shape os{ps[0], Geometry(same_attr, eh, fh, sh, dh).out, Geometry(same_attr, ew, fw, sw, dw).out, O};
  bool nchw = c.coin(5) && mode == "VALID" && !dyn;
  auto list = [](const char* n, vector<int64_t> v) { string t = string(n) + " = ["; for (size_t i = 0; i < v.size(); ++i) t += (i ? ", " : "") + S(v[i]) + " : i64"; return t + "]"; };
  string attrs = list("strides", nchw ? vector<int64_t>{1, 1, sh, sw} : vector<int64_t>{1, sh, sw, 1}) + ", padding = \"" + pad + "\"";
  if (dh != 1 || dw != 1 || nchw || c.coin()) attrs += ", " + list("dilations", nchw ? vector<int64_t>{1, 1, dh, dw} : vector<int64_t>{1, dh, dw, 1});
  if (mode == "EXPLICIT") attrs += ", " + list("explicit_paddings", pads);
  if (nchw) attrs += ", data_format = \"NCHW\"";
  else if (c.coin()) attrs += ", data_format = \"NHWC\"";
  if (c.coin(30)) attrs += ", use_cudnn_on_gpu = true";
  bool more = c.coin(30), twice = c.coin(10) && !dyn;
  auto finish = [&](Fn& f, V y) {
    V fil = constant ? f.Op(filop, {}, "value = " + DenseF(fs, fv), fs) : f.Arg(fs);
    if (nchw) {
      V perm = f.CI({4}, {0, 3, 1, 2});
      V t = f.Op("tf.Transpose", {y, perm}, "", {ps[0], ps[3], ps[1], ps[2]});
      V o = f.Op("tf.Conv2D", {t, fil}, attrs, {os[0], os[3], os[1], os[2]});
      f.Ret(o);
      return;
    }
    V o = f.Op("tf.Conv2D", {y, fil}, attrs, os);
    f.Ret(o);
    if (more) f.Ret(f.Op("tf.AddV2", {o, f.CF({O}, vector<float>(O, 0.5f))}, "", os));
    if (twice) f.Ret(f.Op("tf.Conv2D", {y, fil}, attrs, os));  // a second convolution on the same signs
  };
  finish(f, y);
  if (known) finish(alt, alty);
  c.label(mode);
  c.text(string(target == LCETarget::ARM ? "arm " : "xcore ") + (exact ? "exact\n" : "\n") + f.Module());
  vector<vector<T>> ins{in};
  if (!raw && in[0].k == "i32") { in[0] = RandomPacked(r, s, C); ins.push_back(in); }
  if (!Preserves(c, f, ins, exact, false, Prepare(target), [&](mlir::ModuleOp m, bool) {
        int n = CountOps(m, "lq.Bconv2d");
        if (n) { c.nontrivial(); c.label("converted"); c.label("converted " + mode); }
        if (n && !binary) c.fail("a convolution with a filter that is not binary was converted");
        if (n && (!constant || raw || nchw)) c.fail("a convolution that is not one of signs with a constant filter was converted");
        if (target != LCETarget::ARM)
          m->walk([&](mlir::lq::Bconv2dOp o) {
            if (o.getPadding() == "SAME" && o.getPadValues() == 0) c.fail("zero padding on a target that does not support it");
          });
        int64_t g = ps[3] / fin;
        if (n && g > 1 && fin % 32) c.fail("groups that do not fill whole words were converted");
      }, tol, known ? &alt : nullptr)) c.discard();
}

// The known finding: a 3x3 filter, stride 2, one row and column of padding at every side of an even image.
PBT_PROPERTY(M03_one_padding) {
  E().Fresh();
  Fn f;
  pbt::Rng r = c.bulk();
  Shape s{1, 4, 4, 1}, ps{1, 6, 6, 1};
  V p = f.Arg(s, "i32");
  V x = f.Op("lq.Dequantize", {p}, "", s);
  V y = f.Op("tf.PadV2", {x, f.CI({4, 2}, {0, 0, 1, 1, 1, 1, 0, 0}), f.CF({}, {1})}, "", ps);
  f.Ret(f.Op("tf.Conv2D", {y, f.CF({3, 3, 1, 1}, {1, 1, 1, 1, 1, 1, 1, 1, -1})}, "strides = [1 : i64, 2 : i64, 2 : i64, 1 : i64], padding = \"VALID\"", {1, 2, 2, 1}));
  T in = Tensor("i32", s, vector<double>(16, 0));
  for (int i = 0; i < 16; i += 3) in.v[i] = 1;
  c.text(f.Module());
  Preserves(c, f, {{in}}, true, false, Prepare(LCETarget::ARM), [](mlir::ModuleOp, bool) {});
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
