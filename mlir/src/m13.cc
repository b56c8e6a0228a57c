// M13: the whole conversion, from a float model to what the runtime executes.
#include <cmath>

#include "larq_compute_engine/mlir/tf_tfl_passes.h"
#include "flatbuffers/flexbuffers.h"
#include "llvm/Support/ThreadPool.h"
#include "mlir/src/run.h"
#include "tensorflow/lite/schema/schema_generated.h"

namespace {
using namespace mx;

// A tensor of the model: its values are multiples of 2^q, no larger than mx.
struct N {
  V v;
  double mx = 4;
  int q = -2;
  bool sign = false;  // recognisable signs
};
struct Gen {
  Ctx& c;
  Fn f;
  vector<T> in;
  pbt::Rng r;
  LCETarget target;
  bool quant, dyn;
  vector<N> all;
  std::set<string> binary;  // the convolutions that have to become binary ones
  int layers = 0, zero_padded = 0, grouped = 0, odd = 0, fake = 0, identities = 0;
  explicit Gen(Ctx& c) : c(c), r(c.bulk()), target(c.coin(70) ? LCETarget::ARM : LCETarget::XCORE), quant(c.coin(25)), dyn(c.coin(30)) {}

  static string List(const char* n, vector<int64_t> v) { string t = string(n) + " = ["; for (size_t i = 0; i < v.size(); ++i) t += (i ? ", " : "") + S(v[i]) + " : i64"; return t + "]"; }
  int64_t Ch(const N& x) { return x.v.s.back(); }
  // Whether values of this size are still exact in single precision.
  static bool Fits(double mx, int q) { return std::ldexp(mx, -q) < (1 << 21); }
  V Pass(V x) {  // something that changes nothing
    if (!c.coin(12)) return x;
    ++identities;
    int k = (int)c.draw(3);
    return f.Op(k == 0 ? "tf.Identity" : k == 1 ? "tf.StopGradient" : "tf.Snapshot", {x}, "", x.s, x.e);
  }
  V Const(const Shape& s, const vector<float>& v) { return Pass(f.CF(s, v)); }
  N Input() {
    int64_t C = c.coin(70) ? c.range(1, 4) : c.pick({8, 31, 32, 33, 40, 64});
    Shape s{dyn ? 1 : c.range(1, 2), c.range(2, 6), c.range(2, 6), C};
    N n;
    n.v = f.Arg(s, "f32", dyn ? 1 : 0);
    n.mx = 8;
    in.push_back(RandomFloat(r, s, true));
    return n;
  }
  N Sign(const N& x) {
    N y = x;
    y.mx = 1;
    y.q = 0;
    y.sign = true;
    V a = Pass(x.v);
    const Shape& s = a.s;
    auto scalar = [&](float v) { return c.coin() ? Const({}, {v}) : Const({1, 1, 1, 1}, {v}); };
    switch (c.weighted({4, 4, 1, 1})) {
      case 0: {  // the older form
        V t = f.Op("tf.Sign", {a}, "", s), k = scalar(0.1f);
        V u = c.coin(85) ? f.Op("tf.AddV2", {Pass(t), k}, "", s) : f.Op("tf.AddV2", {k, Pass(t)}, "", s);
        y.v = f.Op("tf.Sign", {Pass(u)}, "", s);
        break;
      }
      case 1: {
        int how = (int)c.draw(4);
        V zero = scalar(0), one = scalar(1), minus = scalar(-1);
        // x >= 0, 0 <= x, x < 0, 0 > x
        V cond = how == 0 ? f.Op("tf.GreaterEqual", {a, zero}, "", s, "i1") : how == 1 ? f.Op("tf.LessEqual", {zero, a}, "", s, "i1") : how == 2 ? f.Op("tf.Less", {a, zero}, "", s, "i1") : f.Op("tf.Greater", {zero, a}, "", s, "i1");
        y.v = how < 2 ? f.Op("tf.SelectV2", {Pass(cond), one, minus}, "", s) : f.Op("tf.SelectV2", {Pass(cond), minus, one}, "", s);
        break;
      }
      case 2: {  // a threshold that is not zero
        float t = ((float)r.below(17) - 8) / 4;
        V cond = f.Op("tf.GreaterEqual", {a, scalar(t)}, "", s, "i1");
        y.v = f.Op("tf.SelectV2", {cond, scalar(1), scalar(-1)}, "", s);
        break;
      }
      default:  // zero stays zero, so not something to recognise
        y.v = f.Op("tf.Sign", {a}, "", s);
        y.sign = false;
        break;
    }
    y.v = Pass(y.v);
    return y;
  }
  bool Conv(const N& x, N& y) {
    int64_t H = x.v.s[1], W = x.v.s[2], C = Ch(x), O = c.coin(60) ? c.range(1, 5) : c.pick({8, 31, 32, 33, 64});
    int64_t fh = c.range(1, 3), fw = c.coin(70) ? fh : c.range(1, 3), sh = c.coin(75) ? 1 : 2, sw = c.coin(80) ? sh : c.range(1, 2), dh = c.coin(90) ? 1 : 2, dw = dh;
    int64_t groups = C == 64 && c.coin(40) ? 2 : 1;
    if (groups > 1) O = (O + groups - 1) / groups * groups;
    int64_t eh = (fh - 1) * dh + 1, ew = (fw - 1) * dw + 1;
    V a = x.v;
    y = x;
    bool canon = x.sign;
    int pad = (int)c.weighted({4, 3, 5, 2});  // VALID, SAME, with ones, with zeros
    if (pad == 0 && (H < eh || W < ew)) pad = 2;
    int64_t h = H, w = W;
    if (pad >= 2) {
      auto total = [](int64_t in, int64_t ek, int64_t st) { int64_t o = (in + st - 1) / st; return std::max<int64_t>((o - 1) * st + ek - in, 0); };
      int64_t th = total(H, eh, sh), tw = total(W, ew, sw);
      vector<int32_t> p{0, 0, (int32_t)(th / 2), (int32_t)(th - th / 2), (int32_t)(tw / 2), (int32_t)(tw - tw / 2), 0, 0};
      if (pad == 3 && c.coin(30)) p[2 + c.draw(4)]++;
      h += p[2] + p[3];
      w += p[4] + p[5];
      Shape ps{x.v.s[0], h, w, C};
      V pc = f.CI({4, 2}, p);
      if (pad == 2) a = f.Op("tf.PadV2", {a, pc, Const({}, {1})}, "", ps);
      else { a = f.Op("tf.Pad", {a, pc}, "", ps); canon = false; }
      a = Pass(a);
    }
    // Weights: of one magnitude per channel (or nearly all of them), or any.
    Shape fs{fh, fw, C / groups, O};
    vector<float> w8(Count(fs)), scale(O);
    bool bin = x.sign ? c.coin(85) : c.coin(20);
    int q = 0;
    double top = 1;
    if (bin) {
      bool ones = c.coin(60);
      for (auto& s : scale) { int e = ones ? 0 : (int)r.below(4) - 2; s = std::ldexp(1.f, e); if (e < q) q = e; if (s > top) top = s; }
      for (size_t i = 0; i < w8.size(); ++i) w8[i] = (r.below(2) ? 1 : -1) * scale[i % O];
    } else {
      q = -1;
      for (auto& v : w8) v = ((float)r.below(5) - 2) / 2;
    }
    y.mx = std::max(1.0, x.mx) * top * fh * fw * (C / groups);
    y.q = x.q + q;
    y.sign = false;
    if (!Fits(y.mx, y.q)) return false;
    bool same = pad == 1;
    Shape os{x.v.s[0], Geometry(same, h, fh, sh, dh).out, Geometry(same, w, fw, sw, dw).out, O};
    if (!Count(os)) return false;
    if (same && target == LCETarget::XCORE) canon = false;
    string attrs = List("strides", {1, sh, sw, 1}) + ", padding = \"" + (same ? "SAME" : "VALID") + "\"" + (dh != 1 || c.coin() ? ", " + List("dilations", {1, dh, dw, 1}) : "");
    // Batch dimension of padded inputs and so on follows from the operands.
    y.v = f.Op("tf.Conv2D", {a, Const(fs, w8)}, attrs, os);
    if (canon && bin) {
      string key = x.v.name + "|" + attrs + "|" + S(pad) + "|" + Dims(fs);
      for (float v : w8) key += v < 0 ? '-' : '+';
      binary.insert(key);
      c.label(pad == 0 ? "binary valid" : pad == 1 ? "binary same" : "binary one-padded");
      if (groups > 1) { c.label("binary grouped"); ++grouped; }
    } else c.label(bin && x.sign ? "binary, not recognised" : "float convolution");
    if (same && x.sign) { ++zero_padded; odd += C / groups % 2; }
    y.v = Pass(y.v);
    return true;
  }
  bool Arith(const N& x, N& y) {
    int64_t C = Ch(x);
    y = x;
    y.sign = false;
    Shape cs = c.coin(80) ? Shape{C} : c.coin() ? Shape{1, 1, 1, C} : Shape{};
    vector<float> v(Count(cs));
    int kind = (int)c.weighted({4, 4, 1, 2, 3});
    if (kind == 4) {  // batch normalisation
      vector<float> g(C), b(C), m(C), s2(C);
      double k = 0, bt = 0;
      for (int64_t i = 0; i < C; ++i) {
        int e = (int)r.below(3) - 1;
        s2[i] = std::ldexp(1.f, 2 * e);
        g[i] = c.coin() ? 1.f : (r.below(2) ? 1 : -1) * std::ldexp(1.f, (int)r.below(3) - 1);
        b[i] = ((float)r.below(65) - 32) / 8;
        m[i] = ((float)r.below(65) - 32) / 8;
        k = std::max(k, std::fabs((double)g[i]) / std::ldexp(1.0, e));
        bt = std::max(bt, 4 + 4 * k);
      }
      y.mx = x.mx * k + bt;
      y.q = std::min(x.q, -3) - 2;
      if (!Fits(y.mx, y.q)) return false;
      if (c.coin(70)) y.v = f.Op("tf.FusedBatchNormV3", {x.v, f.CF({C}, g), f.CF({C}, b), f.CF({C}, m), f.CF({C}, s2)}, "", x.v.s);
      else {
        for (int64_t i = 0; i < C; ++i) { g[i] /= std::sqrt(s2[i]); b[i] -= m[i] * g[i]; }
        V t = f.Op("tf.Mul", {x.v, Const({C}, g)}, "", x.v.s);
        y.v = f.Op("tf.AddV2", {t, Const({C}, b)}, "", x.v.s);
      }
      c.label("normalisation");
      return true;
    }
    for (auto& k : v) k = kind < 2 ? ((float)r.below(65) - 32) / 8 : (r.below(3) ? 1 : -1) * std::ldexp(1.f, (int)r.below(3) - 1);
    if (kind == 0 && c.coin(5)) v[0] = 0;
    if (kind < 2) { y.mx += 4; y.q = std::min(y.q, -3); } else { y.mx *= 2; y.q -= 1; }
    if (!Fits(y.mx, y.q)) return false;
    V k = Const(cs, v);
    static const char* op[] = {"tf.AddV2", "tf.Sub", "tf.Div", "tf.Mul"};
    bool swap = c.coin(15) && kind != 2;
    y.v = f.Op(op[kind], swap ? vector<V>{k, x.v} : vector<V>{x.v, k}, "", x.v.s);
    return true;
  }
  N Quant(const N& x) {
    static const char* scales[] = {"1.250000e-01", "6.250000e-02", "1.000000e+00", "2.500000e-01", "2.000000e+00"};
    static const int exps[] = {-3, -4, 0, -2, 1};
    int k = (int)c.draw(5), zp = c.coin() ? 0 : (int)c.range(-128, 127);
    string e = string("!quant.uniform<i8:f32, ") + scales[k] + (zp ? ":" + S(zp) : "") + ">";
    N y = x;
    y.q = exps[k];
    y.mx = std::ldexp(256.0, exps[k]);
    y.sign = false;
    V t{"", x.v.s, e, x.v.dyn};
    y.v = f.Op("tf.FakeQuantWithMinMaxArgs", {x.v}, "qtype = " + t.type(), x.v.s);
    ++fake;
    return y;
  }
  bool Layer() {
    const N x = all[c.coin(80) ? all.size() - 1 : c.draw(all.size())];
    N y = x;
    Shape s = x.v.s;
    if (x.sign ? c.coin(85) : c.coin(8)) {
      string body = f.body;
      int n = f.n;
      if (!Conv(x, y)) { f.body = body; f.n = n; return false; }
      all.push_back(y);
      return true;
    }
    switch (c.weighted({9, 5, 2, 2, 1, 2, 1, 1, quant ? 5 : 0, 1})) {
      case 0: y = Sign(x); break;
      case 1: if (!Arith(x, y)) return false; break;
      case 2: {
        int64_t k = c.range(1, 3);
        y.v = f.Op(c.coin(70) ? "tf.Relu" : "tf.Relu6", {x.v}, "", s);
        y.sign = false;
        (void)k;
        break;
      }
      case 3: {  // pooling
        bool max = c.coin(80), same = max && c.coin();
        int64_t kh = max ? c.range(1, 3) : c.range(1, 2), kw = max ? c.range(1, 3) : c.range(1, 2), sh = c.range(1, 2), sw = c.coin(80) ? sh : c.range(1, 2);
        Shape os{s[0], Geometry(same, s[1], kh, sh, 1).out, Geometry(same, s[2], kw, sw, 1).out, s[3]};
        if (!Count(os) || (!same && (s[1] < kh || s[2] < kw))) return false;
        if (!max) { y.q -= 2; y.mx *= 4; if (!Fits(y.mx, y.q)) return false; y.mx /= 4; }
        y.sign = false;
        y.v = f.Op(max ? "tf.MaxPool" : "tf.AvgPool", {x.v}, List("ksize", {1, kh, kw, 1}) + ", " + List("strides", {1, sh, sw, 1}) + ", padding = \"" + (same ? "SAME" : "VALID") + "\"", os);
        break;
      }
      case 4: {  // padding
        vector<int32_t> p{0, 0, (int32_t)c.range(0, 1), (int32_t)c.range(0, 1), (int32_t)c.range(0, 1), (int32_t)c.range(0, 1), 0, 0};
        s[1] += p[2] + p[3];
        s[2] += p[4] + p[5];
        y.sign = false;
        y.v = f.Op("tf.Pad", {x.v, f.CI({4, 2}, p)}, "", s);
        break;
      }
      case 5: {  // a shortcut
        vector<size_t> fit;
        for (size_t i = 0; i < all.size(); ++i) if (all[i].v.s == s) fit.push_back(i);
        const N z = all[fit[c.draw(fit.size())]];
        y.mx = x.mx + z.mx;
        y.q = std::min(x.q, z.q);
        y.sign = false;
        if (!Fits(y.mx, y.q)) return false;
        y.v = f.Op("tf.AddV2", {x.v, z.v}, "", s);
        c.label("shortcut");
        break;
      }
      case 6: {
        vector<size_t> fit;
        for (size_t i = 0; i < all.size(); ++i) if (all[i].v.s[0] == s[0] && all[i].v.s[1] == s[1] && all[i].v.s[2] == s[2]) fit.push_back(i);
        const N z = all[fit[c.draw(fit.size())]];
        s[3] += z.v.s[3];
        if (s[3] > 128) return false;
        y.mx = std::max(x.mx, z.mx);
        y.q = std::min(x.q, z.q);
        y.sign = false;
        y.v = f.Op("tf.ConcatV2", {x.v, z.v}, "", s);
        break;
      }
      case 7: {
        y.v = Pass(x.v);
        if (y.v.name == x.v.name) return false;
        break;
      }
      case 8: y = Quant(x); break;
      default: {  // a second input
        if (f.args.size() > 2) return false;
        y = Input();
        break;
      }
    }
    all.push_back(y);
    return true;
  }
};

// The results of a function: every value that nothing else uses, others sometimes.
void Results(Ctx& c, Gen& g) {
  for (auto& x : g.all) {
    if (x.v.name[1] == 'a') continue;
    bool used = false;
    size_t at = 0;
    while (!used && (at = g.f.body.find(x.v.name, at)) != string::npos) {
      at += x.v.name.size();
      char next = g.f.body[at];
      used = next == ',' || next == ')';
    }
    // Results that come straight from an operation that is removed are a known finding (M10) where their type changes.
    if (!used || c.coin(8)) g.f.Ret(x.v);
  }
}

bool Convert(mlir::ModuleOp m, const Gen& g) {
  mlir::PassManager pm(E().Get(), mlir::ModuleOp::getOperationName(), mlir::PassManager::Nesting::Explicit);
  mlir::quant::QuantizationSpecs specs;
  if (g.quant) specs.inference_type = tensorflow::DT_QINT8;
  tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pm);
  if (mlir::failed(pm.run(m))) return false;
  pm.clear();
  tensorflow::AddPostVariableFreezingTFToLCETFLConversionPasses("", specs, &pm, g.target);
  return mlir::succeeded(pm.run(m));
}
}  // namespace

PBT_PROPERTY(M13) {
  E().Fresh();
  Gen g(c);
  g.all.push_back(g.Input());
  int n = (int)c.range(1, 14);
  for (int i = 0; i < n; ++i) g.Layer();
  Results(c, g);
  if (g.f.rets.empty()) c.discard();
  c.text(string(g.target == LCETarget::ARM ? "arm" : "xcore") + (g.quant ? " quantised\n" : "\n") + g.f.Module());
  auto load = [&] {
    string text = g.f.Module();
    auto m = E().Parse(text);
    if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
    return m;
  };
  vector<T> again;
  for (auto& t : g.in) again.push_back(RandomFloat(g.r, t.s, true));
  vector<vector<T>> inputs{g.in, again};
  vector<vector<T>> want;
  auto m = load();
  for (auto& x : inputs) {
    Interp it(true);
    try { want.push_back(it.Run(Main(*m), x)); } catch (Problem& p) { fprintf(stderr, "cannot evaluate the generated module: %s\n%s\n", p.msg.c_str(), g.f.Module().c_str()); exit(3); }
    if (it.ties) c.discard();
  }
  if (!Convert(*m, g)) c.fail("the conversion fails: %s", E().diag.substr(0, 1500).c_str());
  string now = Print(*m);
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid afterwards: %s", E().diag.substr(0, 1500).c_str());
  int lce = 0, conv = 0;
  Main(*m).walk([&](mlir::Operation* o) {
    auto name = o->getName().getStringRef();
    if (name.starts_with("tfl.") || name == "arith.constant" || name.starts_with("func.")) {
      if (auto cu = mlir::dyn_cast<mlir::TFL::CustomOp>(o)) {
        if (!cu.getCustomCode().starts_with("Lce")) c.fail("custom operator %s", cu.getCustomCode().str().c_str());
        ++lce;
        c.label(cu.getCustomCode().str());
        if (g.target == LCETarget::XCORE && cu.getCustomCode() == "LceBMaxPool2d") c.fail("an operator that the target does not have:\n%s", now.substr(0, 4000).c_str());
        if (cu.getCustomCode() == "LceBconv2d") {
          auto bytes = cu.getCustomOption().getValue();
          auto map = flexbuffers::GetRoot((const uint8_t*)bytes.data(), bytes.size()).AsMap();
          if (g.target == LCETarget::XCORE && map["padding"].AsInt32() == tflite::Padding_SAME && map["pad_values"].AsInt32() == 0) c.fail("zero padding on a target that does not support it:\n%s", now.substr(0, 4000).c_str());
          ++conv;
          auto e = mlir::cast<mlir::ShapedType>(o->getResult(0).getType()).getElementType();
          if (e.isInteger(32)) c.label("packed output");
          if (!e.isInteger(32) && !e.isF32()) c.label("8-bit output");
          auto w = o->getOperand(1).getDefiningOp();
          if (!w || w->getName().getStringRef() != "arith.constant" || !mlir::cast<mlir::ShapedType>(w->getResult(0).getType()).getElementType().isInteger(32))
            c.fail("the weights of a binary convolution are not packed constants:\n%s", now.substr(0, 4000).c_str());
        }
      }
      return;
    }
    c.fail("%s is left over:\n%s", name.str().c_str(), now.substr(0, 4000).c_str());
  });
  if (conv < (int)g.binary.size()) c.fail("%zu convolutions of signs with binary weights became %d binary convolutions:\n%s", g.binary.size(), conv, now.substr(0, 5000).c_str());
  // Zero padding and an 8-bit result: the reference kernels (known finding of M11).
  // Groups: not the default kernel, which refuses them.
  if (g.zero_padded && g.odd && (g.fake || g.grouped)) c.discard();  // those neither
  bool reference = (c.coin(20) && !g.odd) || (g.zero_padded && (g.fake || g.grouped)), indirect = g.grouped || c.coin(30);
  uint64_t junk = g.r.next();
  for (size_t k = 0; k < inputs.size(); ++k) {
    Interp it(true);
    it.custom = [&](mlir::Operation* o, const vector<const T*>& in) { return RunCustom(o, in, reference, indirect, junk); };
    vector<T> got;
    try { got = it.Run(Main(*m), inputs[k]); } catch (Problem& p) { c.fail("%s (of the converted model)\n%s", p.msg.c_str(), now.substr(0, 5000).c_str()); }
    if (got.size() != want[k].size()) c.fail("%zu results instead of %zu", got.size(), want[k].size());
    for (size_t i = 0; i < got.size(); ++i) {
      string d = Diff(want[k][i], got[i], true);
      if (!d.empty()) c.fail("result %zu: %s. Converted:\n%s", i, d.c_str(), now.substr(0, 5000).c_str());
    }
  }
  if (conv) c.nontrivial();
  if (conv >= 2) c.label("2+ binary convolutions");
  if (g.quant && g.fake) c.label("quantised");
  if (g.dyn) c.label("batch size not known");
}

// M15: what becomes of a function depends on that function and the options only.
namespace {
// Leaves holes in the heap, so that later operations have addresses in no particular order.
struct Holes {
  vector<void*> keep;
  explicit Holes(pbt::Rng& r, int n) {
    vector<void*> drop;
    for (int i = 0; i < n; ++i) {
      void* p = malloc(32 + 8 * r.below(80));
      (r.below(2) ? keep : drop).push_back(p);
    }
    for (size_t i = drop.size(); i > 1; --i) std::swap(drop[i - 1], drop[r.below(i)]);
    for (void* p : drop) free(p);
  }
  ~Holes() { for (void* p : keep) free(p); }
};
string FunctionText(mlir::Operation* f) {
  string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags fl;
  fl.printGenericOpForm();
  f->print(os, fl);
  return s;
}
}  // namespace

PBT_PROPERTY(M15) {
  static llvm::ThreadPool* pool = new llvm::ThreadPool(llvm::hardware_concurrency(3));
  int n = (int)c.range(1, 4);
  vector<Gen> gens;
  vector<string> text;
  LCETarget target = LCETarget::ARM;
  bool quant = false;
  for (int k = 0; k < n; ++k) {
    gens.emplace_back(c);
    Gen& g = gens.back();
    if (k) { g.target = target; g.quant = quant; } else { target = g.target; quant = g.quant; }
    g.all.push_back(g.Input());
    int layers = (int)c.range(1, n == 1 ? 10 : 6);
    for (int i = 0; i < layers; ++i) g.Layer();
    Results(c, g);
    if (g.f.rets.empty()) c.discard();
    text.push_back(g.f.Text("f" + S(k)));
  }
  int copies = c.coin(40) ? (int)c.range(2, 12) : 1;  // on several threads: so many of each
  c.text(string(target == LCETarget::ARM ? "arm" : "xcore") + (quant ? " quantised\n" : "\n"));
  for (auto& t : text) c.text(t);
  pbt::Rng r = c.bulk();
  // Converts the functions in an order, on several threads or one, and returns what became of each.
  auto run = [&](const vector<int>& which, bool threads, bool fresh, const char* how) {
    E().Fresh(fresh ? 1 : 300);
    Holes h(r, fresh ? 3000 : 400);
    string all;
    for (int k : which) all += text[k];
    for (int i = 1; threads && i < copies; ++i)
      for (int k : which) all += gens[k].f.Text("f" + S(k) + "." + S(i));
    auto m = E().Parse("module {\n" + all + "}\n");
    if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), all.c_str()); exit(3); }
    if (threads) E().Get()->setThreadPool(*pool);
    bool ok = Convert(*m, gens[0]);
    if (threads) E().Get()->disableMultithreading();
    if (!ok) c.fail("the conversion fails (%s): %s", how, E().diag.substr(0, 1500).c_str());
    std::map<string, string> out;
    int at = 0;
    for (auto& o : m->getBody()->getOperations()) {
      auto f = mlir::dyn_cast<mlir::func::FuncOp>(o);
      if (!f) c.fail("%s beside the functions (%s)", o.getName().getStringRef().str().c_str(), how);
      int k = which[at % which.size()];
      string name = "f" + S(k) + (at >= (int)which.size() ? "." + S(at / which.size()) : "");
      if (f.getName() != name) c.fail("the functions change places (%s)", how);
      ++at;
      f.setName("f" + S(k));
      out[name] = FunctionText(&o);
    }
    int expected = (int)which.size() * (threads ? copies : 1);
    if (at != expected) c.fail("%d functions became %d (%s)", expected, at, how);
    return out;
  };
  vector<string> want;
  for (int k = 0; k < n; ++k) want.push_back(run({k}, false, true, "alone").begin()->second);
  auto same = [&](const std::map<string, string>& got, const char* how) {
    for (auto& [name, t] : got) {
      const string& w = want[std::stoi(name.substr(1))];
      if (t == w) continue;
      size_t i = 0;
      while (i < t.size() && i < w.size() && t[i] == w[i]) ++i;
      while (i && t[i - 1] != '\n') --i;
      c.fail("@%s is converted differently %s:\n%s\nthan alone:\n%s", name.c_str(), how, t.substr(i, 1200).c_str(), w.substr(i, 1200).c_str());
    }
  };
  vector<int> order(n);
  for (int k = 0; k < n; ++k) order[k] = k;
  same(run({order[0]}, false, false, "again"), "a second time");
  if (n > 1 || copies > 1) {
    same(run(order, false, c.coin(30), "together"), "next to others");
    for (int k = n; k > 1; --k) std::swap(order[k - 1], order[c.draw(k)]);
    for (int k = 0; k < 2; ++k) same(run(order, true, c.coin(30), "on several threads"), "next to others on several threads");
    c.label(S(n) + " functions");
  }
  for (auto& w : want) if (w.find("LceBconv2d") != string::npos) { c.label("binary convolution"); c.nontrivial(); }
  if (quant) c.label("quantised");
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
