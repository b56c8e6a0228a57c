// M07: constants folded and weights packed at conversion time against the runtime kernels.
#include "mlir/Transforms/Passes.h"
#include "mlir/src/run.h"

namespace {
using namespace mx;
namespace rt = compute_engine::tflite;

string Attr(const char* n, int64_t v) { return string(n) + " = " + S(v) + " : i32"; }
string Attr(const char* n, const string& v) { return string(n) + " = \"" + v + "\""; }

struct Item {
  int ret;      // position among the results
  T expect;     // what the runtime computes
  bool must;    // it has to be a constant afterwards
};
struct Gen {
  Ctx& c;
  Fn f;
  pbt::Rng r;
  vector<Item> items;
  vector<T> in;
  bool resource = false;
  explicit Gen(Ctx& c) : c(c), r(c.bulk()) {}
  Shape RandomShape() {
    Shape s;
    int rank = (int)c.weighted({1, 2, 2, 3, 8, 1});
    for (int i = 0; i < rank; ++i) s.push_back(c.coin(4) ? 0 : c.range(1, 3));
    if (rank && s.back()) s.back() = c.coin(50) ? c.range(1, 70) : c.pick({1, 31, 32, 33, 63, 64, 65, 96, 128});
    return s;
  }
  float F32() {
    switch (r.below(10)) {
      case 0: return 0.f;
      case 1: return -0.f;
      case 2: return r.below(2) ? INFINITY : -INFINITY;
      case 3: return r.below(2) ? NAN : -NAN;
      case 4: return (r.below(2) ? 1 : -1) * 1e-45f;
      case 5: return (r.below(2) ? 1 : -1) * 3e38f;
      default: return (float)(r.unit() * 4 - 2);
    }
  }
  vector<float> Floats(int64_t n) {
    vector<float> v(n);
    int mode = (int)r.below(6);
    float one = F32();
    for (auto& x : v) x = mode == 0 ? one : mode == 1 ? (r.below(2) ? 1.f : -1.f) : F32();
    return v;
  }
  // A constant of the given kind, possibly through another constant operation.
  V Constant(const Shape& s, const string& kind, T& t) {
    t = T();
    resource = false;
    t.k = kind == "f16" || kind == "i64" || kind == "f64" ? kind : kind;
    t.s = s;
    int64_t n = Count(s);
    if (kind == "f32") {
      auto v = Floats(n);
      t.v.assign(v.begin(), v.end());
      Interp::Fill(t);
      if (c.coin(15)) return f.Op("tf.Const", {}, "value = " + DenseF(s, v), s);
      if (n && c.coin(10)) { resource = true; return f.Resource(s, v); }
      return f.CF(s, v);
    }
    if (kind == "i32") {
      vector<int32_t> v(n);
      bool same = c.coin(20);
      for (auto& x : v) x = same ? v[0] : (int32_t)r.next();
      if (same && n) { int32_t k = c.pick({0, -1, 5}); for (auto& x : v) x = k; }
      t.v.assign(v.begin(), v.end());
      if (c.coin(15)) return f.Op("tf.Const", {}, "value = " + DenseI(s, v), s, "i32");
      return f.CI(s, v);
    }
    if (kind == "i1") {
      vector<int8_t> v(n);
      bool same = c.coin(30);
      for (auto& x : v) x = same ? v[0] : (int8_t)r.below(2);
      t.v.assign(v.begin(), v.end());
      size_t at = 0;
      string body;
      bool all = true;
      for (auto x : v) all = all && x == v[0];
      if (n == 0) body = "";
      else if (all) body = v[0] ? "true" : "false";
      else body = Nest<int8_t>(v, s, 0, at, +[](int8_t x) { return string(x ? "true" : "false"); });
      return f.Const("dense<" + body + "> : " + Ty(s, "i1"), s, "i1");
    }
    // Kinds the runtime does not pack: only that they survive is checked.
    vector<int64_t> v(n);
    for (auto& x : v) x = (int64_t)r.below(9) - 4;
    t.v.assign(v.begin(), v.end());
    if (kind == "i64") return f.Const(Dense<int64_t>(s, v, +[](int64_t x) { return S(x); }, "i64"), s, "i64");
    vector<double> d(v.begin(), v.end());
    Interp::Fill(t);
    return f.Const(Dense<double>(s, d, +[](double x) { char b[40]; snprintf(b, sizeof b, "%.1f", x); return string(b); }, "f64"), s, "f64");
  }
  void Quantize() {
    Shape s = RandomShape();
    if (s.empty()) s = {c.range(1, 40)};
    string kind = c.pick({"f32", "f32", "f32", "f32", "i1", "i64", "f64"});
    T t;
    V x = Constant(s, kind, t);
    Shape o = s;
    o.back() = Words(o.back());
    V q = f.Op("lq.Quantize", {x}, "", o, "i32");
    Item it{(int)f.rets.size(), {}, false};
    f.Ret(q);
    if (kind == "i64" || kind == "f64") {
      it.expect = Tensor("i32", o, vector<double>(Count(o), 0));
      for (size_t i = 0; i < t.v.size(); ++i)
        if (t.v[i] < 0) { double& w = it.expect.v[(i / s.back()) * o.back() + i % s.back() / 32]; w = (double)(int32_t)((uint32_t)(int32_t)w | 1u << (i % s.back() % 32)); }
    } else {
      T as;
      as.k = "i32";
      as.s = o;
      it.expect = RunKernel(rt::Register_QUANTIZE(), {&t}, as, {}, {}, r.next());
      it.must = kind == "f32" && s.size() == 4 && !resource;
    }
    items.push_back(it);
    c.label("quantise " + kind);
    if (s.size() != 4) c.label("rank " + S(s.size()));
    if (c.coin(15)) f.Ret(x);
  }
  void Dequantize() {
    Shape o = RandomShape();
    if (o.empty()) o = {c.range(1, 40)};
    Shape s = o;
    s.back() = Words(s.back());
    T t;
    V x = Constant(s, "i32", t);
    string kind = c.pick({"f32", "f32", "f32", "i1", "q8", "q8", "f16"}), e = kind;
    T as;
    as.k = kind;
    as.s = o;
    if (kind == "q8") {
      double scales[] = {1, 0.5, 0.25, 2, 0.0078125, 0.0625, 0.1, 0.3, 3};
      as.scale = scales[c.draw(9)];
      as.zp = c.range(-128, 127);
      char b[80];
      snprintf(b, sizeof b, "!quant.uniform<i8:f32, %.17g%s>", as.scale, as.zp ? (":" + S(as.zp)).c_str() : "");
      e = b;
      if (e.find('.', e.find(',')) == string::npos && e.find("e-") == string::npos) { size_t at = e.find(as.zp ? ":" : ">", e.find(',')); e.insert(at, ".0"); }
    }
    V y = f.Op("lq.Dequantize", {x}, "", o, e);
    Item it{(int)f.rets.size(), {}, kind == "f32" && o.size() == 4};
    f.Ret(y);
    if (kind == "f16") {
      as.k = "f32";
      it.expect = RunKernel(rt::Register_DEQUANTIZE(), {&t}, as, {}, {}, r.next());
      it.expect.k = "f16";
    } else {
      it.expect = RunKernel(rt::Register_DEQUANTIZE(), {&t}, as, {}, {}, r.next());
    }
    items.push_back(it);
    c.label("dequantise " + kind);
    if (o.size() != 4) c.label("rank " + S(o.size()));
  }
  // A binary convolution whose filter may be a float constant.
  void Conv() {
    int64_t C = c.coin(40) ? c.range(1, 70) : c.pick({1, 31, 32, 33, 64, 96}), groups = C % 64 == 0 && c.coin(25) ? 2 : 1, cpg = C / groups;
    int64_t O = c.range(1, 6) * groups, fh = c.range(1, 3), fw = c.range(1, 3);
    V x = f.Arg({1, 4, 4, Words(C)}, "i32");
    in.push_back(RandomPacked(r, {1, 4, 4, 0}, C));
    T t;
    V fil;
    int kind = (int)c.weighted({8, 2, 1});
    if (kind == 0) fil = Constant({O, fh, fw, cpg}, "f32", t);
    else if (kind == 1) fil = Constant({O, fh, fw, Words(cpg)}, "i32", t);
    else { fil = f.Arg({O, fh, fw, cpg}); in.push_back(RandomFloat(r, fil.s, false)); }
    V mul, bias, th = f.None();
    if (c.coin(70)) {
      vector<float> m(O), b(O);
      for (auto& v : m) v = (float)(r.unit() * 2 - 1);
      for (auto& v : b) v = (float)(r.unit() * 2 - 1);
      mul = f.CF({O}, m);
      bias = f.CF({O}, b);
    } else { mul = f.Arg({O}); bias = f.Arg({O}); in.push_back(RandomFloat(r, {O}, false)); in.push_back(RandomFloat(r, {O}, false)); }
    string e = "f32";
    Shape o{1, 4, 4, O};
    if (c.coin(20)) {
      vector<int32_t> v(O);
      for (auto& q : v) q = (int32_t)r.below(fh * fw * cpg + 2) - 1;
      th = f.CI({O}, v);
      mul = bias = f.None();
      e = "i32";
      o[3] = Words(O);
    }
    int64_t dh = c.range(1, 2), dw = c.range(1, 2);
    string act = c.pick({"NONE", "RELU", "RELU6", "RELU_N1_TO_1"}), a = Attr("channels_in", C) + ", " + Attr("dilation_height_factor", dh) + ", " + Attr("dilation_width_factor", dw) + ", " + Attr("fused_activation_function", act) + ", " +
               Attr("pad_values", (int64_t)c.draw(2)) + ", " + Attr("padding", string("SAME")) + ", " + Attr("stride_height", 1) + ", " + Attr("stride_width", 1);
    V y = f.Op("lq.Bconv2d", {x, fil, mul, bias, th}, a, o, e);
    f.Ret(y);
    if (c.coin(20)) f.Ret(fil);
    if (resource) c.label("resource");
    if (kind == 0 && resource) kind = 3;  // not packed, as it is not read
    if (kind == 0) {
      T as;
      as.k = "i32";
      as.s = {O, fh, fw, Words(cpg)};
      filters.push_back(RunKernel(rt::Register_QUANTIZE(), {&t}, as, {}, {}, r.next()));
      c.label("weights");
    } else {
      filters.push_back(t.v.empty() ? T() : t);
      if (kind == 2) filters.back().k = "none";
    }
  }
  vector<T> filters;  // of each convolution in order; k = none where not a constant
};
// Operations whose result is not what their constant gives, or not known: left in place.
void Misfit(Ctx& c) {
  Gen g(c);
  Shape s;
  int rank = (int)c.range(1, 5);
  for (int i = 0; i < rank; ++i) s.push_back(c.range(1, 3));
  s.back() = c.coin() ? c.range(1, 70) : c.pick({32, 33, 64, 96});
  Shape w = s;
  w.back() = Words(s.back());
  bool dq = c.coin(70);
  T t;
  V x = g.Constant(dq ? w : s, dq ? "i32" : "f32", t);
  Shape o = dq ? s : w;
  int dyn = 0;
  bool unranked = false;
  switch (c.weighted({3, 2, 2, 2, 2, 1})) {
    case 0: o.back() += dq ? 32 : 1; break;
    case 1: if (dq && o.back() > 32) o.back() -= 32; else if (!dq && o.back() > 1) --o.back(); else o.back() += 40; break;
    case 2: if (rank > 1) ++o[c.draw(rank - 1)]; else o.insert(o.begin(), 1); break;
    case 3: if (rank > 1) { o.erase(o.begin()); } else o.insert(o.begin(), 2); break;
    case 4: dyn = 1 << c.draw(rank); break;
    default: unranked = true;
  }
  x.dyn = 0;
  V y = g.f.Op(dq ? "lq.Dequantize" : "lq.Quantize", {x}, "", o, dq ? "f32" : "i32");
  g.f.Ret(y);
  string text = g.f.Module(), type = Ty(o, dq ? "f32" : "i32"), to = type;
  if (dyn) { V v = y; v.dyn = dyn; to = v.type(); }
  if (unranked) to = dq ? "tensor<*xf32>" : "tensor<*xi32>";
  // The type of the result, at the operation, the function and its end.
  if (to != type) {
    auto swap = [&](const string& a, const string& b) { for (size_t at = text.find(a); at != string::npos; at = text.find(a, at + b.size())) text.replace(at, a.size(), b); };
    swap("-> " + type + "\n", "-> " + to + "\n");
    swap("-> (" + type + ")", "-> (" + to + ")");
    swap(": (" + type + ") -> ()", ": (" + to + ") -> ()");
  }
  c.text(text);
  auto m = E().Parse(text);
  if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
  if (c.coin(40)) {
    mlir::PassManager pm(E().Get(), mlir::ModuleOp::getOperationName(), mlir::PassManager::Nesting::Explicit);
    pm.enableVerifier(false);
    pm.addNestedPass<mlir::func::FuncOp>(mlir::createCanonicalizerPass());
    if (mlir::failed(pm.run(*m))) c.fail("canonicalisation fails: %s", E().diag.c_str());
  } else if (!RunPass(*m, mlir::TFL::CreateBitpackWeightsLCEPass())) c.fail("the pass fails: %s", E().diag.c_str());
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid afterwards: %s", E().diag.substr(0, 1500).c_str());
  auto* def = Main(*m).getBody().front().getTerminator()->getOperand(0).getDefiningOp();
  mlir::Attribute a;
  if (!def || def->getName().getStringRef() != (dq ? "lq.Dequantize" : "lq.Quantize")) c.fail("folded, although the result is not what the constant gives: %s", Print(*m).substr(0, 2000).c_str());
  string now;
  llvm::raw_string_ostream(now) << def->getResult(0).getType();
  if (now != to) c.fail("a result of type %s became %s", to.c_str(), now.c_str());
  if (!mlir::matchPattern(def->getOperand(0), mlir::m_Constant(&a))) c.fail("the operand is not a constant any more");
  if (!g.resource) { string d = Diff(t, Interp::FromAttr(a), true); if (!d.empty()) c.fail("the operand: %s", d.c_str()); }
  c.nontrivial();
  c.label("does not fit");
}
}  // namespace

PBT_PROPERTY(M07) {
  E().Fresh();
  if (c.coin(6)) { Misfit(c); return; }
  Gen g(c);
  int n = (int)c.range(1, 3), convs = 0;
  for (int i = 0; i < n; ++i) {
    int k = (int)c.weighted({4, 4, 4});
    if (k == 0) g.Quantize();
    else if (k == 1) g.Dequantize();
    else { g.Conv(); ++convs; }
  }
  bool canon = c.coin(40);
  string text = g.f.Module();
  c.text(text);
  auto m = E().Parse(text);
  if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
  auto eval = [&](bool after) {
    Interp it(true);
    try { return it.Run(Main(*m), g.in); } catch (Problem& p) {
      if (after) c.fail("%s (afterwards)", p.msg.c_str());
      fprintf(stderr, "cannot evaluate the generated module: %s\n%s\n", p.msg.c_str(), text.c_str());
      exit(3);
    }
  };
  auto want = eval(false);
  for (auto& it : g.items) {
    string d = Diff(it.expect, want[it.ret], true);
    if (!d.empty()) c.fail("the model of the operation and the runtime kernel differ in result %d: %s", it.ret, d.c_str());
  }
  auto op_text = [](mlir::Operation* o) {  // the convolution without its filter
    string s = o->getName().getStringRef().str();
    for (auto a : o->getAttrDictionary()) { llvm::raw_string_ostream os(s); os << a.getName().strref() << "=" << a.getValue() << " "; }
    return s;
  };
  vector<string> was;
  m->walk([&](mlir::lq::Bconv2dOp o) { was.push_back(op_text(o)); });
  if (canon) {
    mlir::PassManager pm(E().Get(), mlir::ModuleOp::getOperationName(), mlir::PassManager::Nesting::Explicit);
    pm.enableVerifier(false);
    pm.addNestedPass<mlir::func::FuncOp>(mlir::createCanonicalizerPass());
    if (mlir::failed(pm.run(*m))) c.fail("canonicalisation fails: %s", E().diag.c_str());
  }
  if (!canon || c.coin())
    { if (!RunPass(*m, mlir::TFL::CreateBitpackWeightsLCEPass())) c.fail("the pass fails: %s", E().diag.c_str()); canon = false; }
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid afterwards: %s", E().diag.substr(0, 1500).c_str());
  auto got = eval(true);
  for (size_t i = 0; i < want.size(); ++i) {
    string d = Diff(want[i], got[i], true);
    if (!d.empty()) c.fail("result %zu: %s. Afterwards:\n%s", i, d.c_str(), Print(*m).substr(0, 3000).c_str());
  }
  auto ret = Main(*m).getBody().front().getTerminator();
  for (auto& it : g.items) {
    auto* def = ret->getOperand(it.ret).getDefiningOp();
    bool folded = def && def->hasTrait<mlir::OpTrait::ConstantLike>();
    if (it.must && !folded) c.fail("result %d is not folded: %s", it.ret, Print(*m).substr(0, 2000).c_str());
    if (folded) { c.nontrivial(); c.label("folded"); }
  }
  size_t k = 0;
  m->walk([&](mlir::lq::Bconv2dOp o) {
    if (k >= was.size()) c.fail("more convolutions than before");
    if (op_text(o) != was[k]) c.fail("attributes of a convolution changed from %s to %s", was[k].c_str(), op_text(o).c_str());
    const T& f = g.filters[k++];
    if (f.k == "none" || canon) return;
    mlir::Attribute a;
    if (!mlir::matchPattern(o.getFilter(), mlir::m_Constant(&a))) c.fail("the filter is not a constant any more");
    T now = Interp::FromAttr(a);
    string d = Diff(f, now, true);
    if (!d.empty()) c.fail("packed filter: %s", d.c_str());
    c.nontrivial();
    c.label("packed weights");
  });
  if (k != was.size()) c.fail("%zu convolutions became %zu", was.size(), k);
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
