// M08: LCE operations as custom operators: there, back, and read by the runtime.
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/src/run.h"

namespace mlir::TFL { std::unique_ptr<OperationPass<func::FuncOp>> CreateLegalizeLCEPass(); std::unique_ptr<OperationPass<func::FuncOp>> CreateTranslateToLCEPass(); }
namespace {
using namespace mx;
string Attr(const char* n, int64_t v) { return string(n) + " = " + S(v) + " : i32"; }
string Attr(const char* n, const string& v) { return string(n) + " = \"" + v + "\""; }

// ---- structure
struct Gen {
  Ctx& c;
  pbt::Rng r;
  string args, arg_types, rets, ret_types, body, plain;  // plain: with every attribute spelled out
  int na = 0, nv = 0, lce = 0;
  struct Val { string n, t; };
  vector<Val> pool;
  explicit Gen(Ctx& c) : c(c), r(c.bulk()) {}
  string Dims(int rank = -1) {
    string s;
    if (rank < 0) rank = (int)c.range(0, 5);
    for (int i = 0; i < rank; ++i) s += (c.coin(15) ? string("?") : S(c.range(0, 300))) + "x";
    return s;
  }
  string Tensor(const vector<string>& elems) {
    if (c.coin(5)) return "tensor<*x" + elems[c.draw(elems.size())] + ">";
    return "tensor<" + Dims(c.coin(60) ? 4 : -1) + elems[c.draw(elems.size())] + ">";
  }
  Val Arg(const string& t) {
    for (auto& v : pool) if (v.t == t && c.coin(40)) return v;
    Val v{"%a" + S(na++), t};
    args += (args.empty() ? "" : ", ") + v.n + ": " + t;
    arg_types += (arg_types.empty() ? "" : ", ") + t;
    pool.push_back(v);
    return v;
  }
  string Location() {
    switch (c.draw(5)) {
      case 0: return " loc(\"l" + S(c.draw(50)) + "\")";
      case 1: return " loc(\"f.py\":" + S(c.draw(99)) + ":" + S(c.draw(99)) + ")";
      case 2: return " loc(fused[\"x" + S(c.draw(9)) + "\", \"y\"])";
      case 3: return " loc(unknown)";
      default: return " loc(callsite(\"n" + S(c.draw(9)) + "\" at \"m\"))";
    }
  }
  Val Op(const string& name, const vector<Val>& in, const string& attrs, const string& type, const string& implicit = "") {
    Val v{"%v" + S(nv++), type};
    auto text = [&](const string& a) {
      string s = "    " + v.n + " = \"" + name + "\"(";
      for (size_t i = 0; i < in.size(); ++i) s += (i ? ", " : "") + in[i].n;
      s += ")" + (a.empty() ? "" : " {" + a + "}") + " : (";
      for (size_t i = 0; i < in.size(); ++i) s += (i ? ", " : "") + in[i].t;
      return s + ") -> " + type;
    };
    string loc = Location();
    body += text(attrs) + loc + "\n";
    plain += text(attrs + implicit) + loc + "\n";
    pool.push_back(v);
    return v;
  }
  int64_t Int() {
    switch (c.draw(6)) {
      case 0: return c.range(1, 4);
      case 1: return c.range(0, 300);
      case 2: return c.pick({127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647});
      case 3: return (int64_t)c.draw(1u << 31);
      default: return c.range(1, 64);
    }
  }
  string Const() {
    string hex = "0x";
    static const char* d = "0123456789ABCDEF";
    for (int i = (int)c.draw(12); i > 0; --i) { uint64_t b = c.draw(256); hex += d[b >> 4]; hex += d[b & 15]; }
    return "#tfl<const_bytes : \"" + hex + "\">";
  }
  void Step() {
    static const vector<string> any{"bf16", "f16", "f32", "f32", "f64", "i32", "i64", "i1", "!quant.uniform<i8:f32, 2.0>", "!quant.uniform<i8:f32, 5.000000e-01:3>"};
    switch (c.weighted({3, 3, 6, 4, 3, 1, 2})) {
      case 0: Op("lq.Quantize", {Arg(Tensor(any))}, "", Tensor({"i32"})); ++lce; break;
      case 1: Op("lq.Dequantize", {Arg(Tensor({"i32"}))}, "", Tensor(any)); ++lce; break;
      case 2: {
        Val x = Arg(Tensor({"i32"})), f = Arg(Tensor({"f32", "i32"})), m = Arg(c.coin(70) ? Tensor({"f32"}) : "none"), b = Arg(c.coin(70) ? Tensor({"f32"}) : "none"), t = Arg(c.coin(40) ? Tensor({"i32"}) : "none");
        string a = Attr("channels_in", Int()) + ", " + Attr("dilation_height_factor", Int()) + ", " + Attr("dilation_width_factor", Int()) + ", " +
                   Attr("fused_activation_function", string(c.pick({"NONE", "RELU", "RELU_N1_TO_1", "RELU6"}))) + ", " + Attr("padding", string(c.pick({"SAME", "VALID"}))) + ", " + Attr("stride_height", Int()) + ", " + Attr("stride_width", Int());
        string pad = ", " + Attr("pad_values", c.coin(30) ? 0 : c.coin(70) ? 1 : Int());
        bool implicit = c.coin(10);
        Op("lq.Bconv2d", {x, f, m, b, t}, implicit ? a : a + pad, Tensor({"f32", "i32", "!quant.uniform<i8:f32, 2.0>"}), implicit ? ", " + Attr("pad_values", 0) : "");
        ++lce;
        break;
      }
      case 3:
        Op("lq.BMaxPool2d", {Arg(Tensor({"i32"}))}, Attr("padding", string(c.pick({"SAME", "VALID"}))) + ", " + Attr("stride_width", Int()) + ", " + Attr("stride_height", Int()) + ", " + Attr("filter_width", Int()) + ", " + Attr("filter_height", Int()), Tensor({"i32"}));
        ++lce;
        break;
      case 4: {
        vector<Val> in;
        for (int i = (int)c.draw(3); i >= 0; --i) in.push_back(Arg(Tensor(any)));
        Op("tfl.custom", in, "custom_code = \"" + string(c.pick({"Lce", "LceQuant", "LceQuantizer", "lceQuantize", "TFLite_Detection_PostProcess", "Custom", "Bconv2d", "LceBconv3d", "LceBMaxPool2D", "", "Quantize"})) + "\", custom_option = " + Const(), Tensor(any));
        c.label("other custom operator");
        break;
      }
      case 5: {
        string t = Tensor({"f32"});
        if (t.find('*') != string::npos) t = "tensor<3xf32>";
        Val x = Arg(t);
        Op(c.coin() ? "tfl.relu" : "foo.bar", {x}, "", t);
        break;
      }
      default: {
        Val x = Arg("tensor<4xf32>");
        Op("tfl.add", {x, x}, "fused_activation_function = \"NONE\"", "tensor<4xf32>");
      }
    }
  }
  string Module(bool spelled) {
    string r, t;
    for (auto& v : pool) if (v.n[1] == 'v') { r += (r.empty() ? "" : ", ") + v.n; t += (t.empty() ? "" : ", ") + v.t; }
    return "module {\n  \"func.func\"() <{function_type = (" + arg_types + ") -> (" + t + "), sym_name = \"main\"}> ({\n  ^bb0(" + args + "):\n" + (spelled ? plain : body) +
           "    \"func.return\"(" + r + ") : (" + t + ") -> ()\n  }) : () -> ()\n}\n";
  }
};

// Locations of what is not written with one differ between the two texts, so they are left out.
string Listing(mlir::ModuleOp m) {
  string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags f;
  f.printGenericOpForm();
  mlir::AsmState st(m, f);
  m->walk([&](mlir::Operation* o) {
    if (o->getNumRegions()) return;
    for (auto v : o->getResults()) { v.printAsOperand(os, st); os << " "; }
    os << "= " << o->getName().getStringRef() << "(";
    for (auto v : o->getOperands()) { v.printAsOperand(os, st); os << ":" << v.getType() << " "; }
    os << ") " << o->getAttrDictionary() << " -> ";
    for (auto t : o->getResultTypes()) os << t << " ";
    if (!mlir::isa<mlir::func::ReturnOp>(o)) os << o->getLoc();
    os << "\n";
  });
  return s;
}
string FirstDifference(const string& a, const string& b) {
  size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') line = i + 1; ++i; }
  if (i == a.size() && i == b.size()) return "";
  return a.substr(line, a.find('\n', i) - line) + "\nbecame\n" + b.substr(line, b.find('\n', i) - line);
}

void Structure(Ctx& c) {
  Gen g(c);
  int n = (int)c.range(1, 6);
  for (int i = 0; i < n; ++i) g.Step();
  string text = g.Module(false);
  c.text(text);
  auto m = E().Parse(text), ref = E().Parse(g.Module(true));
  if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
  string want = Listing(*ref), func = Print(Main(*m)).substr(0, 300 + g.args.size());
  if (!RunPass(*m, mlir::TFL::CreateLegalizeLCEPass())) c.fail("the pass fails: %s", E().diag.c_str());
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid once legalised: %s", E().diag.substr(0, 1500).c_str());
  // Every operation is where it was, with its operands, result types and location; only LCE's became custom.
  vector<mlir::Operation*> a, b;
  ref->walk([&](mlir::Operation* o) { if (!o->getNumRegions()) a.push_back(o); });
  m->walk([&](mlir::Operation* o) { if (!o->getNumRegions()) b.push_back(o); });
  if (a.size() != b.size()) c.fail("%zu operations became %zu", a.size(), b.size());
  auto locs = [](mlir::Operation* o) { string s; llvm::raw_string_ostream os(s); o->getLoc().print(os); return s; };
  static tflite::MutableOpResolver* names = [] { auto* r = new tflite::MutableOpResolver; compute_engine::tflite::RegisterLCECustomOps(r); return r; }();
  for (size_t i = 0; i < a.size(); ++i) {
    string n = a[i]->getName().getStringRef().str();
    bool lce = n.substr(0, 3) == "lq.";
    if (lce) {
      auto op = mlir::dyn_cast<mlir::TFL::CustomOp>(b[i]);
      if (!op) c.fail("%s became %s", n.c_str(), b[i]->getName().getStringRef().str().c_str());
      if (!names->FindOp(op.getCustomCode().str().c_str(), 1)) c.fail("the runtime does not register '%s'", op.getCustomCode().str().c_str());
    } else if (n != b[i]->getName().getStringRef() || a[i]->getAttrDictionary() != b[i]->getAttrDictionary()) {
      c.fail("an operation that is not LCE's changed: %s became %s", Print(a[i]).c_str(), Print(b[i]).c_str());
    }
    if (!mlir::isa<mlir::func::ReturnOp>(a[i]) && locs(a[i]) != locs(b[i])) c.fail("the location of %s changed to %s", Print(a[i]).c_str(), locs(b[i]).c_str());
    if (a[i]->getResultTypes() != b[i]->getResultTypes() || a[i]->getNumOperands() != b[i]->getNumOperands()) c.fail("types of %s became those of %s", Print(a[i]).c_str(), Print(b[i]).c_str());
  }
  if (!RunPass(*m, mlir::TFL::CreateTranslateToLCEPass())) c.fail("the reverse pass fails: %s", E().diag.c_str());
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid once translated back: %s", E().diag.substr(0, 1500).c_str());
  string d = FirstDifference(want, Listing(*m));
  if (!d.empty()) c.fail("%s", d.c_str());
  if (g.lce) c.nontrivial();
  c.label("round trip");
}

// ---- behaviour
void Runtime(Ctx& c) {
  pbt::Rng r(c.bulk());
  Fn f;
  vector<T> in;
  T as;
  bool exact = true, reference = c.coin(35);
  switch (c.weighted({1, 1, 8, 4})) {
    case 0: {
      Shape s;
      for (int i = (int)c.range(1, 4); i > 0; --i) s.push_back(c.range(1, 3));
      s.back() = c.range(1, 70);
      int k = (int)c.draw(3);
      string e = k == 0 ? "f32" : k == 1 ? "i1" : "!quant.uniform<i8:f32, 5.000000e-01:" + S(c.range(1, 100)) + ">";
      V x = f.Arg(s, e);
      T t = RandomFloat(r, s, true);
      if (k) { t = Interp::TypeOf(mlir::parseType("tensor<1x" + e + ">", E().Get())); t.s = s; for (int64_t i = Count(s); i > 0; --i) t.v.push_back(k == 1 ? r.below(2) : (double)(int64_t)r.below(256) - 128); }
      in.push_back(t);
      Shape o = s;
      o.back() = Words(o.back());
      f.Ret(f.Op("lq.Quantize", {x}, "", o, "i32"));
      c.label("runs Quantize");
      break;
    }
    case 1: {
      Shape s;
      for (int i = (int)c.range(1, 4); i > 0; --i) s.push_back(c.range(1, 3));
      s.back() = c.range(1, 70);
      Shape o = s;
      o.back() = Words(o.back());
      V x = f.Arg(o, "i32");
      in.push_back(RandomPacked(r, o, s.back()));
      string e = c.pick({"f32", "i1", "!quant.uniform<i8:f32, 5.000000e-01:3>"});
      f.Ret(f.Op("lq.Dequantize", {x}, "", s, e));
      c.label("runs Dequantize");
      break;
    }
    case 2: {
      int64_t C = c.coin(50) ? c.range(1, 70) : c.pick({32, 64, 128, 160}), groups = reference && C % 64 == 0 && c.coin(40) ? 2 : 1, cpg = C / groups;
      int64_t N = c.range(1, 2), H = c.range(1, 9), W = c.range(1, 9), O = groups * c.range(1, 6), fh = c.range(1, 3), fw = c.range(1, 3), sh = c.range(1, 3), sw = c.range(1, 3), dh = c.range(1, 3), dw = c.range(1, 3);
      int pad = (int)c.draw(3);
      if (H < (fh - 1) * dh + 1 || W < (fw - 1) * dw + 1) pad = (int)c.draw(2);
      if (reference && pad == 0 && C % 2) pad = 1;  // refused by the reference implementation
      string act = pad == 0 ? "NONE" : c.pick({"NONE", "RELU", "RELU_N1_TO_1", "RELU6"});
      V x = f.Arg({N, H, W, Words(C)}, "i32");
      in.push_back(RandomPacked(r, {N, H, W, 0}, C));
      T fil = RandomPacked(r, {O, fh, fw, 0}, cpg);
      vector<int32_t> fw32(fil.v.begin(), fil.v.end());
      V fv = f.CI(fil.s, fw32), m, b, t = f.None();
      int kind = pad == 0 && !reference ? 0 : (int)c.weighted({4, 2, 2});  // float, packed, int8
      string e = "f32";
      Geo gy = Geometry(pad != 2, H, fh, sh, dh), gx = Geometry(pad != 2, W, fw, sw, dw);
      Shape o{N, gy.out, gx.out, O};
      if (pad == 0 && kind == 2) kind = 0;
      if (pad == 0 && kind == 1) act = "NONE";
      if (kind == 1) {
        vector<int32_t> v(O);
        for (auto& q : v) q = (int32_t)r.below(fh * fw * cpg + 2) - 1;
        t = f.CI({O}, v);
        m = b = f.None();
        e = "i32";
        o[3] = Words(O);
        if (pad == 0) { pad = 1; }
      } else {
        static const float ms[] = {1, 2, 0.5f, -1, -0.5f, 0.25f, -4};
        vector<float> mv(O), bv(O);
        for (auto& q : mv) q = ms[r.below(7)];
        for (auto& q : bv) q = ((float)r.below(65) - 32) / 4;
        m = f.CF({O}, mv);
        b = f.CF({O}, bv);
        if (kind == 2) { e = "!quant.uniform<i8:f32, 5.000000e-01:" + S(c.range(1, 60)) + ">"; exact = false; }
      }
      string a = Attr("channels_in", C) + ", " + Attr("dilation_height_factor", dh) + ", " + Attr("dilation_width_factor", dw) + ", " + Attr("fused_activation_function", act) + ", " +
                 Attr("pad_values", pad == 1 ? 1 : 0) + ", " + Attr("padding", string(pad == 2 ? "VALID" : "SAME")) + ", " + Attr("stride_height", sh) + ", " + Attr("stride_width", sw);
      f.Ret(f.Op("lq.Bconv2d", {x, fv, m, b, t}, a, o, e));
      c.label("runs Bconv2d " + string(kind == 0 ? "float" : kind == 1 ? "packed" : "int8"));
      break;
    }
    default: {
      int64_t N = c.range(1, 2), H = c.range(1, 9), W = c.range(1, 9), C = c.range(1, 70), fh = c.range(1, 4), fw = c.range(1, 4), sh = c.range(1, 4), sw = c.range(1, 4);
      bool same = c.coin() || H < fh || W < fw;
      V x = f.Arg({N, H, W, Words(C)}, "i32");
      in.push_back(RandomPacked(r, {N, H, W, 0}, C));
      f.Ret(f.Op("lq.BMaxPool2d", {x}, Attr("filter_height", fh) + ", " + Attr("filter_width", fw) + ", " + Attr("padding", string(same ? "SAME" : "VALID")) + ", " + Attr("stride_height", sh) + ", " + Attr("stride_width", sw),
                 {N, Geometry(same, H, fh, sh, 1).out, Geometry(same, W, fw, sw, 1).out, Words(C)}, "i32"));
      c.label("runs BMaxPool2d");
    }
  }
  c.text(f.Module());
  auto m = E().Parse(f.Module());
  if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), f.Module().c_str()); exit(3); }
  Interp before(true);
  vector<T> want, got;
  try { want = before.Run(Main(*m), in); } catch (Problem& p) { fprintf(stderr, "cannot evaluate the generated module: %s\n%s\n", p.msg.c_str(), f.Module().c_str()); exit(3); }
  if (!RunPass(*m, mlir::TFL::CreateLegalizeLCEPass())) c.fail("the pass fails: %s", E().diag.c_str());
  Interp after(true);
  uint64_t junk = r.next();
  after.custom = [&](mlir::Operation* o, const vector<const T*>& v) { return RunCustom(o, v, reference, false, junk); };
  try { got = after.Run(Main(*m), in); } catch (Problem& p) { c.fail("%s", p.msg.c_str()); }
  string d = Diff(want[0], got[0], exact);
  if (!d.empty()) c.fail("the runtime computes something else with the options: %s", d.c_str());
  c.nontrivial();
}
}  // namespace

PBT_PROPERTY(M08) {
  E().Fresh();
  if (c.coin(55)) Structure(c); else Runtime(c);
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
