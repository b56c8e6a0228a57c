// M12: detection post-processing on quantised values.
//
// The module expected afterwards is written next to the generated one; both are compared as lists of operations
// whose operands are terms, in which dequantisations and constants stand for themselves.
#include "mlir/src/mlirx.h"

namespace mlir::TFL { std::unique_ptr<OperationPass<func::FuncOp>> QuantizeDetectionPostProcessPass(); }
namespace {
using namespace mx;
struct Val { string n, t; int src = -1; bool hidden = false; };  // src: the quantised value it was dequantised from
struct Gen {
  Ctx& c;
  string args, arg_types, body, want;
  int na = 0, nv = 0, rewritten = 0, customs = 0;
  vector<Val> pool, raw;  // float values, quantised (or half precision) values
  explicit Gen(Ctx& c) : c(c) {}
  string Scale() { return c.pick({"2.343750e-02", "1.000000e+00", "0.0039215686274509803", "5.000000e-01", "3.1415926535", "1.000000e-05"}); }
  string Elem(bool scores) {
    string zp = c.coin(40) ? "" : ":" + S(c.range(-128, 127));
    switch (c.weighted({12, 2, 1, 1, 1, 1, scores ? 1 : 2})) {
      case 0: return "!quant.uniform<i8:f32, " + Scale() + zp + ">";
      case 1: return "!quant.uniform<i8<-127:127>:f32, " + Scale() + zp + ">";
      case 2: return "!quant.uniform<u8:f32, " + Scale() + (c.coin() ? ":" + S(c.range(0, 255)) : "") + ">";
      case 3: return "!quant.uniform<i16:f32, " + Scale() + ">";
      case 4: return "f16";
      case 5: return "!quant.uniform<i8<-100:90>:f32, " + Scale() + ":7>";
      default: return "!quant.uniform<i8:f32:0, {" + Scale() + ":3}>";
    }
  }
  string Dims(int rank) {
    string s;
    for (int i = 0; i < rank; ++i) s += (c.coin(12) ? string("?") : S(c.range(1, 20))) + "x";
    return s;
  }
  string Loc() { return c.coin() ? " loc(\"l" + S(c.draw(9)) + "\")" : ""; }
  void Line(const string& s) { body += s; want += s; }
  Val Arg(const string& t) {
    Val v{"%a" + S(na++), t};
    args += (args.empty() ? "" : ", ") + v.n + ": " + t;
    arg_types += (arg_types.empty() ? "" : ", ") + t;
    return v;
  }
  int Raw(bool scores) {
    if (!raw.empty() && c.coin(25)) { int i = (int)c.draw(raw.size()); if (!raw[i].hidden) return i; }
    int rank = (int)c.range(1, 3);
    string d = c.coin(95) ? Dims(rank) : "*x", e = Elem(scores), t = "tensor<" + d + e + ">";
    if (e.find(":0, {") != string::npos) t = "tensor<1x" + Dims(2) + e + ">";
    Val v;
    if (c.coin(75)) v = Arg(t);
    else if (c.coin() || e == "f16" || d == "*x") { v = {"%v" + S(nv++), t}; Line("    " + v.n + " = \"t.make\"() : () -> " + t + Loc() + "\n"); }
    else {
      Val x = Arg("tensor<" + t.substr(7, t.find(e) - 7) + "f32>");
      v = {"%v" + S(nv++), t};
      Line("    " + v.n + " = \"tfl.quantize\"(" + x.n + ") {qtype = " + t + "} : (" + x.t + ") -> " + t + "\n");
    }
    raw.push_back(v);
    return (int)raw.size() - 1;
  }
  static string Elements(const string& t) { size_t q = t.find('!'); if (q != string::npos) return t.substr(q, t.size() - q - 1); size_t x = t.rfind('x'), at = x == string::npos ? 7 : x + 1; return t.substr(at, t.size() - at - 1); }
  static string Shaped(const string& t) { return t.substr(7, t.size() - 8 - Elements(t).size()); }
  Val Dequantise(bool scores) {
    if (!pool.empty() && c.coin(10)) return pool[c.draw(pool.size())];
    int i = Raw(scores);
    Val v{"%v" + S(nv++), "tensor<" + Shaped(raw[i].t) + "f32>", i};
    Line("    " + v.n + " = \"tfl.dequantize\"(" + raw[i].n + ") : (" + raw[i].t + ") -> " + v.t + Loc() + "\n");
    pool.push_back(v);
    return v;
  }
  Val Input(int i) {
    if (c.coin(96)) return Dequantise(i == 1);
    if (c.coin(30) && !pool.empty()) {
      Val x = pool[c.draw(pool.size())], v{"%v" + S(nv++), x.t};
      Line("    " + v.n + " = \"" + string(c.pick({"tfl.relu", "t.dequantize"})) + "\"(" + x.n + ") : (" + x.t + ") -> " + x.t + "\n");
      return v;
    }
    return Arg("tensor<" + Dims((int)c.range(1, 3)) + c.pick({"f32", "f32", "i32", "!quant.uniform<i8:f32, 5.000000e-01>"}) + ">");
  }
  void Use(const Val& v) {
    Line("    \"t.use\"(" + v.n + ") : (" + v.t + ") -> ()\n");
  }
  void Detection() {
    ++customs;
    string code = c.coin(92) ? "TFLite_Detection_PostProcess" : c.pick({"TFLite_Detection_PostProcess2", "TFLite_Detection_Postprocess", "LceBconv2d", "", "TFLite_Detection"});
    int ni = c.coin(94) ? 3 : c.pick({2, 4, 1}), no = c.coin(95) ? 4 : c.pick({3, 5, 0});
    vector<Val> in, out;
    for (int i = 0; i < ni; ++i) in.push_back(Input(i));
    static const char* el[] = {"i32", "i32", "f32", "i32", "f32"};
    int odd = c.coin(7) ? (int)c.draw(4) : -1;
    bool ok = code == "TFLite_Detection_PostProcess" && ni == 3 && no == 4;
    for (int i = 0; i < no; ++i) {
      string e = el[i];
      if (i == odd) { e = i == 2 ? c.pick({"f16", "i32", "!quant.uniform<i8:f32, 5.000000e-01>", "f64"}) : c.pick({"f32", "i64", "i8", "ui32"}); ok = false; }
      string d = c.coin(95) ? Dims((int)c.range(0, 3)) : "*x";
      out.push_back({"", "tensor<" + d + e + ">"});
    }
    for (int i = 0; i < ni; ++i) {
      if (in[i].src < 0) ok = false;
      else {
        string e = Elements(raw[in[i].src].t);
        if (e[0] != '!' || (i == 1 && e.find(":0, {") != string::npos)) ok = false;
      }
    }
    string hex = "0x";
    for (int i = (int)c.draw(10); i > 0; --i) { hex += "0123456789ABCDEF"[c.draw(16)]; hex += "0123456789ABCDEF"[c.draw(16)]; }
    string attrs = "custom_code = \"" + code + "\", custom_option = #tfl<const_bytes : \"" + hex + "\">" + (c.coin(20) ? ", _tfl_quant_trait = \"fully_quantizable\"" : "") + (c.coin(10) ? ", extra = [1, 2.0]" : "");
    string g = "%v" + S(nv++), loc = Loc();
    auto op = [&](bool raw_in, const vector<Val>& os, const string& g) {
      string s = "    " + (no ? g + (no > 1 ? ":" + S(no) : "") + " = " : "") + "\"tfl.custom\"(", it, ot;
      for (int i = 0; i < ni; ++i) {
        const Val& v = raw_in ? raw[in[i].src] : in[i];
        s += (i ? ", " : "") + v.n;
        it += (i ? ", " : "") + v.t;
      }
      for (int i = 0; i < no; ++i) ot += (i ? ", " : "") + os[i].t;
      return s + ") {" + attrs + "} : (" + it + ") -> (" + ot + ")" + loc + "\n";
    };
    for (int i = 0; i < no; ++i) out[i].n = g + (no > 1 ? "#" + S(i) : "");
    string as = op(false, out, g);
    if (!ok) Line(as);
    else {
      ++rewritten;
      body += as;
      // Expected: the same results under new names; the later text uses result 2 through a dequantisation.
      vector<Val> os = out;
      os[2].t = "tensor<" + Shaped(out[2].t) + Elements(raw[in[1].src].t) + ">";
      want += op(true, os, g + "n");
      // Give the names of the old results to the new ones: identity through an unregistered alias is not possible in
      // text, so the names are rewritten when the listing is made: see `alias`.
      string dq = "%v" + S(nv++);
      want += "    " + dq + " = \"tfl.dequantize\"(" + g + "n#2) : (" + os[2].t + ") -> " + out[2].t + loc + "\n";
      raw.push_back({g + "n#2", os[2].t, -1, true});  // only in what is expected
      out[2].src = (int)raw.size() - 1;
      for (int i = 0; i < 4; ++i) alias.push_back({out[i].n, i == 2 ? dq : g + "n#" + S(i)});
    }
    for (auto& v : out) {
      if (c.coin(60)) UseOut(v);
      if (c.coin(10)) UseOut(v);
      if (v.t.find("f32>") != string::npos && c.coin(15)) pool.push_back(v);
    }
  }
  vector<std::pair<string, string>> alias;
  string Name(const string& n) { for (auto& a : alias) if (a.first == n) return a.second; return n; }
  void UseOut(const Val& v) {
    body += "    \"t.use\"(" + v.n + ") : (" + v.t + ") -> ()\n";
    want += "    \"t.use\"(" + v.n + ") : (" + v.t + ") -> ()\n";
    string r = "%r" + S((int)rets.size());
    rets.push_back(v);
  }
  vector<Val> rets;
  string Rename(const string& s) {  // in the expected text: old results by what stands for them
    string r;
    for (size_t i = 0; i < s.size();) {
      if (s[i] != '%') { r += s[i++]; continue; }
      size_t j = i + 1;
      while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '#')) ++j;
      r += Name(s.substr(i, j - i));
      i = j;
    }
    return r;
  }
  string Module(bool expected) {
    string r, t;
    for (auto& v : rets) { r += (r.empty() ? "" : ", ") + v.n; t += (t.empty() ? "" : ", ") + v.t; }
    string b = (expected ? want : body) + "    \"func.return\"(" + r + ") : (" + t + ") -> ()\n";
    return "module {\n  \"func.func\"() <{function_type = (" + arg_types + ") -> (" + t + "), sym_name = \"main\"}> ({\n  ^bb0(" + args + "):\n" + (expected ? Rename(b) : b) + "  }) : () -> ()\n}\n";
  }
};
string Listing(mlir::ModuleOp m) {
  string s;
  std::map<const void*, string> names;
  auto f = Main(m);
  for (auto a : f.getArguments()) names[a.getAsOpaquePointer()] = "a" + S(a.getArgNumber());
  s += Brief(f.getFunctionType()) + "\n";
  int k = 0;
  f.walk([&](mlir::Operation* o) {
    if (o == f.getOperation()) return;
    auto n = o->getName().getStringRef();
    string in;
    for (auto v : o->getOperands()) in += "[" + names[v.getAsOpaquePointer()] + "]";
    if (n == "tfl.dequantize") { names[o->getResult(0).getAsOpaquePointer()] = "dq(" + in + " to " + Brief(o->getResult(0).getType()) + ")"; return; }
    string a;
    llvm::raw_string_ostream os(a);
    o->getAttrDictionary().print(os);
    if (n == "tfl.quantize") { names[o->getResult(0).getAsOpaquePointer()] = "q(" + in + a + " to " + Brief(o->getResult(0).getType()) + ")"; return; }
    if (n == "tfl.relu") { names[o->getResult(0).getAsOpaquePointer()] = "relu(" + in + ")"; return; }
    s += S(k) + ": " + n.str() + " (" + in + ") " + a + " -> ";
    for (unsigned j = 0; j < o->getNumResults(); ++j) {
      s += Brief(o->getResult(j).getType()) + " ";
      names[o->getResult(j).getAsOpaquePointer()] = S(k) + "#" + S(j);
    }
    if (n == "tfl.custom") { string l; llvm::raw_string_ostream ls(l); o->getLoc().print(ls); if (l.find("loc(\"m\"") != 0) s += l; }
    s += "\n";
    ++k;
  });
  return s;
}
}  // namespace

PBT_PROPERTY(M12) {
  E().Fresh();
  Gen g(c);
  int n = (int)c.range(1, 3);
  for (int i = 0; i < n; ++i) {
    if (c.coin(20)) { Val v = g.Dequantise(false); g.Use(v); }
    g.Detection();
  }
  for (auto& v : g.pool) if (c.coin(10)) g.Use(v), 0;
  string text = g.Module(false), expected = g.Module(true);
  c.text(text);
  auto m = E().Parse(text), w = E().Parse(expected);
  for (auto* x : {&m, &w})
    if (mlir::failed(mlir::verify(**x))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
  if (!RunPass(*m, mlir::TFL::QuantizeDetectionPostProcessPass())) c.fail("the pass fails: %s", E().diag.substr(0, 1000).c_str());
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid afterwards: %s\n%s", E().diag.substr(0, 1500).c_str(), Print(*m).substr(0, 2500).c_str());
  string a = Listing(*w), b = Listing(*m);
  if (a != b) c.fail("expected\n%s\nbut it became\n%s", a.substr(0, 3000).c_str(), b.substr(0, 3000).c_str());
  string now = Print(*m);
  if (!RunPass(*m, mlir::TFL::QuantizeDetectionPostProcessPass())) c.fail("a second run fails");
  if (Print(*m) != now) c.fail("a second run changes it again");
  if (g.rewritten) { c.nontrivial(); c.label("rewritten"); }
  if (g.rewritten < g.customs) c.label("left alone");
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
