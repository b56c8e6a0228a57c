// M10: removal of pass-through operations.
//
// A function is a list of opaque operations (each with an identity attribute), pass-through operations and
// constants. What an opaque operation or the function's result receives is named by a term: the argument, the
// result of an opaque operation, or the constant, that it leads to through pass-through operations.
#include "mlir/src/mlirx.h"

namespace {
using namespace mx;
struct Val { string name, type, term; };
const char* kElem[] = {"f32", "f32", "i32", "i8", "i1", "i64", "f16", "f64", "ui8", "complex<f32>", "!quant.uniform<i8:f32, 5.000000e-01:3>", "index"};

string Loose(Ctx& c, const Shape& s, const string& e) {  // a type the same tensor may also have
  if (c.coin(15)) return "tensor<*x" + e + ">";
  Shape t = s;
  for (auto& d : t) if (c.coin(60)) d = -1;
  return Ty(t, e);
}
struct Tensor2 { Shape s; string e; };

struct Gen {
  Ctx& c;
  bool strict;      // pass-through operations keep the type
  int ids = 0, n = 0, passes = 0, consts = 0;
  vector<string> ops;   // what each opaque operation receives and makes, in order
  vector<Tensor2> kinds;
  explicit Gen(Ctx& c, bool strict) : c(c), strict(strict) {}
  string Fresh() { return "%v" + S(n++); }
  struct Scope { vector<Val> vals; vector<int> kind; };

  string Constant(string* type, int* kind) {
    int k = (int)c.draw(kinds.size());
    const auto& t = kinds[k];
    *kind = k;
    *type = Ty(t.s, t.e);
    string body;
    if (t.e == "f32" && Count(t.s) && c.coin(20)) return "dense_resource<r" + S(ids) + "q> : " + *type;
    string one = t.e[0] == 'f' ? c.pick({"1.0", "-1.0", "0.0", "-0.0", "2.5"}) : t.e == "i1" ? c.pick({"true", "false"}) : t.e[0] == 'c' ? "(1.0, 2.0)" : S(c.range(0, 3));
    string q = t.e[0] == '!' ? "i8" : t.e;
    if (t.e[0] == '!') { *type = Ty(t.s, t.e); return ""; }
    if (!Count(t.s)) return "dense<> : " + *type;
    if (c.coin(40) || t.e[0] == 'c') return "dense<" + one + "> : " + *type;
    vector<string> e;
    std::function<string(size_t)> nest = [&](size_t d) -> string {
      if (d == t.s.size()) return t.e[0] == 'f' ? S(c.range(0, 5)) + ".5" : t.e == "i1" ? (c.coin() ? "true" : "false") : S(c.range(0, 7));
      string r = "[";
      for (int64_t i = 0; i < t.s[d]; ++i) r += (i ? ", " : "") + nest(d + 1);
      return r + "]";
    };
    return "dense<" + nest(0) + "> : " + *type;
  }
  string TypeFor(int kind) { return strict || c.coin(80) ? Ty(kinds[kind].s, kinds[kind].e) : Loose(c, kinds[kind].s, kinds[kind].e); }

  string Body(Scope s, int len, int depth, const string& ind, Scope* out) {
    string t;
    for (int i = 0; i < len; ++i) {
      int what = (int)c.weighted({6, 3, 2, s.vals.empty() ? 0 : 3, depth < 2 ? 1 : 0});
      if (what == 0 && !s.vals.empty()) {  // one operand passed through
        size_t at = c.draw(s.vals.size());
        Val v = s.vals[at];
        string op = c.pick({"tf.Identity", "tf.Snapshot", "tf.StopGradient", "tf.CheckNumerics", "tf.PlaceholderWithDefault"});
        Val r{Fresh(), strict ? v.type : c.coin(70) ? v.type : TypeFor(s.kind[at]), v.term};
        t += ind + r.name + " = \"" + op + "\"(" + v.name + ")" + (op == "tf.CheckNumerics" ? " {message = \"m" + S(c.draw(3)) + "\"}" : c.coin(10) ? " {extra = 1 : i32}" : "") + " : (" + v.type + ") -> " + r.type + "\n";
        s.vals.push_back(r);
        s.kind.push_back(s.kind[at]);
        ++passes;
      } else if (what == 3) {  // several
        int k = (int)c.range(c.coin(90) ? 1 : 0, 4);
        string a, ty, rt;
        vector<Val> made;
        vector<int> mk;
        string group = "%v" + S(n++);
        for (int j = 0; j < k; ++j) {
          size_t at = c.draw(s.vals.size());
          Val v = s.vals[at];
          Val r{group + (k > 1 ? "#" + S(j) : ""), strict ? v.type : c.coin(70) ? v.type : TypeFor(s.kind[at]), v.term};
          a += (j ? ", " : "") + v.name;
          ty += (j ? ", " : "") + v.type;
          rt += (j ? ", " : "") + r.type;
          made.push_back(r);
          mk.push_back(s.kind[at]);
        }
        t += ind + (k ? group + (k > 1 ? ":" + S(k) : "") + " = " : "") + "\"tf.IdentityN\"(" + a + ") : (" + ty + ") -> (" + rt + ")\n";
        for (int j = 0; j < k; ++j) { s.vals.push_back(made[j]); s.kind.push_back(mk[j]); }
        ++passes;
      } else if (what == 1 || s.vals.empty()) {  // a constant
        string type;
        int kind;
        string value = Constant(&type, &kind);
        if (value.empty()) continue;
        string name = Fresh();
        string declared = strict || c.coin(75) ? type : Loose(c, kinds[kind].s, kinds[kind].e);
        t += ind + name + " = \"" + (c.coin(80) || declared != type ? "tf.Const" : "arith.constant") + "\"() {value = " + value + "} : () -> " + declared + "\n";
        ++consts;
        if (value.find("dense_resource") == 0) ++ids;
        s.vals.push_back({name, declared, "const " + value + " : " + declared});
        s.kind.push_back(kind);
      } else {  // an opaque operation, perhaps with a body
        int id = (int)ops.size(), k = (int)c.range(0, 3), m = (int)c.range(0, 2);
        string name = c.pick({"t.op", "t.op", "t.identity", "t.const"});
        string line = name + " (";
        string a, ty, rt, region;
        for (int j = 0; j < k; ++j) {
          Val v = s.vals[c.draw(s.vals.size())];
          a += (j ? ", " : "") + v.name;
          ty += (j ? ", " : "") + v.type;
          line += "[" + v.term + "]";
        }
        line += ") -> ";
        ops.push_back("");
        vector<Val> made;
        vector<int> mk;
        string group = "%v" + S(n++);
        if (what == 4) {
          Scope inner = s, end;
          string args;
          int na = (int)c.range(0, 2);
          for (int j = 0; j < na; ++j) {
            int kd = (int)c.draw(kinds.size());
            Val v{Fresh(), TypeFor(kd), "arg " + S(j) + " of " + S(id)};
            args += (j ? ", " : "") + v.name + ": " + v.type;
            inner.vals.push_back(v);
            inner.kind.push_back(kd);
          }
          string b = Body(inner, (int)c.range(0, 4), depth + 1, ind + "  ", &end);
          // the end of the body takes some values
          int id2 = (int)ops.size();
          ops.push_back("");
          string l2 = "t.end (", a2, t2;
          for (int j = 0; j < 2 && !end.vals.empty(); ++j) {
            Val v = end.vals[c.draw(end.vals.size())];
            a2 += (j ? ", " : "") + v.name;
            t2 += (j ? ", " : "") + v.type;
            l2 += "[" + v.term + "]";
          }
          ops[id2] = l2 + ") -> ";
          region = " ({\n" + ind + "^bb0(" + args + "):\n" + b + ind + "  \"t.end\"(" + a2 + ") {id = " + S(id2) + " : i32} : (" + t2 + ") -> ()\n" + ind + "})";
        }
        for (int j = 0; j < m; ++j) {
          int kd = (int)c.draw(kinds.size());
          Val r{group + (m > 1 ? "#" + S(j) : ""), TypeFor(kd), "result " + S(j) + " of " + S(id)};
          rt += (j ? ", " : "") + r.type;
          line += "[" + r.type + "]";
          made.push_back(r);
          mk.push_back(kd);
        }
        ops[id] = line;
        t += ind + (m ? group + (m > 1 ? ":" + S(m) : "") + " = " : "") + "\"" + name + "\"(" + a + ")" + region + " {id = " + S(id) + " : i32} : (" + ty + ") -> (" + rt + ")\n";
        for (int j = 0; j < m; ++j) { s.vals.push_back(made[j]); s.kind.push_back(mk[j]); }
      }
    }
    *out = s;
    return t;
  }
};

string Term(mlir::Value v, std::map<const void*, string>& names) {
  auto it = names.find(v.getAsOpaquePointer());
  return it == names.end() ? "undefined" : it->second;
}
void Walk(mlir::Block& b, std::map<const void*, string>& names, vector<string>& ops, int& left, vector<string>& wrong, bool strict) {
  for (mlir::Operation& o : b) {
    auto n = o.getName().getStringRef();
    if (n == "func.return") continue;
    auto id = o.getAttrOfType<mlir::IntegerAttr>("id");
    if (id) {
      size_t k = (size_t)id.getInt();
      if (k >= ops.size() || !ops[k].empty()) { wrong.push_back("operation " + S(k) + " is there twice"); return; }
      string line = n.str() + " (";
      for (auto v : o.getOperands()) line += "[" + Term(v, names) + "]";
      line += ") -> ";
      for (unsigned j = 0; j < o.getNumResults(); ++j) {
        line += "[" + Brief(o.getResult(j).getType()) + "]";
        names[o.getResult(j).getAsOpaquePointer()] = "result " + S(j) + " of " + S(k);
      }
      ops[k] = line;
      for (auto& r : o.getRegions())
        for (auto& inner : r) {
          for (auto a : inner.getArguments()) names[a.getAsOpaquePointer()] = "arg " + S(a.getArgNumber()) + " of " + S(k);
          Walk(inner, names, ops, left, wrong, strict);
        }
      continue;
    }
    if (n == "tf.Const" || n == "arith.constant") {
      auto a = o.getAttr("value");
      string s;
      llvm::raw_string_ostream os(s);
      a.print(os);
      names[o.getResult(0).getAsOpaquePointer()] = "const " + s + " : " + Brief(o.getResult(0).getType());
      auto t = mlir::dyn_cast<mlir::RankedTensorType>(o.getResult(0).getType());
      if (n == "tf.Const" && t && t.hasStaticShape() && mlir::isa<mlir::DenseElementsAttr>(a)) wrong.push_back("a static constant is still one of TensorFlow's");
      if (n == "arith.constant" && !(t && t.hasStaticShape())) wrong.push_back("a plain constant without a static type");
      continue;
    }
    if (o.getNumOperands() != o.getNumResults()) { wrong.push_back("unexpected " + n.str()); return; }
    bool same = true;
    for (unsigned j = 0; j < o.getNumResults(); ++j) {
      names[o.getResult(j).getAsOpaquePointer()] = Term(o.getOperand(j), names);
      same = same && o.getOperand(j).getType() == o.getResult(j).getType();
    }
    if (n != "tf.Identity" && n != "tf.IdentityN" && n != "tf.Snapshot" && n != "tf.StopGradient" && n != "tf.CheckNumerics" && n != "tf.PlaceholderWithDefault") wrong.push_back("unexpected " + n.str());
    if (same) ++left;
  }
}
}  // namespace

PBT_PROPERTY(M10) {
  E().Fresh();
  Gen g(c, c.coin(70));
  int nk = (int)c.range(1, 3);
  for (int i = 0; i < nk; ++i) {
    int rank = (int)c.range(0, 3);
    Shape s;
    for (int d = 0; d < rank; ++d) s.push_back(c.coin(6) ? 0 : c.range(1, 3));
    g.kinds.push_back({s, kElem[c.draw(12)]});
  }
  int nf = c.coin(80) ? 1 : 2;
  struct F { vector<string> args, rets, ops; int from; };
  vector<F> fs;
  string text = "module {\n";
  int opaque_from = 0;
  for (int q = 0; q < nf; ++q) {
    Gen::Scope s, end;
    F f;
    f.from = opaque_from;
    string al, ty;
    int na = (int)c.range(0, 3);
    for (int i = 0; i < na; ++i) {
      int k = (int)c.draw(g.kinds.size());
      Val v{"%a" + S(q) + "_" + S(i), g.TypeFor(k), "argument " + S(i)};
      al += (i ? ", " : "") + v.name + ": " + v.type;
      ty += (i ? ", " : "") + v.type;
      s.vals.push_back(v);
      s.kind.push_back(k);
    }
    string body = g.Body(s, (int)c.range(0, 14), 0, "    ", &end);
    string rl, rt;
    int nr = (int)c.range(0, 4);
    std::map<string, string> types;  // the type of each term where it is made
    for (int i = 0; i < nr && !end.vals.empty(); ++i) {
      // Prefer late values.
      size_t at = c.coin(60) ? end.vals.size() - 1 - c.draw(std::min<size_t>(end.vals.size(), 4)) : c.draw(end.vals.size());
      Val v = end.vals[at];
      // Of a value whose type was changed on the way, the result is not used directly (known finding M10_result_type).
      bool changed = false;
      for (auto& w : end.vals) if (w.term == v.term) { changed = w.type != v.type; break; }
      if (changed) continue;
      rl += (rl.empty() ? "" : ", ") + v.name;
      rt += (rt.empty() ? "" : ", ") + v.type;
      f.rets.push_back(v.term);
    }
    text += "  \"func.func\"() <{function_type = (" + ty + ") -> (" + rt + "), sym_name = \"f" + S(q) + "\"}> ({\n  ^bb0(" + al + "):\n" + body + "    \"func.return\"(" + rl + ") : (" + rt + ") -> ()\n  }) : () -> ()\n";
    opaque_from = (int)g.ops.size();
    fs.push_back(f);
  }
  text += "}\n";
  if (g.ids) {
    text += "{-# dialect_resources: { builtin: {";
    for (int i = 0; i < g.ids; ++i) {
      string hex = "0x04000000";
      for (int b = 0; b < 27 * 4; ++b) hex += b % 4 == 3 ? "3F" : "00";
      text += (i ? ", " : "") + ("r" + S(i)) + "q: \"" + hex + "\"";
    }
    text += "} } #-}\n";
  }
  c.text(text);
  auto m = E().Parse(text);
  if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
  auto read = [&](int& left, vector<string>& wrong, vector<vector<string>>& rets, vector<string>& types) {
    vector<string> ops(g.ops.size());
    for (auto f : m->getOps<mlir::func::FuncOp>()) {
      std::map<const void*, string> names;
      for (auto a : f.getArguments()) names[a.getAsOpaquePointer()] = "argument " + S(a.getArgNumber());
      Walk(f.getBody().front(), names, ops, left, wrong, g.strict);
      vector<string> r;
      for (auto v : f.getBody().front().getTerminator()->getOperands()) r.push_back(Term(v, names));
      rets.push_back(r);
      types.push_back(Brief(f.getFunctionType()));
    }
    return ops;
  };
  // The terms as MLIR prints the types and constants; the generator's own say which they are.
  vector<vector<string>> r0, r1;
  vector<string> t0, t1, wrong, w0;
  int l0 = 0, left = 0;
  auto before = read(l0, w0, r0, t0);
  for (size_t q = 0; q < fs.size(); ++q)
    for (size_t i = 0; i < fs[q].rets.size(); ++i)
      if (fs[q].rets[i].find("const") != 0 && fs[q].rets[i] != r0[q][i]) { fprintf(stderr, "harness: %s is not %s\n%s\n", fs[q].rets[i].c_str(), r0[q][i].c_str(), text.c_str()); exit(3); }
  string was = Print(*m);
  if (!RunPass(*m, mlir::TFL::CreateOpRemovalPass())) c.fail("the pass fails: %s", E().diag.substr(0, 1000).c_str());
  string now = Print(*m);
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid afterwards: %s\n%s", E().diag.substr(0, 1500).c_str(), now.substr(0, 2000).c_str());
  auto after = read(left, wrong, r1, t1);
  if (!wrong.empty()) c.fail("%s. Afterwards:\n%s", wrong[0].c_str(), now.substr(0, 3000).c_str());
  if (left) c.fail("a pass-through operation is left. Afterwards:\n%s", now.substr(0, 3000).c_str());
  if (t0 != t1) c.fail("a function has another type. Afterwards:\n%s", now.substr(0, 3000).c_str());
  for (size_t i = 0; i < before.size(); ++i)
    if (before[i] != after[i]) c.fail("operation %zu was %s, became %s. Afterwards:\n%s", i, before[i].c_str(), after[i].empty() ? "(removed)" : after[i].c_str(), now.substr(0, 3000).c_str());
  for (size_t q = 0; q < r0.size(); ++q)
    for (size_t i = 0; i < r0[q].size(); ++i)
      if (r0[q][i] != r1[q][i]) c.fail("result %zu was %s, became %s. Afterwards:\n%s", i, r0[q][i].c_str(), r1[q][i].c_str(), now.substr(0, 3000).c_str());
  // Once more: nothing is left to do.
  if (!RunPass(*m, mlir::TFL::CreateOpRemovalPass())) c.fail("a second run fails");
  if (Print(*m) != now) c.fail("a second run changes it again");
  c.label(g.strict ? "types kept" : "types changed on the way");
  if (g.consts) c.label("constants");
  if (g.ids) c.label("resource constants");
  if (g.passes && l0) c.nontrivial();
}

// Known finding: a result taken from a pass-through operation that also changes the type.
PBT_PROPERTY(M10_result_type) {
  E().Fresh();
  string text = "func.func @f(%a: tensor<?xf32>) -> tensor<3xf32> {\n  %0 = \"tf.Identity\"(%a) : (tensor<?xf32>) -> tensor<3xf32>\n  return %0 : tensor<3xf32>\n}\n";
  c.text(text);
  auto m = E().Parse(text);
  RunPass(*m, mlir::TFL::CreateOpRemovalPass());
  if (mlir::failed(mlir::verify(*m))) c.fail("the module is invalid afterwards: %s", E().diag.substr(0, 1000).c_str());
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
