// M01: the batch-size pass. A module is generated as text in MLIR's generic form,
// once as it is and once as it should become; the pass has to turn the one into the
// other, compared as printed with locations.
#include "common/pbt.h"
#include "llvm/Support/raw_ostream.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"

#include "larq_compute_engine/mlir/transforms/passes.h"

namespace {
using pbt::Ctx;
using std::string;
using std::vector;

string S(int64_t v) { return std::to_string(v); }

string Element(Ctx& c) {
  switch (c.weighted({8, 2, 2, 2, 2, 2, 1, 2, 1, 1, 1, 1})) {
    case 0: return "f32";
    case 1: return "i8";
    case 2: return "i32";
    case 3: return "i1";
    case 4: return "!quant.uniform<i8:f32, 0.5:-3>";
    case 5: return "bf16";
    case 6: return "complex<f32>";
    case 7: return "ui8";
    case 8: return "index";
    case 9: return "!verif.resource<tensor<?x3xf32>>";
    case 10: return "vector<4xf32>";
    default: return "!quant.uniform<i8<-127:127>:f32:0, {0.5,0.25}>";
  }
}

struct Ty { string before, after; bool dyn = false; };

// Any type; `after` is the type an argument of this type has to get.
Ty Type(Ctx& c) {
  int k = c.weighted({20, 2, 2, 1, 1, 1, 1});
  Ty t;
  switch (k) {
    case 1: t.before = t.after = "tensor<*x" + Element(c) + ">"; return t;
    case 2: t.before = t.after = "memref<?x" + S(c.range(1, 4)) + "xf32>"; return t;
    case 3: t.before = t.after = c.pick({"f32", "index", "none", "i64"}); return t;
    case 4: t.before = t.after = "tuple<tensor<?x2xf32>, i32>"; return t;
    case 5: t.before = t.after = "vector<" + S(c.range(1, 4)) + "xf32>"; return t;
    case 6: t.before = t.after = "!verif.thing<tensor<?x2xf32>>"; return t;
    default: break;
  }
  int rank = (int)c.weighted({2, 4, 6, 3, 8, 3, 1});
  if (rank == 6) rank = (int)c.range(6, 9);
  string rest;
  bool first = false;
  string b, a;
  for (int i = 0; i < rank; ++i) {
    bool dyn = i == 0 ? c.coin(55) : c.coin(25);
    string d = dyn ? "?" : S(c.weighted({4, 4, 1}) == 2 ? 0 : c.range(1, 9));
    if (i == 0 && dyn) first = true;
    b += d + "x";
    a += (i == 0 && dyn ? string("1") : d) + "x";
  }
  string e = Element(c);
  string enc = c.coin(8) ? string(c.pick({", \"enc\"", ", {k = 1 : i32}"})) : "";
  t.before = "tensor<" + b + e + enc + ">";
  t.after = "tensor<" + a + e + enc + ">";
  t.dyn = first;
  return t;
}

string Attrs(Ctx& c) {
  switch (c.weighted({4, 2, 2, 2, 1})) {
    case 0: return "";
    case 1: return "tf_saved_model.index_path = [\"in" + S(c.range(0, 9)) + "\"]";
    case 2: return "verif.type = tensor<?x6xf32>";
    case 3: return "tf_saved_model.bound_input = @x, verif.n = " + S(c.range(0, 99)) + " : i64";
    default: return "verif.a = [tensor<?xi8>, {b = tensor<?x?xf32>}], verif.u";
  }
}

struct Value { string name; Ty t; };
struct Gen {
  Ctx& c;
  int next = 0;
  int depth = 0, funcs = 0, changed = 0, ops = 0;
  string before, after;
  void Both(const string& s) { before += s; after += s; }
  string Loc() { return c.coin(60) ? "" : " loc(\"l" + S(c.range(0, 99)) + "\":" + S(c.range(1, 9)) + ":" + S(c.range(1, 9)) + ")"; }
  Ty Keep(const Ty& t) { Ty r = t; r.after = t.before; r.dyn = false; return r; }
  void Uses(const vector<Value>& in, bool names) {
    if (names) {
      Both("(");
      for (size_t i = 0; i < in.size(); ++i) Both((i ? ", " : "") + in[i].name);
      Both(")");
    } else {
      Both("(");
      for (size_t i = 0; i < in.size(); ++i) { before += (i ? ", " : "") + in[i].t.before; after += (i ? ", " : "") + in[i].t.after; }
      Both(")");
    }
  }
  vector<Value> Some(const vector<Value>& env, int max) {
    vector<Value> r;
    if (env.empty()) return r;
    int n = (int)c.range(0, max);
    for (int i = 0; i < n; ++i) r.push_back(env[c.draw(env.size())]);
    return r;
  }
  void Body(vector<Value> env, const string& ind, bool top) {
    int n = (int)c.range(0, top ? 5 : 2);
    for (int i = 0; i < n; ++i) {
      ++ops;
      vector<Value> in = Some(env, 3);
      vector<Value> out;
      int nr = (int)c.weighted({2, 6, 1});
      for (int k = 0; k < nr; ++k) out.push_back({"%v" + S(next++), Keep(Type(c))});
      Both(ind);
      for (size_t k = 0; k < out.size(); ++k) Both((k ? ", " : "") + out[k].name);
      if (!out.empty()) Both(" = ");
      bool region = depth < 2 && c.coin(15);
      Both("\"" + string(c.pick({"tf.AddV2", "verif.op", "tf.Identity", "tfl.conv_2d"})) + "\"");
      Uses(in, true);
      if (region) {
        ++depth;
        // a block of its own, with arguments that must stay as they are
        Value a{"%v" + S(next++), Keep(Type(c))};
        Both(" ({\n" + ind + "^bb0(" + a.name + ": " + a.t.before + "):\n");
        vector<Value> e = env;
        e.push_back(a);
        Body(e, ind + "  ", false);
        Both(ind + "  \"verif.yield\"() : () -> ()\n" + ind + "})");
        --depth;
      }
      if (c.coin(30)) { string at = Attrs(c); if (!at.empty()) Both(" {" + at + "}"); }
      Both(" : ");
      Uses(in, false);
      Both(" -> (");
      for (size_t k = 0; k < out.size(); ++k) Both((k ? ", " : "") + out[k].t.before);
      Both(")" + Loc() + "\n");
      for (auto& o : out) env.push_back(o);
    }
    if (top) {
      if (c.coin(12)) {  // a second block
        Value a{"%v" + S(next++), Keep(Type(c))};
        Both(ind + "\"verif.br\"()[^b" + S(funcs) + "] : () -> ()\n  ^b" + S(funcs) + "(" + a.name + ": " + a.t.before + "):\n");
        env.push_back(a);
      }
      vector<Value> in = Some(env, 3);
      Both(ind + "\"func.return\"");
      Uses(in, true);
      Both(" : ");
      Uses(in, false);
      Both(" -> ()\n");
    }
  }
  void Func() {
    ++funcs;
    int n = (int)(c.coin(4) ? c.range(5, 12) : c.range(0, 4));
    vector<Value> args;
    bool any = false;
    for (int i = 0; i < n; ++i) {
      Ty t = (!args.empty() && c.coin(15)) ? args[c.draw(args.size())].t : Type(c);
      args.push_back({"%v" + S(next++), t});
      if (t.dyn) ++changed;
    }
    vector<Ty> res;
    int nr = (int)c.range(0, 3);
    for (int i = 0; i < nr; ++i) res.push_back(!args.empty() && c.coin(50) ? args[c.draw(args.size())].t : Type(c));
    bool declared = c.coin(8);
    Both("  \"func.func\"() <{");
    if (c.coin(50)) {
      Both("arg_attrs = [");
      for (int i = 0; i < n; ++i) Both((i ? ", {" : "{") + Attrs(c) + "}");
      Both("], ");
    }
    Both("function_type = (");
    for (int i = 0; i < n; ++i) { before += (i ? ", " : "") + args[i].t.before; after += (i ? ", " : "") + args[i].t.after; }
    Both(") -> (");
    for (int i = 0; i < nr; ++i) Both((i ? ", " : "") + res[i].before);
    Both(")");
    if (c.coin(40)) {
      Both(", res_attrs = [");
      for (int i = 0; i < nr; ++i) Both((i ? ", {" : "{") + Attrs(c) + "}");
      Both("]");
    }
    Both(", sym_name = \"f" + S(funcs) + "\"");
    if (declared || c.coin(30)) Both(", sym_visibility = \"private\"");
    Both("}> ({\n");
    if (!declared) {
      if (n) {
        Both("  ^bb0(");
        for (int i = 0; i < n; ++i) {
          Both((i ? ", " : "") + args[i].name + ": ");
          before += args[i].t.before;
          after += args[i].t.after;
          Both(Loc());
        }
        Both("):\n");
      } else {
        Both("  ^bb0:\n");
      }
      Body(args, "    ", true);
    }
    Both("  })");
    if (c.coin(30)) { string at = Attrs(c); if (!at.empty()) Both(" {" + at + "}"); }
    Both(" : () -> ()" + Loc() + "\n");
  }
};

// A new context now and then: it keeps every type and attribute it ever made.
std::unique_ptr<mlir::MLIRContext> context;
mlir::MLIRContext* Context() { return context.get(); }
void Fresh() {
  static int cases = 0;
  if (context && ++cases % 500) return;
  context = std::make_unique<mlir::MLIRContext>(mlir::MLIRContext::Threading::DISABLED);
  context->loadDialect<mlir::func::FuncDialect, mlir::arith::ArithDialect, mlir::quant::QuantizationDialect>();
  context->allowUnregisteredDialects();
}

string Print(mlir::Operation* op) {
  string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags f;
  f.printGenericOpForm().enableDebugInfo(true, false);
  op->print(os, f);
  return s;
}

mlir::OwningOpRef<mlir::ModuleOp> Parse(const string& text) {
  mlir::ParserConfig cfg(Context(), /*verifyAfterParse=*/false);
  return mlir::parseSourceString<mlir::ModuleOp>(text, cfg, "m");
}

}  // namespace

PBT_PROPERTY(M01) {
  Fresh();
  Gen g{c};
  int n = (int)c.range(1, 3);
  g.Both("module {\n");
  for (int i = 0; i < n; ++i) g.Func();
  if (c.coin(10)) g.Both("  \"verif.top\"() {verif.t = tensor<?xf32>} : () -> tensor<?x2xf32>\n");
  g.Both("}\n");
  c.text(g.before);
  if (g.changed) { c.nontrivial(); c.label("changes"); }
  if (g.changed > 1) c.label("several arguments change");
  if (n > 1) c.label("several functions");
  if (g.ops) c.label("with operations");
  auto before = Parse(g.before), after = Parse(g.after);
  if (!before || !after) { fprintf(stderr, "cannot parse\n%s\n%s\n", g.before.c_str(), g.after.c_str()); exit(3); }
  // The locations name a place in the text: give the operations of both the same ones.
  {
    vector<mlir::Operation*> a, b;
    before->walk<mlir::WalkOrder::PreOrder>([&](mlir::Operation* o) { a.push_back(o); });
    after->walk<mlir::WalkOrder::PreOrder>([&](mlir::Operation* o) { b.push_back(o); });
    if (a.size() != b.size()) exit(3);
    for (size_t i = 0; i < a.size(); ++i) {
      b[i]->setLoc(a[i]->getLoc());
      for (unsigned r = 0; r < a[i]->getNumRegions(); ++r)
        for (auto [x, y] : llvm::zip(a[i]->getRegion(r), b[i]->getRegion(r)))
          for (auto [p, q] : llvm::zip(x.getArguments(), y.getArguments())) q.setLoc(p.getLoc());
    }
  }
  string want = Print(*after);
  mlir::PassManager pm(Context(), mlir::ModuleOp::getOperationName(), mlir::PassManager::Nesting::Implicit);
  pm.enableVerifier(false);
  pm.addPass(mlir::CreateSetBatchSizePass());
  for (int run = 0; run < 2; ++run) {
    if (mlir::failed(pm.run(*before))) c.fail("the pass fails (run %d)", run + 1);
    string got = Print(*before);
    if (got != want) {
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
      size_t from = got.rfind('\n', k);
      from = from == string::npos ? 0 : from + 1;
      c.fail("run %d: got\n  %s\nexpected\n  %s", run + 1, got.substr(from, got.find('\n', k) - from).substr(0, 1500).c_str(),
             want.substr(from, want.find('\n', k) - from).substr(0, 1500).c_str());
    }
  }
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
