// Shared by the MLIR harnesses: building modules as text, running a pass, and an
// interpreter that gives every operation its meaning on concrete tensors.
#ifndef VERIF_MLIRX_H_
#define VERIF_MLIRX_H_
#include <cmath>
#include <functional>
#include <map>
#include <memory>

#include "common/pbt.h"
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "llvm/Support/raw_ostream.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/DialectResourceBlobManager.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

namespace mx {
using pbt::Ctx;
using std::string;
using std::vector;
using Shape = vector<int64_t>;

inline string S(int64_t v) { return std::to_string(v); }
inline int64_t Count(const Shape& s) { int64_t n = 1; for (int64_t d : s) n *= d; return n; }
inline int64_t Words(int64_t c) { return (c + 31) / 32; }
inline string Dims(const Shape& s) { string r; for (int64_t d : s) r += (d < 0 ? string("?") : S(d)) + "x"; return r; }
inline string Ty(const Shape& s, const string& e = "f32") { return "tensor<" + Dims(s) + e + ">"; }

// ---- building
inline string Num(float v) {
  if (std::isnan(v) || std::isinf(v)) { uint32_t u; memcpy(&u, &v, 4); char b[16]; snprintf(b, sizeof b, "0x%08X", u); return b; }
  char b[40];
  snprintf(b, sizeof b, "%.9g", v);
  string s = b;
  if (s.find_first_of(".e") == string::npos) s += ".0";
  if (s.find('e') != string::npos && s.find('.') == string::npos) s.insert(s.find('e'), ".0");
  return s;
}
template <typename T> string Nest(const vector<T>& v, const Shape& s, size_t d, size_t& at, string (*f)(T)) {
  if (d == s.size()) return f(v[at++]);
  string r = "[";
  for (int64_t i = 0; i < s[d]; ++i) r += (i ? ", " : "") + Nest(v, s, d + 1, at, f);
  return r + "]";
}
template <typename T> string Dense(const Shape& s, const vector<T>& v, string (*f)(T), const string& elem) {
  string body;
  if (Count(s) != (int64_t)v.size()) { fprintf(stderr, "constant of %zu elements\n", v.size()); exit(3); }
  bool same = true;
  for (auto& x : v) if (memcmp(&x, &v[0], sizeof x)) same = false;
  if (v.empty()) body = "";
  else if (same) body = f(v[0]);
  else if (v.size() <= 64) { size_t at = 0; body = Nest(v, s, 0, at, f); }
  else {
    static const char* hex = "0123456789ABCDEF";
    body = "\"0x";
    for (size_t i = 0; i < v.size() * sizeof(T); ++i) { unsigned char b = ((const unsigned char*)v.data())[i]; body += hex[b >> 4]; body += hex[b & 15]; }
    body += "\"";
  }
  return "dense<" + body + "> : " + Ty(s, elem);
}
inline string DenseF(const Shape& s, const vector<float>& v) { return Dense<float>(s, v, +[](float x) { return Num(x); }, "f32"); }
inline string DenseI(const Shape& s, const vector<int32_t>& v) { return Dense<int32_t>(s, v, +[](int32_t x) { return S(x); }, "i32"); }
inline string DenseL(const Shape& s, const vector<int64_t>& v) { return Dense<int64_t>(s, v, +[](int64_t x) { return S(x); }, "i64"); }

// A value; `dyn`: the dimensions (a mask) unknown in its type.
struct V {
  string name;
  Shape s;
  string e = "f32";
  int dyn = 0;
  string type() const {
    if (e == "none") return "none";
    Shape t = s;
    for (size_t d = 0; d < t.size(); ++d) if (dyn >> d & 1) t[d] = -1;
    return Ty(t, e);
  }
};

struct Fn {
  string body, tail;  // tail: after the module
  int n = 0;
  vector<V> args, rets;
  V Arg(const Shape& s, const string& e = "f32", int dyn = 0) { V v{"%a" + S(args.size()), s, e, dyn}; args.push_back(v); return v; }
  vector<V> Ops(const string& op, const vector<V>& in, const string& attrs, const vector<V>& types) {
    vector<V> out = types;
    for (auto& o : out)
      for (auto& i : in) if (i.s.size() == o.s.size()) o.dyn |= i.dyn;
    body += "    ";
    for (size_t i = 0; i < out.size(); ++i) { out[i].name = "%v" + S(n++); body += (i ? ", " : "") + out[i].name; }
    if (!out.empty()) body += " = ";
    body += "\"" + op + "\"(";
    for (size_t i = 0; i < in.size(); ++i) body += (i ? ", " : "") + in[i].name;
    body += ")" + (attrs.empty() ? "" : " {" + attrs + "}") + " : (";
    for (size_t i = 0; i < in.size(); ++i) body += (i ? ", " : "") + in[i].type();
    body += ") -> (";
    for (size_t i = 0; i < out.size(); ++i) body += (i ? ", " : "") + out[i].type();
    body += ")\n";
    return out;
  }
  V Op(const string& op, const vector<V>& in, const string& attrs, const Shape& s, const string& e = "f32") { return Ops(op, in, attrs, {V{"", s, e}})[0]; }
  V Const(const string& dense, const Shape& s, const string& e) { return Op("arith.constant", {}, "value = " + dense, s, e); }
  V CF(const Shape& s, const vector<float>& v) { return Const(DenseF(s, v), s, "f32"); }
  V CI(const Shape& s, const vector<int32_t>& v) { return Const(DenseI(s, v), s, "i32"); }
  V None() { return Op("tfl.no_value", {}, "value", {}, "none"); }
  void Ret(const V& v) { rets.push_back(v); }
  string Text(const string& name = "main") const {
    string a, t, r, rt;
    for (auto& v : args) { a += (a.empty() ? "" : ", ") + v.name + ": " + v.type(); t += (t.empty() ? "" : ", ") + v.type(); }
    for (auto& v : rets) { r += (r.empty() ? "" : ", ") + v.name; rt += (rt.empty() ? "" : ", ") + v.type(); }
    return "  \"func.func\"() <{function_type = (" + t + ") -> (" + rt + "), sym_name = \"" + name + "\"}> ({\n  ^bb0(" + a + "):\n" + body +
           "    \"func.return\"(" + r + ") : (" + rt + ") -> ()\n  }) : () -> ()\n";
  }
  string Module() const { return "module {\n" + Text() + "}\n" + (tail.empty() ? "" : "{-# dialect_resources: { builtin: {" + tail + "} } #-}\n"); }
  // A float constant held as a resource.
  V Resource(const Shape& s, const vector<float>& v) {
    string name = "r" + S(n) + "x", hex = "0x04000000";
    char b[3];
    for (size_t i = 0; i < v.size() * 4; ++i) { snprintf(b, sizeof b, "%02X", ((const unsigned char*)v.data())[i]); hex += b; }
    tail += (tail.empty() ? "" : ", ") + name + ": \"" + hex + "\"";
    return Const("dense_resource<" + name + "> : " + Ty(s), s, "f32");
  }
};

// ---- context
struct Env {
  std::unique_ptr<mlir::MLIRContext> ctx;
  string diag;
  int cases = 0;
  std::unique_ptr<mlir::ScopedDiagnosticHandler> handler;
  mlir::MLIRContext* Get() { return ctx.get(); }
  void Fresh(int every = 300) {  // a context keeps every type and attribute it ever made
    diag.clear();
    if (ctx && ++cases % every) return;
    handler.reset();
    ctx = std::make_unique<mlir::MLIRContext>(mlir::MLIRContext::Threading::DISABLED);
    ctx->loadDialect<mlir::func::FuncDialect, mlir::arith::ArithDialect, mlir::quant::QuantizationDialect, mlir::TF::TensorFlowDialect,
                     mlir::TFL::TensorFlowLiteDialect, mlir::lq::LarqDialect>();
    ctx->allowUnregisteredDialects();
    handler = std::make_unique<mlir::ScopedDiagnosticHandler>(ctx.get(), [this](mlir::Diagnostic& d) {
      diag += d.str() + "\n";
      return mlir::success();
    });
  }
  mlir::OwningOpRef<mlir::ModuleOp> Parse(const string& text) {
    mlir::ParserConfig cfg(Get());
    auto m = mlir::parseSourceString<mlir::ModuleOp>(text, cfg, "m");
    if (!m) { fprintf(stderr, "cannot parse: %s\n%s\n", diag.c_str(), text.c_str()); exit(3); }
    return m;
  }
};
inline Env& E() { static Env e; return e; }

inline string Print(mlir::Operation* op) {
  string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags f;
  f.printGenericOpForm().elideLargeElementsAttrs(64);
  op->print(os, f);
  return s;
}
inline string PrintFull(mlir::Operation* op) {
  string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags f;
  f.printGenericOpForm().enableDebugInfo(true, false);
  op->print(os, f);
  return s;
}
inline string Brief(mlir::Type t) { string s; llvm::raw_string_ostream os(s); t.print(os); return s; }
inline bool RunPass(mlir::ModuleOp m, std::unique_ptr<mlir::OperationPass<mlir::func::FuncOp>> p) {
  mlir::PassManager pm(E().Get(), mlir::ModuleOp::getOperationName(), mlir::PassManager::Nesting::Explicit);
  pm.enableVerifier(false);
  pm.addNestedPass<mlir::func::FuncOp>(std::move(p));
  return mlir::succeeded(pm.run(m));
}
inline int CountOps(mlir::Operation* m, llvm::StringRef name) {
  int n = 0;
  m->walk([&](mlir::Operation* o) { n += o->getName().getStringRef() == name; });
  return n;
}
inline mlir::func::FuncOp Main(mlir::ModuleOp m) { return *m.getOps<mlir::func::FuncOp>().begin(); }

// ---- interpreter
struct T {
  string k = "f32";  // f32 f64 f16 bf16 i1 i8 i32 i64 q8 none
  Shape s;
  vector<double> v, m;  // values; magnitude of what they were computed from (float kinds)
  double scale = 1;
  int64_t zp = 0;
  bool isf() const { return k == "f32" || k == "f64" || k == "f16" || k == "bf16"; }
};
struct Problem { string msg; };

inline double Act(llvm::StringRef a, double v) {
  if (a == "RELU") return std::max(v, 0.0);
  if (a == "RELU6") return std::min(std::max(v, 0.0), 6.0);
  if (a == "RELU_N1_TO_1") return std::min(std::max(v, -1.0), 1.0);
  if (a == "NONE") return v;
  throw Problem{"activation " + a.str()};
}
struct Geo { int64_t out, before; };
inline Geo Geometry(bool same, int64_t in, int64_t k, int64_t stride, int64_t dil) {
  int64_t ek = (k - 1) * dil + 1;
  if (!same) return {in >= ek ? (in - ek) / stride + 1 : 0, 0};
  int64_t out = (in + stride - 1) / stride, total = std::max<int64_t>((out - 1) * stride + ek - in, 0);
  return {out, total / 2};
}

class Interp {
 public:
  // exact: every constant and input is such that float arithmetic on them is exact.
  explicit Interp(bool exact) : exact_(exact) {}
  bool ties = false;          // something half way was rounded
  bool uncertain = false;     // a sign decision was too close to call (never when exact)
  bool check_types = true;
  std::function<vector<T>(mlir::Operation*, const vector<const T*>&)> custom;  // runs custom operators
  bool strict_runtime = false;  // binary convolutions have to be what the runtime accepts

  static T TypeOf(mlir::Type t) {
    T r;
    if (mlir::isa<mlir::NoneType>(t)) { r.k = "none"; return r; }
    auto st = mlir::dyn_cast<mlir::ShapedType>(t);
    if (!st || !st.hasRank()) throw Problem{"type " + Brief(t)};
    r.s.assign(st.getShape().begin(), st.getShape().end());
    auto e = st.getElementType();
    if (e.isF32()) r.k = "f32";
    else if (e.isF64()) r.k = "f64";
    else if (e.isF16()) r.k = "f16";
    else if (e.isBF16()) r.k = "bf16";
    else if (e.isInteger(1)) r.k = "i1";
    else if (e.isInteger(8)) r.k = "i8";
    else if (e.isInteger(16)) r.k = "i16";
    else if (e.isInteger(32)) r.k = "i32";
    else if (e.isInteger(64)) r.k = "i64";
    else if (auto q = mlir::dyn_cast<mlir::quant::UniformQuantizedType>(e)) {
      r.k = "q8";
      r.scale = q.getScale();
      r.zp = q.getZeroPoint();
      if (q.getStorageTypeIntegralWidth() != 8 || !q.isSigned()) r.k = (q.isSigned() ? "q" : "qu") + S(q.getStorageTypeIntegralWidth());
    } else throw Problem{"type " + Brief(t)};
    return r;
  }
  vector<T> Run(mlir::func::FuncOp f, const vector<T>& in) {
    env_.clear();
    for (auto [a, v] : llvm::zip(f.getArguments(), in)) env_[a.getAsOpaquePointer()] = v;
    for (mlir::Operation& o : f.getBody().front()) {
      if (mlir::isa<mlir::func::ReturnOp>(o)) {
        vector<T> r;
        size_t i = 0;
        for (auto v : o.getOperands()) {
          if (check_types && v.getType() != f.getFunctionType().getResult(i)) throw Problem{"result " + S(i) + " has type " + Brief(v.getType()) + " instead of " + Brief(f.getFunctionType().getResult(i))};
          r.push_back(Get(v));
          ++i;
        }
        return r;
      }
      vector<T> r;
      try { r = Op(&o); } catch (Problem& p) { throw Problem{p.msg + " in " + Print(&o).substr(0, 600)}; }
      if (r.size() != o.getNumResults()) throw Problem{"harness: results of " + Print(&o)};
      for (unsigned i = 0; i < r.size(); ++i) {
        T want = TypeOf(o.getResult(i).getType());
        bool ok = want.k == r[i].k && want.s.size() == r[i].s.size();
        for (size_t d = 0; ok && d < want.s.size(); ++d) ok = want.s[d] < 0 || want.s[d] == r[i].s[d];
        if (check_types && !ok)
          throw Problem{"the type of " + Print(&o).substr(0, 600) + " does not fit the value computed, " + r[i].k + "[" + Dims(r[i].s) + "]"};
        r[i].scale = want.scale;
        r[i].zp = want.zp;
        if (r[i].isf()) Fill(r[i]);
        env_[o.getResult(i).getAsOpaquePointer()] = std::move(r[i]);
      }
    }
    throw Problem{"no return"};
  }
  static T FromAttr(mlir::Attribute a) {
    if (auto f = mlir::dyn_cast<mlir::DenseF32ResourceElementsAttr>(a)) {
      T r = TypeOf(f.getType());
      auto v = f.tryGetAsArrayRef();
      if (!v) throw Problem{"resource"};
      r.v.assign(v->begin(), v->end());
      Fill(r);
      return r;
    }
    auto d = mlir::dyn_cast<mlir::DenseElementsAttr>(a);
    if (!d) throw Problem{"constant"};
    T r = TypeOf(d.getType());
    int64_t n = Count(r.s);
    r.v.reserve(n);
    if (r.isf()) for (llvm::APFloat x : d.getValues<llvm::APFloat>()) { bool l; x.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &l); r.v.push_back(x.convertToDouble()); }
    else if (r.k[0] == 'q') for (int8_t x : d.getRawData()) r.v.push_back(x);
    else for (llvm::APInt x : d.getValues<llvm::APInt>()) r.v.push_back(r.k == "i1" ? (double)x.getZExtValue() : (double)x.getSExtValue());
    if (r.k[0] == 'q' && d.isSplat() && r.v.size() == 1) r.v.resize(n, r.v[0]);
    Fill(r);
    return r;
  }
  static void Fill(T& t) {
    if (t.isf() && t.m.size() != t.v.size()) { t.m.resize(t.v.size()); for (size_t i = 0; i < t.v.size(); ++i) t.m[i] = std::fabs(t.v[i]); }
  }
  // Sign, with a check that it does not hang on rounding.
  bool Negative(const T& t, size_t i) {
    if (t.k == "i1") return t.v[i] == 0;
    if (t.k[0] == 'q') return t.v[i] < t.zp;
    if (!exact_ && t.isf() && t.m[i] != 0 && std::fabs(t.v[i]) <= 3e-5 * t.m[i]) uncertain = true;
    return t.v[i] < 0;
  }
  const T& Value(mlir::Value v) { return Get(v); }

 private:
  bool exact_;
  std::map<const void*, T> env_;
  const T& Get(mlir::Value v) {
    auto it = env_.find(v.getAsOpaquePointer());
    if (it == env_.end()) throw Problem{"use of a value that is not defined before"};
    return it->second;
  }
  static int64_t I(mlir::Operation* o, const char* n) {
    auto a = o->getAttrOfType<mlir::IntegerAttr>(n);
    if (!a) throw Problem{string("attribute ") + n};
    return a.getInt();
  }
  static llvm::StringRef Str(mlir::Operation* o, const char* n) {
    auto a = o->getAttrOfType<mlir::StringAttr>(n);
    if (!a) throw Problem{string("attribute ") + n};
    return a.getValue();
  }
  static vector<int64_t> List(mlir::Operation* o, const char* n, vector<int64_t> def = {}) {
    auto a = o->getAttrOfType<mlir::ArrayAttr>(n);
    if (!a) return def;
    vector<int64_t> r;
    for (auto x : a) r.push_back(mlir::cast<mlir::IntegerAttr>(x).getInt());
    return r;
  }
  static T Like(const string& k, const Shape& s) {
    T r;
    r.k = k;
    r.s = s;
    r.v.assign(Count(s), 0);
    if (r.isf()) r.m.assign(r.v.size(), 0);
    return r;
  }
  static Shape Broadcast(const Shape& a, const Shape& b) {
    Shape r;
    size_t n = std::max(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) {
      int64_t p = i + a.size() < n ? 1 : a[i + a.size() - n], q = i + b.size() < n ? 1 : b[i + b.size() - n];
      if (p != q && p != 1 && q != 1) throw Problem{"shapes " + Dims(a) + " and " + Dims(b) + " do not broadcast"};
      r.push_back(p == 1 ? q : p);
    }
    return r;
  }
  static size_t At(const Shape& s, const Shape& out, int64_t i) {  // index in a tensor of shape s, broadcast to out
    int64_t at = 0, mul = 1;
    for (int d = (int)out.size() - 1; d >= 0; --d) {
      int64_t k = i % out[d];
      i /= out[d];
      int e = d - (int)(out.size() - s.size());
      if (e >= 0) { if (s[e] != 1) at += k * mul; mul *= s[e]; }
    }
    return at;
  }
  template <typename F> static T Zip(const T& a, const T& b, const string& k, F f) {
    if (a.k != b.k) throw Problem{"operands of different types"};
    T r = Like(k, Broadcast(a.s, b.s));
    for (size_t i = 0; i < r.v.size(); ++i) {
      size_t x = At(a.s, r.s, i), y = At(b.s, r.s, i);
      double m = 0;
      r.v[i] = f(a.v[x], b.v[y], a.isf() ? a.m[x] : 0, b.isf() ? b.m[y] : 0, &m);
      if (r.isf()) r.m[i] = m;
    }
    return r;
  }
  T Arith(const string& op, const T& a, const T& b) {
    if (a.k != "f32" && a.k[0] != 'i') throw Problem{"arithmetic on " + a.k};
    bool i = a.k[0] == 'i';
    auto w = [=](double v) { return i && b.k == "i32" ? (double)(int32_t)(int64_t)v : v; };
    if (op == "add") return Zip(a, b, a.k, [=](double x, double y, double p, double q, double* m) { *m = p + q; return w(x + y); });
    if (op == "sub") return Zip(a, b, a.k, [=](double x, double y, double p, double q, double* m) { *m = p + q; return w(x - y); });
    if (op == "mul") return Zip(a, b, a.k, [=](double x, double y, double p, double q, double* m) { *m = p * q; return w(x * y); });
    return Zip(a, b, a.k, [=](double x, double y, double p, double q, double* m) { *m = p / std::fabs(y); return i ? std::trunc(x / y) : x / y; });
  }
  T Compare(const string& op, const T& a, const T& b) {
    bool* u = &uncertain;
    bool exact = exact_, isf = a.isf();
    return Zip(a, b, "i1", [=](double x, double y, double p, double q, double*) -> double {
      if (isf && !exact && std::fabs(x - y) <= 3e-5 * (p + q) && p + q != 0 && !(x == y && p == std::fabs(x) && q == std::fabs(y))) *u = true;
      return op == "ge" ? x >= y : op == "le" ? x <= y : op == "gt" ? x > y : x < y;
    });
  }
  template <typename F> static T Map(const T& a, F f) {
    T r = a;
    for (auto& x : r.v) x = f(x);
    return r;
  }
  static T WithAct(T t, llvm::StringRef act) {
    for (auto& x : t.v) x = Act(act, x);
    return t;
  }
  // out[n,y,x,o] = sum over the window; weight(o, fy, fx, c), channel(o, c) gives the input channel
  template <typename W, typename C> static T Conv(const T& in, int64_t fh, int64_t fw, int64_t oc, int64_t cpg, Geo gy, Geo gx, int64_t sh, int64_t sw, int64_t dh, int64_t dw, double outside, W weight, C channel) {
    int64_t H = in.s[1], Wd = in.s[2], Cn = in.s[3];
    T r = Like("f32", {in.s[0], gy.out, gx.out, oc});
    size_t at = 0;
    for (int64_t b = 0; b < in.s[0]; ++b)
      for (int64_t y = 0; y < gy.out; ++y)
        for (int64_t x = 0; x < gx.out; ++x)
          for (int64_t o = 0; o < oc; ++o, ++at) {
            double sum = 0, mag = 0;
            for (int64_t i = 0; i < fh; ++i)
              for (int64_t j = 0; j < fw; ++j) {
                int64_t iy = y * sh - gy.before + i * dh, ix = x * sw - gx.before + j * dw;
                bool inside = iy >= 0 && iy < H && ix >= 0 && ix < Wd;
                if (!inside && outside == 0) continue;
                for (int64_t c = 0; c < cpg; ++c) {
                  size_t k = inside ? ((b * H + iy) * Wd + ix) * Cn + channel(o, c) : 0;
                  double a = inside ? in.v[k] : outside, w = weight(o, i, j, c);
                  sum += a * w;
                  mag += (inside && in.isf() ? in.m[k] : std::fabs(a)) * std::fabs(w);
                }
              }
            r.v[at] = sum;
            r.m[at] = mag;
          }
    return r;
  }
  static T Transpose(const T& a, const vector<int64_t>& p) {
    if (p.size() != a.s.size()) throw Problem{"permutation"};
    T r = a;
    size_t n = p.size();
    for (size_t i = 0; i < n; ++i) r.s[i] = a.s[p[i]];
    vector<int64_t> stride(n, 1);
    for (int i = (int)n - 2; i >= 0; --i) stride[i] = stride[i + 1] * a.s[i + 1];
    for (size_t i = 0; i < r.v.size(); ++i) {
      int64_t rest = i, at = 0;
      for (int d = (int)n - 1; d >= 0; --d) { at += (rest % r.s[d]) * stride[p[d]]; rest /= r.s[d]; }
      r.v[i] = a.v[at];
      if (r.isf()) r.m[i] = a.m[at];
    }
    return r;
  }
  static T Pad(const T& a, const T& p, double value) {
    if (p.s != Shape{(int64_t)a.s.size(), 2}) throw Problem{"paddings"};
    Shape s = a.s;
    for (size_t d = 0; d < s.size(); ++d) s[d] += (int64_t)p.v[2 * d] + (int64_t)p.v[2 * d + 1];
    T r = Like(a.k, s);
    for (size_t i = 0; i < r.v.size(); ++i) {
      int64_t rest = i, at = 0, mul = 1;
      bool in = true;
      for (int d = (int)s.size() - 1; d >= 0; --d) {
        int64_t k = rest % s[d] - (int64_t)p.v[2 * d];
        rest /= s[d];
        in = in && k >= 0 && k < a.s[d];
        at += k * mul;
        mul *= a.s[d];
      }
      r.v[i] = in ? a.v[at] : value;
      if (r.isf()) r.m[i] = in ? a.m[at] : std::fabs(value);
    }
    return r;
  }
  T Pool(const T& in, bool max, bool same, int64_t fh, int64_t fw, int64_t sh, int64_t sw) {
    Geo gy = Geometry(same, in.s[1], fh, sh, 1), gx = Geometry(same, in.s[2], fw, sw, 1);
    T r = Like(in.k, {in.s[0], gy.out, gx.out, in.s[3]});
    size_t at = 0;
    for (int64_t b = 0; b < in.s[0]; ++b)
      for (int64_t y = 0; y < gy.out; ++y)
        for (int64_t x = 0; x < gx.out; ++x)
          for (int64_t c = 0; c < in.s[3]; ++c, ++at) {
            double best = -1e300, mag = 0, sum = 0;
            int n = 0;
            for (int64_t i = 0; i < fh; ++i)
              for (int64_t j = 0; j < fw; ++j) {
                int64_t iy = y * sh - gy.before + i, ix = x * sw - gx.before + j;
                if (iy < 0 || iy >= in.s[1] || ix < 0 || ix >= in.s[2]) continue;
                size_t k = ((b * in.s[1] + iy) * in.s[2] + ix) * in.s[3] + c;
                best = std::max(best, in.v[k]);
                if (in.isf()) mag = std::max(mag, in.m[k]);
                sum += in.v[k];
                ++n;
              }
            r.v[at] = max ? best : sum / n;
            if (r.isf()) r.m[at] = mag;
          }
    return r;
  }
  static double Requant(double x, const T& ty, bool* ties = nullptr) { if (ties && std::fabs(std::fmod(x / ty.scale, 1)) == 0.5) *ties = true; double top = ty.k == "q16" ? 32767 : 127; return std::min(top, std::max(-top - 1, std::round(x / ty.scale) + (double)ty.zp)); }
  static bool Bit(const T& p, int64_t row, int64_t c) { return (uint32_t)(int32_t)p.v[row * p.s.back() + c / 32] >> (c % 32) & 1; }

  T Bconv(mlir::Operation* o) {
    const T &in = Get(o->getOperand(0)), &f = Get(o->getOperand(1)), &mul = Get(o->getOperand(2)), &bias = Get(o->getOperand(3)), &th = Get(o->getOperand(4));
    if (in.k != "i32" || in.s.size() != 4 || f.s.size() != 4) throw Problem{"binary convolution of " + in.k};
    int64_t C = I(o, "channels_in"), oc = f.s[0], fh = f.s[1], fw = f.s[2], cpg;
    bool packed = f.k == "i32";
    if (in.s[3] != Words(C)) throw Problem{"channels_in does not fit the input"};
    if (packed) cpg = f.s[3] == Words(C) ? C : f.s[3] * 32;
    else cpg = f.s[3];
    if (cpg <= 0 || C % cpg) throw Problem{"filter does not fit the input"};
    int64_t groups = C / cpg;
    if (groups > 1 && (cpg % 32 || oc % groups)) throw Problem{"groups"};
    int64_t sh = I(o, "stride_height"), sw = I(o, "stride_width"), dh = I(o, "dilation_height_factor"), dw = I(o, "dilation_width_factor"), pv = I(o, "pad_values");
    bool same = Str(o, "padding") == "SAME";
    auto act = Str(o, "fused_activation_function");
    if (pv != 0 && pv != 1) throw Problem{"pad value"};
    T x = Like("f32", {in.s[0], in.s[1], in.s[2], C});
    for (int64_t r = 0, n = in.s[0] * in.s[1] * in.s[2]; r < n; ++r)
      for (int64_t c = 0; c < C; ++c) { x.v[r * C + c] = Bit(in, r, c) ? -1 : 1; x.m[r * C + c] = 1; }
    T out = Conv(x, fh, fw, oc, cpg, Geometry(same, in.s[1], fh, sh, dh), Geometry(same, in.s[2], fw, sw, dw), sh, sw, dh, dw, same ? pv : 0,
                 [&](int64_t oo, int64_t i, int64_t j, int64_t c) -> double {
                   int64_t row = (oo * fh + i) * fw + j;
                   if (packed) return Bit(f, row, c) ? -1 : 1;
                   return f.v[row * cpg + c] < 0 ? -1 : 1;
                 },
                 [&](int64_t oo, int64_t c) { return oo / (oc / groups) * cpg + c; });
    T ty = TypeOf(o->getResult(0).getType());
    bool zero = same && pv == 0;
    if (strict_runtime) {
      if (zero && (ty.k != "f32" || act != "NONE")) throw Problem{"zero-padding with this output or activation is refused by the runtime:"};
      if (ty.k != "i32" && (mul.s != Shape{oc} || bias.s != Shape{oc})) throw Problem{"multiplier or bias the runtime refuses"};
    }
    if (ty.k == "i32") {
      if (th.k != "i32" || th.s != Shape{oc}) throw Problem{"thresholds"};
      T r = Like("i32", {out.s[0], out.s[1], out.s[2], Words(oc)});
      int64_t bt = fh * fw * cpg;
      for (size_t i = 0; i < out.v.size(); ++i) {
        double pop = (bt - out.v[i]) / 2;
        if (pop > th.v[i % oc]) {
          double& w = r.v[(i / oc) * Words(oc) + i % oc / 32];
          w = (double)(int32_t)((uint32_t)(int32_t)w | 1u << (i % oc % 32));
        }
      }
      return r;
    }
    if (mul.k != "f32" || bias.k != "f32") throw Problem{"no multiplier or bias"};
    if ((mul.s != Shape{oc} && Count(mul.s) != 1) || (bias.s != Shape{oc} && Count(bias.s) != 1)) throw Problem{"shape of multiplier or bias"};
    for (size_t i = 0; i < out.v.size(); ++i) {
      double m = mul.v[mul.v.size() == 1 ? 0 : i % oc], b = bias.v[bias.v.size() == 1 ? 0 : i % oc], a = Act(act, out.v[i]);
      out.v[i] = a * m + b;
      out.m[i] = std::fabs(a * m) + (bias.m.empty() ? std::fabs(b) : bias.m[bias.v.size() == 1 ? 0 : i % oc]);
    }
    if (ty.k == "q8") {
      T r = Like("q8", out.s);
      for (size_t i = 0; i < out.v.size(); ++i) r.v[i] = Requant(out.v[i], ty);
      return r;
    }
    return out;
  }
  static T Const(mlir::Operation* o) { return FromAttr(o->getAttr("value")); }

  vector<T> Op(mlir::Operation* o) {
    string n = o->getName().getStringRef().str();
    auto A = [&](unsigned i) -> const T& {
      if (i >= o->getNumOperands()) throw Problem{"operand"};
      return Get(o->getOperand(i));
    };
    auto act = [&] { return Str(o, "fused_activation_function"); };
    static const std::map<string, string> same = {{"tfl.select", "tf.Select"}, {"tfl.select_v2", "tf.SelectV2"}, {"tfl.logical_not", "tf.LogicalNot"},
                                                  {"tfl.sign", "tf.Sign"}, {"tfl.shape", "tf.Shape"}, {"tfl.broadcast_to", "tf.BroadcastTo"}};
    if (auto it = same.find(n); it != same.end()) n = it->second;
    if (n == "arith.constant" || n == "tf.Const") return {Const(o)};
    if (n == "tfl.no_value") { T r; r.k = "none"; return {r}; }
    if (n == "lq.Quantize") {
      const T& a = A(0);
      if (a.s.empty()) throw Problem{"rank 0"};
      if (strict_runtime && a.k != "f32" && a.k != "q8" && a.k != "i1") throw Problem{"quantisation of " + a.k + ", which the runtime refuses"};
      Shape s = a.s;
      s.back() = Words(s.back());
      T r = Like("i32", s);
      int64_t C = a.s.back();
      for (size_t i = 0; i < a.v.size(); ++i)
        if (Negative(a, i)) {
          double& w = r.v[(i / C) * s.back() + i % C / 32];
          w = (double)(int32_t)((uint32_t)(int32_t)w | 1u << (i % C % 32));
        }
      return {r};
    }
    if (n == "lq.Dequantize") {
      const T& a = A(0);
      T ty = TypeOf(o->getResult(0).getType());
      if (a.k != "i32" || a.s.empty() || ty.s.size() != a.s.size()) throw Problem{"dequantise"};
      Shape s = a.s;
      s.back() = ty.s.back();
      if (Words(s.back()) != a.s.back()) throw Problem{"dequantise to other channels"};
      if (strict_runtime && ty.k != "f32" && ty.k != "q8" && ty.k != "i1") throw Problem{"dequantisation to " + ty.k + ", which the runtime refuses"};
      T r = Like(ty.k, s);
      int64_t C = s.back();
      for (size_t i = 0; i < r.v.size(); ++i) {
        bool neg = Bit(a, i / C, i % C);
        r.v[i] = ty.k == "i1" ? !neg : ty.k == "q8" ? std::min(127.0, std::max(-128.0, ty.zp + std::round((neg ? -1.0 : 1.0) / ty.scale))) : neg ? -1 : 1;
      }
      if (r.isf()) r.m.assign(r.v.size(), 1);
      return {r};
    }
    if (n == "lq.Bconv2d") return {Bconv(o)};
    if (n == "lq.BMaxPool2d") {
      const T& in = A(0);
      int64_t fh = I(o, "filter_height"), fw = I(o, "filter_width"), sh = I(o, "stride_height"), sw = I(o, "stride_width");
      bool same = Str(o, "padding") == "SAME";
      Geo gy = Geometry(same, in.s[1], fh, sh, 1), gx = Geometry(same, in.s[2], fw, sw, 1);
      T r = Like("i32", {in.s[0], gy.out, gx.out, in.s[3]});
      size_t at = 0;
      for (int64_t b = 0; b < in.s[0]; ++b)
        for (int64_t y = 0; y < gy.out; ++y)
          for (int64_t x = 0; x < gx.out; ++x)
            for (int64_t c = 0; c < in.s[3]; ++c, ++at) {
              uint32_t w = ~0u;
              for (int64_t i = 0; i < fh; ++i)
                for (int64_t j = 0; j < fw; ++j) {
                  int64_t iy = y * sh - gy.before + i, ix = x * sw - gx.before + j;
                  if (iy < 0 || iy >= in.s[1] || ix < 0 || ix >= in.s[2]) continue;
                  w &= (uint32_t)(int32_t)in.v[((b * in.s[1] + iy) * in.s[2] + ix) * in.s[3] + c];
                }
              r.v[at] = (double)(int32_t)w;
            }
      return {r};
    }
    if (n == "tf.Identity" || n == "tf.Snapshot" || n == "tf.StopGradient" || n == "tf.PlaceholderWithDefault" || n == "tf.CheckNumerics") return {A(0)};
    if (n == "tf.IdentityN") {
      vector<T> r;
      for (unsigned i = 0; i < o->getNumOperands(); ++i) r.push_back(A(i));
      return r;
    }
    if (n == "tf.Select" || n == "tf.SelectV2") {
      const T &c = A(0), &x = A(1), &y = A(2);
      if (x.k != y.k || c.k != "i1") throw Problem{"select"};
      T r;
      if (n == "tf.Select") {  // branches of one shape; the condition is of that shape, a scalar, or picks along the first dimension
        if (x.s != y.s) throw Problem{"branches of different shapes"};
        r = x;
        int64_t rows = x.s.empty() ? 1 : x.s[0];
        bool vec = c.s != x.s && c.s.size() == 1 && c.s[0] == rows, scalar = c.s.empty();
        if (c.s != x.s && !vec && !scalar) throw Problem{"condition"};
        int64_t per = rows ? (int64_t)r.v.size() / rows : 1;
        for (size_t i = 0; i < r.v.size(); ++i)
          if (!c.v[scalar ? 0 : vec ? i / per : i]) { r.v[i] = y.v[i]; if (r.isf()) r.m[i] = y.m[i]; }
        return {r};
      }
      r = Like(x.k, Broadcast(c.s, Broadcast(x.s, y.s)));
      for (size_t i = 0; i < r.v.size(); ++i) {
        bool t = c.v[At(c.s, r.s, i)];
        const T& b = t ? x : y;
        size_t k = At(b.s, r.s, i);
        r.v[i] = b.v[k];
        if (r.isf()) r.m[i] = b.m[k];
      }
      return {r};
    }
    if (n == "tf.LogicalNot") return {Map(A(0), [](double x) { return x == 0 ? 1.0 : 0.0; })};
    if (n == "tf.Sign") {
      const T& a = A(0);
      T r = a;
      for (size_t i = 0; i < a.v.size(); ++i) {
        if (!exact_ && a.isf() && a.m[i] != 0 && std::fabs(a.v[i]) <= 3e-5 * a.m[i]) uncertain = true;
        r.v[i] = a.v[i] > 0 ? 1 : a.v[i] < 0 ? -1 : a.v[i];
        if (r.isf()) r.m[i] = std::fabs(r.v[i]);
      }
      return {r};
    }
    if (n == "tf.AddV2" || n == "tfl.add") { T r = Arith("add", A(0), A(1)); return {n[2] == '.' ? r : WithAct(r, act())}; }
    if (n == "tf.Sub" || n == "tfl.sub") { T r = Arith("sub", A(0), A(1)); return {n[2] == '.' ? r : WithAct(r, act())}; }
    if (n == "tf.Mul" || n == "tfl.mul") { T r = Arith("mul", A(0), A(1)); return {n[2] == '.' ? r : WithAct(r, act())}; }
    if (n == "tf.Div" || n == "tf.RealDiv" || n == "tfl.div") { T r = Arith("div", A(0), A(1)); return {n[2] == '.' ? r : WithAct(r, act())}; }
    if (n == "tf.GreaterEqual" || n == "tfl.greater_equal") return {Compare("ge", A(0), A(1))};
    if (n == "tf.LessEqual" || n == "tfl.less_equal") return {Compare("le", A(0), A(1))};
    if (n == "tf.Greater" || n == "tfl.greater") return {Compare("gt", A(0), A(1))};
    if (n == "tf.Less" || n == "tfl.less") return {Compare("lt", A(0), A(1))};
    if (n == "tf.Relu" || n == "tfl.relu") return {WithAct(A(0), "RELU")};
    if (n == "tf.Relu6" || n == "tfl.relu6") return {WithAct(A(0), "RELU6")};
    if (n == "tfl.relu_n1_to_1") return {WithAct(A(0), "RELU_N1_TO_1")};
    if (n == "tf.Shape") {
      T ty = TypeOf(o->getResult(0).getType());
      T r = Like(ty.k, {(int64_t)A(0).s.size()});
      for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = (double)A(0).s[i];
      return {r};
    }
    if (n == "tf.BroadcastTo") {
      const T &a = A(0), &s = A(1);
      Shape to;
      for (double d : s.v) to.push_back((int64_t)d);
      if (Broadcast(a.s, to) != to) throw Problem{"cannot broadcast " + Dims(a.s) + " to " + Dims(to)};
      T r = Like(a.k, to);
      for (size_t i = 0; i < r.v.size(); ++i) {
        size_t k = At(a.s, to, i);
        r.v[i] = a.v[k];
        if (r.isf()) r.m[i] = a.m[k];
      }
      return {r};
    }
    if (n == "tf.Transpose") {
      vector<int64_t> p;
      for (double d : A(1).v) p.push_back((int64_t)d);
      return {Transpose(A(0), p)};
    }
    if (n == "tf.Reshape" || n == "tfl.reshape") {
      T r = A(0);
      r.s.clear();
      for (double d : A(1).v) r.s.push_back((int64_t)d);
      int64_t known = 1;
      for (int64_t d : r.s) if (d >= 0) known *= d;
      for (int64_t& d : r.s) if (d < 0) d = known ? (int64_t)r.v.size() / known : 0;
      if (Count(r.s) != (int64_t)r.v.size()) throw Problem{"reshape"};
      return {r};
    }
    if (n == "tf.Pad" || n == "tfl.pad") return {Pad(A(0), A(1), 0)};
    if (n == "tf.PadV2" || n == "tfl.padv2") {
      if (Count(A(2).s) != 1) throw Problem{"padding value"};
      return {Pad(A(0), A(1), A(2).v[0])};
    }
    if (n == "tf.Conv2D") {
      auto fmt = o->getAttrOfType<mlir::StringAttr>("data_format");
      bool nchw = fmt && fmt.getValue() == "NCHW";
      T in = nchw ? Transpose(A(0), {0, 2, 3, 1}) : A(0);
      const T& f = A(1);
      if (in.s.size() != 4 || f.s.size() != 4) throw Problem{"convolution"};
      auto st = List(o, "strides"), di = List(o, "dilations", {1, 1, 1, 1}), ep = List(o, "explicit_paddings");
      int h = nchw ? 2 : 1, w = nchw ? 3 : 2;
      auto pad = Str(o, "padding");
      int64_t oc = f.s[3], cpg = f.s[2], groups = in.s[3] / cpg;
      if (in.s[3] % cpg || oc % groups) throw Problem{"groups"};
      if (pad == "EXPLICIT") {
        T p = Like("i32", {4, 2});
        for (int d = 0; d < 4; ++d) {  // NHWC order of the transposed input
          int src = nchw ? (d == 0 ? 0 : d == 3 ? 1 : d + 1) : d;
          p.v[2 * d] = ep[2 * src];
          p.v[2 * d + 1] = ep[2 * src + 1];
        }
        in = Pad(in, p, 0);
        Fill(in);
      }
      bool same = pad == "SAME";
      T r = Conv(in, f.s[0], f.s[1], oc, cpg, Geometry(same, in.s[1], f.s[0], st[h], di[h]), Geometry(same, in.s[2], f.s[1], st[w], di[w]), st[h], st[w], di[h], di[w], 0,
                 [&](int64_t oo, int64_t i, int64_t j, int64_t c) { return f.v[((i * f.s[1] + j) * cpg + c) * oc + oo]; },
                 [&](int64_t oo, int64_t c) { return oo / (oc / groups) * cpg + c; });
      return {nchw ? Transpose(r, {0, 3, 1, 2}) : r};
    }
    if (n == "tfl.conv_2d" || n == "tfl.depthwise_conv_2d") {
      bool dwc = n[4] == 'd';
      const T &in = A(0), &f = A(1), &b = A(2);
      if (in.s.size() != 4 || f.s.size() != 4 || !in.isf()) throw Problem{"convolution"};
      bool same = Str(o, "padding") == "SAME";
      int64_t sh = I(o, "stride_h"), sw = I(o, "stride_w"), dh = I(o, "dilation_h_factor"), dw = I(o, "dilation_w_factor");
      int64_t oc = dwc ? f.s[3] : f.s[0], cpg = dwc ? 1 : f.s[3], mult = dwc ? I(o, "depth_multiplier") : 1, groups = dwc ? 1 : in.s[3] / cpg;
      if (dwc ? in.s[3] * mult != oc : (in.s[3] % cpg || oc % groups)) throw Problem{"filter does not fit the input"};
      Geo gy = Geometry(same, in.s[1], f.s[1], sh, dh), gx = Geometry(same, in.s[2], f.s[2], sw, dw);
      T r = dwc ? Conv(in, f.s[1], f.s[2], oc, 1, gy, gx, sh, sw, dh, dw, 0, [&](int64_t oo, int64_t i, int64_t j, int64_t) { return f.v[(i * f.s[2] + j) * oc + oo]; },
                       [&](int64_t oo, int64_t) { return oo / mult; })
                : Conv(in, f.s[1], f.s[2], oc, cpg, gy, gx, sh, sw, dh, dw, 0, [&](int64_t oo, int64_t i, int64_t j, int64_t c) { return f.v[((oo * f.s[1] + i) * f.s[2] + j) * cpg + c]; },
                       [&](int64_t oo, int64_t c) { return oo / (oc / groups) * cpg + c; });
      if (b.k != "none")
        for (size_t i = 0; i < r.v.size(); ++i) { r.v[i] += b.v[i % oc]; r.m[i] += std::fabs(b.v[i % oc]); }
      return {WithAct(r, act())};
    }
    if (n == "tfl.max_pool_2d" || n == "tfl.average_pool_2d")
      return {WithAct(Pool(A(0), n[4] == 'm', Str(o, "padding") == "SAME", I(o, "filter_height"), I(o, n[4] == 'm' ? "filter_width" : "filter_width"), I(o, "stride_h"), I(o, "stride_w")), act())};
    if (n == "tf.MaxPool") {
      auto k = List(o, "ksize"), st = List(o, "strides");
      return {Pool(A(0), true, Str(o, "padding") == "SAME", k[1], k[2], st[1], st[2])};
    }
    if (n == "tf.AvgPool") {
      auto k = List(o, "ksize"), st = List(o, "strides");
      return {Pool(A(0), false, Str(o, "padding") == "SAME", k[1], k[2], st[1], st[2])};
    }
    if (n == "tf.ConcatV2" || n == "tfl.concatenation") {  // along the last dimension
      if (n[2] == 'l' && I(o, "axis") != 3 && I(o, "axis") != -1) throw Problem{"axis"};
      T r = A(0);
      int64_t C = 0;
      for (unsigned i = 0; i < o->getNumOperands(); ++i) C += A(i).s.back();
      r.s.back() = C;
      r.v.clear();
      r.m.clear();
      int64_t rows = Count(r.s) / C;
      for (int64_t row = 0; row < rows; ++row)
        for (unsigned i = 0; i < o->getNumOperands(); ++i) {
          const T& a = A(i);
          if (a.k != r.k || (int64_t)a.v.size() != rows * a.s.back()) throw Problem{"concatenation"};
          for (int64_t c = 0; c < a.s.back(); ++c) {
            r.v.push_back(a.v[row * a.s.back() + c]);
            if (r.isf()) r.m.push_back(a.m[row * a.s.back() + c]);
          }
        }
      return {WithAct(r, n[2] == 'l' ? act() : "NONE")};
    }
    if (n == "tf.FusedBatchNormV3") {
      T d = Zip(A(0), A(3), "f32", [](double x, double y, double p, double q, double* m) { *m = p + q; return x - y; });
      T s = Zip(A(1), A(4), "f32", [](double x, double y, double p, double q, double* m) { *m = p / std::sqrt(y); return x / std::sqrt(y); });
      return {Arith("add", Arith("mul", d, s), A(2))};
    }
    if (n == "tf.FakeQuantWithMinMaxArgs") {
      T r = A(0), ty = TypeOf(mlir::cast<mlir::TypeAttr>(o->getAttr("qtype")).getValue());
      for (size_t i = 0; i < r.v.size(); ++i) { r.v[i] = (Requant(r.v[i], ty, &ties) - ty.zp) * ty.scale; r.m[i] = std::fabs(r.v[i]); }
      return {r};
    }
    if (n == "tfl.quantize") {
      T ty = TypeOf(o->getResult(0).getType());
      const T& a = A(0);
      if (ty.k[0] != 'q') throw Problem{"quantise"};
      T r = Like(ty.k, a.s);
      for (size_t i = 0; i < a.v.size(); ++i) {
        double x = a.k[0] == 'q' ? (a.v[i] - a.zp) * a.scale : a.v[i];
        r.v[i] = Requant(x, ty, &ties);
      }
      return {r};
    }
    if (n == "tfl.dequantize") {
      const T& a = A(0);
      T r = Like("f32", a.s);
      for (size_t i = 0; i < a.v.size(); ++i) { r.v[i] = a.k[0] == 'q' ? (a.v[i] - a.zp) * a.scale : a.v[i]; r.m[i] = std::fabs(r.v[i]); }
      return {r};
    }
    if (n == "tfl.custom" && custom) {
      vector<const T*> in;
      for (auto v : o->getOperands()) in.push_back(&Get(v));
      return custom(o, in);
    }
    throw Problem{"unexpected operation " + n};
  }
};

// ---- values
inline T Tensor(const string& k, const Shape& s, vector<double> v) {
  T t;
  t.k = k;
  t.s = s;
  t.v = std::move(v);
  Interp::Fill(t);
  return t;
}
// Packed signs of C channels, the rest of the last word zero.
inline T RandomPacked(pbt::Rng& r, Shape s, int64_t C) {
  s.back() = Words(C);
  T t;
  t.k = "i32";
  t.s = s;
  int64_t n = Count(s);
  for (int64_t i = 0; i < n; ++i) {
    int64_t left = C - (i % Words(C)) * 32;
    uint32_t mask = left >= 32 ? ~0u : (1u << left) - 1;
    t.v.push_back((double)(int32_t)((uint32_t)r.next() & mask));
  }
  return t;
}
// Float inputs: exact mode gives quarters, often zero, sometimes large powers of two.
inline T RandomFloat(pbt::Rng& r, const Shape& s, bool exact) {
  T t;
  t.s = s;
  for (int64_t i = 0, n = Count(s); i < n; ++i) {
    double v;
    switch (r.below(8)) {
      case 0: v = 0; break;
      case 1: v = r.below(2) ? 1 : -1; break;
      default: v = exact ? ((double)r.below(65) - 32) / 4 : (float)(r.unit() * 8 - 4); break;
    }
    if (v == 0 && r.below(2)) v = -0.0;
    t.v.push_back(v);
  }
  Interp::Fill(t);
  return t;
}

// Compares; returns a description of the first difference.
inline string Diff(const T& a, const T& b, bool exact, double tol = 1e-5) {
  if (a.k != b.k || a.s != b.s) return a.k + "[" + Dims(a.s) + "] became " + b.k + "[" + Dims(b.s) + "]";
  if (a.k[0] == 'q' && (a.scale != b.scale || a.zp != b.zp)) return "quantisation parameters changed";
  for (size_t i = 0; i < a.v.size(); ++i) {
    double x = a.v[i], y = b.v[i];
    if (x == y || (std::isnan(x) && std::isnan(y))) continue;
    if (!exact && a.isf() && std::fabs(x - y) <= tol * std::max(a.m[i], b.m[i]) + 1e-30) continue;
    if (!exact && a.k[0] == 'q' && std::fabs(x - y) <= 1) continue;
    char buf[200];
    if (a.k == "i32") snprintf(buf, sizeof buf, "element %zu was 0x%08X, became 0x%08X", i, (unsigned)(int32_t)x, (unsigned)(int32_t)y);
    else snprintf(buf, sizeof buf, "element %zu was %.9g, became %.9g", i, x, y);
    return buf;
  }
  return "";
}

// Checks that `pass` preserves what the function computes on the given inputs.
// `alt`: what it may also compute afterwards, for a known finding. `start`: what the pass is run on, if not f.
// Returns false when the case has to be discarded.
template <typename MakePass, typename After>
bool Preserves(Ctx& c, const Fn& f, const vector<vector<T>>& inputs, bool exact, bool strict, MakePass pass, After after, double tol = 1e-5, const Fn* alt = nullptr, const Fn* start = nullptr) {
  auto load = [&](const Fn& g) {
    string text = g.Module();
    auto m = E().Parse(text);
    if (mlir::failed(mlir::verify(*m))) { fprintf(stderr, "generated an invalid module: %s\n%s\n", E().diag.c_str(), text.c_str()); exit(3); }
    return m;
  };
  bool uncertain = false;
  auto eval = [&](mlir::ModuleOp m, const Fn& g) {
    vector<vector<T>> r;
    for (auto& in : inputs) {
      Interp it(exact);
      try { r.push_back(it.Run(Main(m), in)); } catch (Problem& p) { fprintf(stderr, "cannot evaluate the generated module: %s\n%s\n", p.msg.c_str(), g.Module().c_str()); exit(3); }
      uncertain = uncertain || it.uncertain;
    }
    return r;
  };
  auto mod = load(f);
  vector<vector<T>> want = eval(*mod, f), other;
  if (alt) { auto m = load(*alt); other = eval(*m, *alt); }
  if (uncertain) return false;
  if (start) mod = load(*start);
  string was = Print(*mod);
  if (!pass(*mod)) c.fail("the pass fails: %s", E().diag.substr(0, 1000).c_str());
  string now = Print(*mod);
  if (was != now) c.label("changed by the pass");
  if (mlir::failed(mlir::verify(*mod))) c.fail("the module is invalid afterwards: %s", E().diag.substr(0, 1500).c_str());
  for (size_t k = 0; k < inputs.size(); ++k) {
    Interp it(exact);
    it.strict_runtime = strict;
    vector<T> got;
    try { got = it.Run(Main(*mod), inputs[k]); } catch (Problem& p) { c.fail("%s (after the pass)", p.msg.c_str()); }
    if (it.uncertain) return false;
    if (got.size() != want[k].size()) c.fail("%zu results instead of %zu", got.size(), want[k].size());
    for (size_t i = 0; i < got.size(); ++i) {
      string d = Diff(want[k][i], got[i], exact, tol);
      if (!d.empty() && alt && Diff(other[k][i], got[i], exact, tol).empty()) { c.label("known finding"); continue; }
      if (!d.empty()) c.fail("result %zu: %s. Afterwards:\n%s", i, d.c_str(), now.substr(0, 3000).c_str());
    }
  }
  after(*mod, was != now);
  return true;
}
}  // namespace mx
#endif
