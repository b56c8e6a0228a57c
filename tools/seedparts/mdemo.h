// Evaluates a function before and after a pass of the tree in the current directory.
#include "mlir/src/mlirx.h"
using namespace mx;
#ifndef MAKE
#define MAKE nullptr
#endif
// Number of differing results over a few inputs; the pass is MAKE.
static int Differs(const Fn& f, const vector<vector<T>>& inputs, bool strict = false) {
  E().Fresh(1);
  auto a = E().Parse(f.Module()), b = E().Parse(f.Module());
  if (mlir::failed(mlir::verify(*a))) { printf("invalid module: %s\n", E().diag.c_str()); return 1; }
  if (!RunPass(*b, MAKE)) { printf("the pass fails\n"); return 1; }
  if (mlir::failed(mlir::verify(*b))) { printf("invalid afterwards: %s\n", E().diag.c_str()); return 1; }
  int bad = 0;
  for (auto& in : inputs) {
    try {
      Interp x(true), y(true);
      y.strict_runtime = strict;
      auto want = x.Run(Main(*a), in), got = y.Run(Main(*b), in);
      for (size_t i = 0; i < want.size(); ++i) {
        string d = Diff(want[i], got[i], true);
        if (!d.empty()) { printf("result %zu: %s\n", i, d.c_str()); bad++; }
      }
    } catch (Problem& p) { printf("%s\n", p.msg.c_str()); bad++; }
  }
  if (bad) printf("%s\n", Print(*b).c_str());
  return bad;
}
static string At(const char* n, int64_t v) { return string(n) + " = " + S(v) + " : i32"; }
static string At(const char* n, const string& v) { return string(n) + " = \"" + v + "\""; }
static string Bconv(int64_t channels, int64_t stride = 1, const string& padding = "VALID", int64_t pad_values = 0, const string& act = "NONE") {
  return At("channels_in", channels) + ", " + At("dilation_height_factor", 1) + ", " + At("dilation_width_factor", 1) + ", " + At("fused_activation_function", act) + ", " + At("pad_values", pad_values) + ", " +
         At("padding", padding) + ", " + At("stride_height", stride) + ", " + At("stride_width", stride);
}
// A one-by-one filter and its signs.
static vector<float> Signs(size_t n, uint64_t seed) { pbt::Rng r(seed); vector<float> v; for (size_t i = 0; i < n; ++i) v.push_back(r.next() >> 33 & 1 ? -1.f : 1.f); return v; }
