// Reference models ("oracles") of the LCE operators, written from the definitions
// only: +/-1 arithmetic on unpacked values, TensorFlow's output-size and padding rules.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_
#include <cmath>
#include <cstdint>
#include <vector>
#include "../common/pbt.h"

namespace model {
using I32 = std::int32_t;

struct Packed {  // rows of bits, each row padded to whole 32-bit words with zeros
  int rows = 0, cols = 0, words = 0;
  std::vector<I32> w;
  Packed() {}
  Packed(int r, int c) : rows(r), cols(c), words((c + 31) / 32), w((size_t)r * words, 0) {}
  bool get(int r, int c) const { return (uint32_t)w[(size_t)r * words + c / 32] >> (c % 32) & 1; }
  void set(int r, int c, bool b) {
    uint32_t m = 1u << (c % 32);
    I32& x = w[(size_t)r * words + c / 32];
    x = (I32)(b ? ((uint32_t)x | m) : ((uint32_t)x & ~m));
  }
};

// TensorFlow's convolution geometry in one dimension.
struct Geo { int out, before; };
inline Geo Geometry(bool same, int in, int k, int stride, int dil) {
  int ek = (k - 1) * dil + 1;
  Geo g;
  if (same) {
    g.out = (in + stride - 1) / stride;
    int total = (g.out - 1) * stride + ek - in;
    g.before = total > 0 ? total / 2 : 0;
  } else {
    g.out = in >= ek ? (in - ek) / stride + 1 : 0;
    g.before = 0;
  }
  return g;
}

struct Conv {
  int b = 1, h = 1, w = 1, cin = 1, cout = 1, fh = 1, fw = 1, sh = 1, sw = 1, dh = 1, dw = 1, groups = 1;
  bool same = false;
  int pad_value = 1;  // only for SAME
  int act = 0;        // 0 none, 1 relu, 2 relu_n1_to_1, 3 relu6
  Packed in, filter;  // in: b*h*w rows of cin; filter: cout*fh*fw rows of cin/groups
  int oh() const { return Geometry(same, h, fh, sh, dh).out; }
  int ow() const { return Geometry(same, w, fw, sw, dw).out; }
  int cpg() const { return cin / groups; }
  int backtransform() const { return fh * fw * cpg(); }
  // For an output element: the sum of products of +/-1 values (0 for a zero-padded
  // position), and the number of positions whose signs differ (a zero-padded position
  // counts half, so that sum == positions - 2 * diff).
  void At(int bi, int oy, int ox, int oc, int* sum, int* diff) const {
    Geo gy = Geometry(same, h, fh, sh, dh), gx = Geometry(same, w, fw, sw, dw);
    int g = oc / (cout / groups), n = cpg();
    *sum = 0; *diff = 0;
    for (int y = 0; y < fh; ++y)
      for (int x = 0; x < fw; ++x) {
        int iy = oy * sh - gy.before + y * dh, ix = ox * sw - gx.before + x * dw;
        bool inside = iy >= 0 && iy < h && ix >= 0 && ix < w;
        if (!inside && pad_value == 0) { *diff += n / 2; continue; }
        for (int c = 0; c < n; ++c) {
          bool a = inside && in.get((bi * h + iy) * w + ix, g * n + c);  // outside: +1
          bool f = filter.get((oc * fh + y) * fw + x, c);
          *sum += a == f ? 1 : -1;
          *diff += a != f;
        }
      }
  }
  int Clamp(int v) const {
    switch (act) {
      case 1: return v < 0 ? 0 : v;
      case 2: return v < -1 ? -1 : v > 1 ? 1 : v;
      case 3: return v < 0 ? 0 : v > 6 ? 6 : v;
      default: return v;
    }
  }
};

inline int Sat8(double v) { return v < -128 ? -128 : v > 127 ? 127 : (int)v; }
}  // namespace model
#endif
