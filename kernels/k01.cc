// Level 1 leaves out helpers around the packing functions, level 2 packs and unpacks
// through LceQuantize and LceDequantize only (see k11.cc).
#ifndef VERIF_LEVEL
#define VERIF_LEVEL 0
#endif
#if VERIF_LEVEL < 2
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
#endif
#include "case_quant.h"

#if VERIF_LEVEL < 2
namespace bp = compute_engine::core::bitpacking;

// K01 bitpacking
template <typename T> static void BitpackCase(Ctx& c, const char* tname) {
  int rows = (int)c.size(1, 12), cols;
  switch (c.weighted({40, 30, 30})) {
    case 0: cols = (int)c.range(1, 200); break;
    case 1: cols = 32 * (int)c.range(1, 8); break;
    default: cols = (int)c.pick({1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 159, 160, 161, 255, 256, 257, 512}); break;
  }
  if (c.coin(2)) { if (c.coin()) cols = (int)c.range(500, 20000); else rows = (int)c.range(12, 300); c.label("stretched"); }
  int32_t zp = 0;
  if (!std::is_floating_point<T>::value) {
    int64_t lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    switch (c.weighted({40, 30, 10, 10, 10})) {
      case 0: zp = (int32_t)c.range(std::max<int64_t>(lo, -200), std::min<int64_t>(hi, 300)); break;
      case 1: zp = (int32_t)std::min<int64_t>(INT32_MAX, std::max<int64_t>(INT32_MIN, c.pick({lo, lo + 1, hi - 1, hi}))); break;
      case 2: zp = (int32_t)std::min<int64_t>(INT32_MAX, hi + 1 + (int64_t)c.draw(300)); break;
      case 3: zp = (int32_t)std::max<int64_t>(INT32_MIN, lo - 1 - (int64_t)c.draw(300)); break;
      case 4: zp = (int32_t)(uint32_t)c.draw(1ull << 32); break;
    }
  }
  int fill = c.weighted({50, 50});
  pbt::Rng r = c.bulk();
  c.desc("pack %s rows=%d cols=%d zp=%d fill=%d/%" PRIu64, tname, rows, cols, zp, fill, r.s);
  Buf<T> in((size_t)rows * cols, c);
  for (size_t i = 0; i < in.n; ++i) in.p()[i] = fill && r.below(2) ? SpecialValue<T>(r, zp) : AnyValue<T>(r);
  vector<T> copy(in.p(), in.p() + in.n);
  int words = (cols + 31) / 32;
#if VERIF_LEVEL < 1
  if (bp::GetBitpackedSize(cols) != words || bp::GetBitpackedMatrixSize(rows, cols) != rows * words) c.fail("packed size of %dx%d", rows, cols);
#endif
  Buf<int32_t> out((size_t)rows * words, c);
  bp::bitpack_matrix(in.p(), rows, cols, out.p(), zp);
  for (int y = 0; y < rows; ++y)
    for (int k = 0; k < words; ++k) {
      uint32_t want = 0;
      for (int b = 0; b < 32 && k * 32 + b < cols; ++b) {
        T v = copy[(size_t)y * cols + k * 32 + b];
        bool bit = std::is_floating_point<T>::value ? v < (T)0 : (int64_t)v < (int64_t)zp;
        if (bit) want |= 1u << b;
      }
      uint32_t got = (uint32_t)out.p()[(size_t)y * words + k];
      if (got != want) c.fail("packed word %d of row %d is %08x, expected %08x", k, y, got, want);
    }
  if (!out.g.SlackIntact() || !in.g.SlackIntact()) c.fail("packing wrote past the end of a buffer");
  if (memcmp(copy.data(), in.p(), in.n * sizeof(T)) != 0) c.fail("packing changed its input");
#if VERIF_LEVEL < 1
  // bitpack_tensor is the same along the last dimension of a tensor.
  int split = rows % 2 == 0 ? 2 : 1;
  tflite::RuntimeShape shape({split, rows / split, cols});
  if (bp::GetBitpackedTensorSize(shape) != rows * words) c.fail("GetBitpackedTensorSize");
  tflite::RuntimeShape ps = bp::bitpacked_shape(shape);
  if (!(ps == tflite::RuntimeShape({split, rows / split, words}))) c.fail("bitpacked_shape");
  Buf<int32_t> out2(out.n, c);
  bp::bitpack_tensor(shape, in.p(), zp, out2.p());
  if (memcmp(out.p(), out2.p(), out.n * 4) != 0) c.fail("bitpack_tensor differs from bitpack_matrix");
#endif
  c.label(tname);
  c.label(cols % 32 ? "padded row" : "whole words");
  c.nontrivial(rows * cols > 1);
}
template <typename T> static void UnpackCase(Ctx& c, const char* tname) {
  int rows = (int)c.size(1, 12), cols = c.coin(60) ? (int)c.range(1, 200) : 32 * (int)c.range(1, 8);
  if (c.coin(2)) { if (c.coin()) cols = (int)c.range(500, 20000); else rows = (int)c.range(12, 300); c.label("stretched"); }
  Packed p(rows, cols);
  FillBits(c, &p);
  bool dflt = c.coin(40);
  T zero = (T)(+1), one = (T)(-1);
  if (!dflt) { pbt::Rng r = c.bulk(); zero = AnyValue<T>(r); one = AnyValue<T>(r); if constexpr (std::is_same<T, bool>::value) { zero = c.coin(); one = !zero; } }
  c.desc("unpack %s rows=%d cols=%d default=%d", tname, rows, cols, dflt);
  Buf<int32_t> in(p.w.size(), c);
  memcpy(in.p(), p.w.data(), p.w.size() * 4);
  // Bits beyond the last column are not values.
  if (cols % 32 && c.coin(50))
    for (int y = 0; y < rows; ++y) in.p()[(size_t)y * p.words + p.words - 1] |= (int32_t)(~0u << (cols % 32));
  Buf<T> out((size_t)rows * cols, c);
  if (dflt) bp::unpack_matrix(in.p(), rows, cols, out.p()); else bp::unpack_matrix(in.p(), rows, cols, out.p(), zero, one);
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) {
      T want = p.get(y, x) ? one : zero, got = out.p()[(size_t)y * cols + x];
      if (memcmp(&want, &got, sizeof(T)) != 0) c.fail("unpacked value [%d,%d] of a %d bit is wrong", y, x, (int)p.get(y, x));
    }
  if (!out.g.SlackIntact()) c.fail("unpacking wrote past the end of its output");
  if constexpr (std::is_same<T, float>::value || std::is_same<T, int8_t>::value) {
    if (dflt) {  // packing restores what was unpacked
      Buf<int32_t> again(p.w.size(), c);
      bp::bitpack_matrix(out.p(), rows, cols, again.p(), 0);
      if (memcmp(again.p(), p.w.data(), p.w.size() * 4) != 0) c.fail("packing the unpacked matrix does not restore it");
    }
  }
  c.label(tname);
  c.nontrivial(rows * cols > 1);
}
#endif
PBT_PROPERTY(K01) {
#if VERIF_LEVEL >= 2
  QuantCase(c);
#else
  switch (c.weighted({22, 22, 6, 6, 6, 4, 12, 10, 6, 6})) {
    case 0: return BitpackCase<float>(c, "float");
    case 1: return BitpackCase<int8_t>(c, "int8");
    case 2: return BitpackCase<uint8_t>(c, "uint8");
    case 3: return BitpackCase<int32_t>(c, "int32");
    case 4: return BitpackCase<int16_t>(c, "int16");
    case 5: return BitpackCase<double>(c, "double");
    case 6: return UnpackCase<float>(c, "to float");
    case 7: return UnpackCase<int8_t>(c, "to int8");
    case 8: return UnpackCase<bool>(c, "to bool");
    case 9: return UnpackCase<int32_t>(c, "to int32");
  }
#endif
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
