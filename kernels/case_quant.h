// K02 LceQuantize, LceDequantize, by the operators that RegQuantize() and the others give.
#include "gen.h"

static void QuantCase(Ctx& c) {
  if (c.coin(8)) {  // unsupported tensor types are refused
    bool quantize = c.coin();
    vector<int> d = GenShape(c, 1, 200), pd = d;
    pd.back() = (d.back() + 31) / 32;
    TfLiteType bad = c.pick({kTfLiteUInt8, kTfLiteInt16, kTfLiteInt64, kTfLiteInt32, kTfLiteFloat16, kTfLiteFloat64, kTfLiteInt4});
    int what = c.weighted({50, 25, 25});
    c.desc("refuse quantize=%d type=%s what=%d shape=%s", quantize, TfLiteTypeGetName(bad), what, ShapeStr(d).c_str());
    Interp it(c.draw(1 << 20));
    TfLiteType full = what == 0 ? bad : kTfLiteFloat32, packed = what == 1 ? c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteUInt32, kTfLiteInt64}) : kTfLiteInt32;
    if (what == 2) { if (c.coin()) pd.push_back(1); else pd.insert(pd.begin(), 1); }
    int f = it.AddTensor(full, d, kTfLiteArenaRw), p = it.AddTensor(packed, pd, kTfLiteArenaRw);
    if (quantize) it.AddNode(RegQuantize(), {f}, {p}, {}); else it.AddNode(RegDequantize(), {p}, {f}, {});
    if (it.Allocate() == kTfLiteOk) c.fail("an unsupported tensor was accepted");
    c.label("refused");
    return;
  }
  vector<int> d = GenShape(c, 1, 3000), pd = d;
  pd.back() = (d.back() + 31) / 32;
  TfLiteType t = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
  float scale = 1;
  int zp = 0;
  if (t == kTfLiteInt8) {
    scale = c.pick({1.0f, 0.5f, 0.25f, 0.1f, 0.0078125f, 2.0f, 3.0f, 0.01f, 0.004f, 0.0009f, 0.6666667f});
    zp = c.coin(30) ? 0 : (int)c.range(0, 255) - 128;
  }
  bool special = c.coin();
  pbt::Rng r = c.bulk();
  long n = Count(d), rows = n / d.back();
  c.desc("%s %s scale=%g zp=%d data=%" PRIu64, TfLiteTypeGetName(t), ShapeStr(d).c_str(), scale, zp, r.s);
  Interp it(c.draw(1 << 20));
  int in = it.AddTensor(t, d, kTfLiteArenaRw, scale, zp, t == kTfLiteInt8);
  int q = it.AddTensor(kTfLiteInt32, vector<int>(d.size(), 1), kTfLiteArenaRw);
  int back = it.AddTensor(t, d, kTfLiteArenaRw, scale, zp, t == kTfLiteInt8);
  int q2 = it.AddTensor(kTfLiteInt32, pd, kTfLiteArenaRw);
  it.AddNode(RegQuantize(), {in}, {q}, {});
  it.AddNode(RegDequantize(), {q}, {back}, {});
  it.AddNode(RegQuantize(), {back}, {q2}, {});
  if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
  if (it.Dims(q) != pd) c.fail("the packed shape is %s, expected %s", ShapeStr(it.Dims(q)).c_str(), ShapeStr(pd).c_str());
  FillTyped(r, t, it.Data<char>(in), n, zp, special);
  vector<char> src(it.Data<char>(in), it.Data<char>(in) + n * lite::TypeSize(t));
  std::string e = it.Invoke({in});
  if (!e.empty()) c.fail("%s", e.c_str());
  Packed want((int)rows, d.back());
  for (long i = 0; i < n; ++i) want.set((int)(i / d.back()), (int)(i % d.back()), SignBit(t, src.data(), i, zp));
  for (size_t i = 0; i < want.w.size(); ++i)
    if (it.Data<int32_t>(q)[i] != want.w[i]) c.fail("packed word %zu is %08x, expected %08x", i, it.Data<int32_t>(q)[i], want.w[i]);
  // What LceDequantize produces.
  double off = std::round(1.0f / scale);
  int v0 = (int)std::min(127.0, zp + off), v1 = (int)std::max(-128.0, zp - off);
  for (long i = 0; i < n; ++i) {
    bool bit = want.get((int)(i / d.back()), (int)(i % d.back()));
    if (t == kTfLiteFloat32) {
      float g = it.Data<float>(back)[i];
      if (g != (bit ? -1.0f : 1.0f)) c.fail("dequantized element %ld is %g for bit %d", i, g, bit);
    } else if (t == kTfLiteInt8) {
      int g = it.Data<int8_t>(back)[i];
      if (g != (bit ? v1 : v0)) c.fail("dequantized element %ld is %d for bit %d, expected %d", i, g, bit, bit ? v1 : v0);
    } else if (it.Data<uint8_t>(back)[i] != (bit ? 0 : 1)) c.fail("dequantized bool %ld is %d for bit %d", i, it.Data<uint8_t>(back)[i], bit);
  }
  // Quantizing that again restores the packed tensor, provided -1 has an image below the zero point.
  if (t != kTfLiteInt8 || v1 < zp)
    for (size_t i = 0; i < want.w.size(); ++i)
      if (it.Data<int32_t>(q2)[i] != want.w[i]) c.fail("quantize(dequantize(x)) differs from x in word %zu", i);
  c.label(TfLiteTypeGetName(t));
  c.label("rank " + std::to_string(d.size()));
  c.nontrivial(n > 1);
}

