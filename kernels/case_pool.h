// K09 max pooling, by the operators that RegQuantize() and the others give.
#include "gen.h"

static void PoolCase(Ctx& c) {
  if (c.coin(6)) {  // refusals
    int fh = 2, fw = 2, sh = 1, sw = 1;
    vector<int> d{1, 4, 4, 2};
    TfLiteType ti = kTfLiteInt32, to = kTfLiteInt32;
    int k = (int)c.draw(7);
    switch (k) {
      case 0: fh = 0; break;
      case 1: fw = 0; break;
      case 2: sh = 0; break;
      case 3: sw = 0; break;
      case 4: ti = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt64}); break;
      case 5: to = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt64}); break;
      case 6: if (c.coin()) d.push_back(1); else d.pop_back(); break;
    }
    c.desc("refuse %d", k);
    Interp it(c.draw(1 << 20));
    int i = it.AddTensor(ti, d, kTfLiteArenaRw), o = it.AddTensor(to, {0}, kTfLiteArenaRw);
    it.AddNode(RegPool(), {i}, {o}, PoolOptions(fh, fw, sh, sw, c.coin()));
    if (it.Allocate() == kTfLiteOk) c.fail("unsupported pooling accepted");
    c.label("refused");
    return;
  }
  int b = (int)c.range(1, 3), fh = (int)c.range(1, 5), fw = (int)c.range(1, 5), sh = (int)c.range(1, 4), sw = (int)c.range(1, 4);
  bool same = c.coin();
  int h = same ? (int)c.range(1, 10) : fh + (int)c.range(0, 6), w = same ? (int)c.range(1, 10) : fw + (int)c.range(0, 6);
  int ch = c.coin() ? (int)c.range(1, 100) : 32 * (int)c.range(1, 3);
  if (VERIF_STRETCH && c.coin(3)) {
    switch (c.weighted({19, 19, 19, 19, 19, 5})) {
      case 0: w += (int)c.range(10, 200); break;
      case 1: h += (int)c.range(10, 200); break;
      case 2: ch = (int)c.range(100, 3000); break;
      case 3: b = (int)c.range(4, 60); break;
      case 5: h += (int)c.range(180, 300); w += (int)c.range(180, 300); ch = (int)c.range(1, 33); b = (int)c.range(1, 2); fh = std::min(fh, 2); fw = std::min(fw, 2); break;
      case 4: fh = (int)c.range(1, 20); fw = (int)c.range(1, 20); sh = (int)c.range(1, 12); sw = (int)c.range(1, 12); h = std::max(h, fh); w = std::max(w, fw); break;
    }
    c.label("stretched");
  }
  Packed in(b * h * w, ch);
  FillBits(c, &in);
  c.desc("in=%dx%dx%dx%d filter=%dx%d stride=%dx%d %s hash=%" PRIx64, b, h, w, ch, fh, fw, sh, sw, same ? "SAME" : "VALID",
         pbt::Hash(std::string((char*)in.w.data(), in.w.size() * 4)));
  Interp it(c.draw(1 << 20));
  int i = it.AddTensor(kTfLiteInt32, {b, h, w, in.words}, kTfLiteArenaRw), o = it.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
  it.AddNode(RegPool(), {i}, {o}, PoolOptions(fh, fw, sh, sw, same));
  if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
  Put(it, i, in.w);
  std::string e = it.Invoke({i});
  if (!e.empty()) c.fail("%s", e.c_str());
  int oh, ow;
  Packed want = PoolModel(in, b, h, w, fh, fw, sh, sw, same, &oh, &ow);
  vector<int> wd{b, oh, ow, in.words};
  if (it.Dims(o) != wd) c.fail("output shape %s, expected %s", ShapeStr(it.Dims(o)).c_str(), ShapeStr(wd).c_str());
  for (size_t k = 0; k < want.w.size(); ++k) {
    // Bits beyond the channel count stay 0: the AND of padding bits.
    if (it.Data<int32_t>(o)[k] != want.w[k]) c.fail("output word %zu is %08x, expected %08x", k, it.Data<int32_t>(o)[k], want.w[k]);
  }
  c.label(same ? "same" : "valid");
  c.nontrivial(fh * fw > 1 && oh * ow > 1);
}

