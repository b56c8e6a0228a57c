#include "gen.h"

// K10 memory bounds
// Every operator over awkward sizes; buffers have exactly 16 readable bytes of
// arbitrary content behind them (AddressSanitizer guards everything else) and
// neither those bytes nor any tensor but the output may change.
PBT_PROPERTY(K10) {
  int kind = c.weighted({50, 20, 15, 15});
  if (kind == 0) {
    TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
    Conv v = GenConv(c, out, 60000);
    Post p = GenPost(c, v, out);
    Impl impl = c.pick({kRef, kBgemm, kIndirect});
    if (!Supported(v, out, impl)) c.discard();
    bool ci = c.coin(30);
    c.desc("conv %s out=%s %s", Describe(v).c_str(), TfLiteTypeGetName(out), kImplName[impl]);
    Interp it(c.draw(1ull << 32));
    ConvIds d = BuildConv(it, v, p, out, impl, ci);
    if (impl == kBgemm) SetSchedule(c, it);
    if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
    if (!ci) Put(it, d.in, v.in.w);
    std::string e;
    for (int k = 0; k < 2 && e.empty(); ++k) e = ci ? it.Invoke({}) : it.Invoke({d.in});
    if (!e.empty()) c.fail("%s", e.c_str());
    c.label(std::string("conv ") + kImplName[impl]);
    c.nontrivial(v.oh() * v.ow() * v.cout > 1);
  } else if (kind == 1) {
    vector<int> d = GenShape(c, 1, 4000), pd = d;
    pd.back() = (d.back() + 31) / 32;
    TfLiteType t = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
    c.desc("quantize %s %s", TfLiteTypeGetName(t), ShapeStr(d).c_str());
    Interp it(c.draw(1ull << 32));
    int zp = t == kTfLiteInt8 ? c.pick({0, -128, 127, 128, -129, 1000, 5}) : 0;
    int x = it.AddTensor(t, d, kTfLiteArenaRw, 0.5f, zp), q = it.AddTensor(kTfLiteInt32, pd, kTfLiteArenaRw);
    it.AddNode(lce::Register_QUANTIZE(), {x}, {q}, {});
    if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
    pbt::Rng r = c.bulk();
    FillTyped(r, t, it.Data<char>(x), Count(d), zp, true);
    std::string e = it.Invoke({x});
    if (!e.empty()) c.fail("%s", e.c_str());
    c.label("quantize");
    c.nontrivial(Count(d) > 1);
  } else if (kind == 2) {
    vector<int> d = GenShape(c, 1, 4000), pd = d;
    pd.back() = (d.back() + 31) / 32;
    TfLiteType t = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool});
    c.desc("dequantize %s %s", TfLiteTypeGetName(t), ShapeStr(d).c_str());
    Interp it(c.draw(1ull << 32));
    int q = it.AddTensor(kTfLiteInt32, pd, kTfLiteArenaRw), x = it.AddTensor(t, d, kTfLiteArenaRw, 0.5f, 3);
    it.AddNode(lce::Register_DEQUANTIZE(), {q}, {x}, {});
    if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
    std::string e = it.Invoke({q});
    if (!e.empty()) c.fail("%s", e.c_str());
    c.label("dequantize");
    c.nontrivial(Count(d) > 1);
  } else {
    int b = (int)c.range(1, 2), fh = (int)c.range(1, 5), fw = (int)c.range(1, 5), sh = (int)c.range(1, 6), sw = (int)c.range(1, 6);
    bool same = c.coin(70);
    int h = same ? (int)c.range(1, 9) : fh + (int)c.range(0, 6), w = same ? (int)c.range(1, 9) : fw + (int)c.range(0, 6), words = (int)c.range(1, 5);
    c.desc("pool in=%dx%dx%dx%d filter=%dx%d stride=%dx%d %s", b, h, w, words, fh, fw, sh, sw, same ? "SAME" : "VALID");
    Interp it(c.draw(1ull << 32));
    int i = it.AddTensor(kTfLiteInt32, {b, h, w, words}, kTfLiteArenaRw), o = it.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
    it.AddNode(lce::Register_BMAXPOOL_2D(), {i}, {o}, PoolOptions(fh, fw, sh, sw, same));
    if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
    std::string e = it.Invoke({i});
    if (!e.empty()) c.fail("%s", e.c_str());
    c.label("pool");
    c.nontrivial(true);
  }
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
