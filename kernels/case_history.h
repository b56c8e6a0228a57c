// K08 histories of resizes, allocations, invocations, data and thread changes of a chain
// LceQuantize -> LceBconv2d (packed) -> [LceBMaxPool2d] -> LceBconv2d (float/int8/packed), by the operators that RegQuantize() and the others give.
#include "gen.h"

static void HistoryCase(Ctx& c) {
  Impl impl = c.pick({kIndirect, kBgemm, kRef});
  // layer 1
  Conv a = GenConv(c, kTfLiteInt32, 6000, false);
  if (impl == kBgemm && a.groups > 1) { a.groups = 1; a.filter = Packed(a.cout * a.fh * a.fw, a.cin); FillBits(c, &a.filter); }
  Post pa = GenPost(c, a, kTfLiteInt32);
  bool pool = c.coin(40);
  int pfh = (int)c.range(1, 3), pfw = (int)c.range(1, 3), psh = (int)c.range(1, 3), psw = (int)c.range(1, 3);
  bool psame = c.coin(70);
  // layer 2: takes layer 1's channels
  TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
  Conv z;
  z.cin = a.cout; z.cout = (int)c.range(1, 12);
  z.fh = (int)c.range(1, 3); z.fw = (int)c.range(1, 3); z.sh = (int)c.range(1, 2); z.sw = (int)c.range(1, 2);
  if (c.coin(25)) { z.dh = (int)c.range(1, 2); z.dw = (int)c.range(1, 2); }
  z.same = c.coin(75);
  z.pad_value = 1;
  if (out != kTfLiteInt32) z.act = c.weighted({60, 20, 20});
  if (z.same && out == kTfLiteFloat32 && z.act == 0 && c.coin(30) && z.cin % 2 == 0) z.pad_value = 0;
  z.filter = Packed(z.cout * z.fh * z.fw, z.cin);
  FillBits(c, &z.filter);
  Post pz = GenPost(c, z, out);
  // VALID windows need an input that holds one, in every layer.
  auto grow = [&] {
    for (;; a.h++) {
      int h = a.oh(); if (h < 1) continue;
      if (pool) h = model::Geometry(psame, h, pfh, psh, 1).out;
      if (h >= 1 && model::Geometry(z.same, h, z.fh, z.sh, z.dh).out >= 1) break;
    }
    for (;; a.w++) {
      int w = a.ow(); if (w < 1) continue;
      if (pool) w = model::Geometry(psame, w, pfw, psw, 1).out;
      if (w >= 1 && model::Geometry(z.same, w, z.fw, z.sw, z.dw).out >= 1) break;
    }
  };
  grow();
  Interp it(c.draw(1ull << 32));
  TfLiteType in_t = c.pick({kTfLiteFloat32, kTfLiteInt8});
  int zp = in_t == kTfLiteInt8 ? (int)c.range(0, 20) - 10 : 0;
  int x = it.AddTensor(in_t, {a.b, a.h, a.w, a.cin}, kTfLiteArenaRw, 0.5f, zp, in_t == kTfLiteInt8);
  int xq = it.AddTensor(kTfLiteInt32, {1, 1, 1, 1}, kTfLiteArenaRw);
  it.AddNode(RegQuantize(), {x}, {xq}, {});
  int f1 = it.AddConst<int32_t>(kTfLiteInt32, {a.cout, a.fh, a.fw, a.filter.words}, a.filter.w);
  // Post-processing parameters that are no constants may change before an allocation.
  bool vary = c.coin(30);
  vector<int> inputs{x};
  auto param = [&](TfLiteType t, int n) { inputs.push_back(it.AddTensor(t, {n}, kTfLiteArenaRw)); return inputs.back(); };
  int t1 = vary ? param(kTfLiteInt32, a.cout) : it.AddConst<int32_t>(kTfLiteInt32, {a.cout}, pa.thr);
  int y1 = it.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
  it.AddNode(Reg(impl), {xq, f1, -1, -1, t1}, {y1}, ConvOptions(a));
  int y2 = y1;
  if (pool) {
    y2 = it.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
    it.AddNode(RegPool(), {y1}, {y2}, PoolOptions(pfh, pfw, psh, psw, psame));
  }
  int f2 = it.AddConst<int32_t>(kTfLiteInt32, {z.cout, z.fh, z.fw, z.filter.words}, z.filter.w);
  int m2 = -1, b2 = -1, t2 = -1;
  if (out == kTfLiteInt32) t2 = vary ? param(kTfLiteInt32, z.cout) : it.AddConst<int32_t>(kTfLiteInt32, {z.cout}, pz.thr);
  else if (vary) { m2 = param(kTfLiteFloat32, z.cout); b2 = param(kTfLiteFloat32, z.cout); }
  else { m2 = it.AddConst<float>(kTfLiteFloat32, {z.cout}, pz.mul); b2 = it.AddConst<float>(kTfLiteFloat32, {z.cout}, pz.bias); }
  int o = out == kTfLiteInt8 ? it.AddTensor(out, {0}, kTfLiteArenaRw, pz.scale, pz.zp, true) : it.AddTensor(out, {0}, kTfLiteArenaRw);
  it.AddNode(Reg(impl), {y2, f2, m2, b2, t2}, {o}, ConvOptions(z));
  c.desc("%s: conv1 %s | pool=%d %dx%d/%dx%d %s | conv2 filter=%dx%d stride=%dx%d dilation=%dx%d %s cout=%d pad=%d out=%s |", kImplName[impl], Describe(a).c_str(), pool, pfh, pfw, psh, psw, psame ? "SAME" : "VALID", z.fh, z.fw, z.sh, z.sw, z.dh, z.dw, z.same ? "SAME" : "VALID", z.cout,
         z.pad_value, TfLiteTypeGetName(out));
  if (it.Allocate() != kTfLiteOk) c.fail("refused: %s", it.log.c_str());
  int steps = (int)c.range(2, 8), invocations = 0, reallocs = 0;
  long n = 0;
  vector<char> data;
  auto new_data = [&] {
    pbt::Rng r = c.bulk();
    n = (long)a.b * a.h * a.w * a.cin;
    data.assign(n * lite::TypeSize(in_t), 0);
    FillTyped(r, in_t, data.data(), n, zp, true);
  };
  new_data();
  bool resized = false, realloc_before = false, changed = false;
  for (int k = 0; k <= steps; ++k) {
    int op = k == steps ? 0 : vary ? c.weighted({45, 20, 5, 10, 20}) : c.weighted({45, 25, 15, 15});
    if (op == 1) {  // resize the graph input and allocate
      int ekh = (a.fh - 1) * a.dh + 1, ekw = (a.fw - 1) * a.dw + 1;
      a.b = (int)c.range(1, 2);
      a.h = (a.same ? 1 : ekh) + (int)c.range(0, 4);
      a.w = (a.same ? 1 : ekw) + (int)c.range(0, 4);
      grow();
      c.desc(" resize(%d,%d,%d)", a.b, a.h, a.w);
      it.Resize(x, {a.b, a.h, a.w, a.cin});
      if (it.Allocate() != kTfLiteOk) c.fail("refused after a resize: %s", it.log.c_str());
      new_data();
      resized = true;
    } else if (op == 2) {  // release the arena and allocate again: everything moves
      c.desc(" realloc");
      if (it.Allocate() != kTfLiteOk) c.fail("refused on re-allocation: %s", it.log.c_str());
      if (invocations) realloc_before = true;
      reallocs++;
    } else if (op == 3) {
      ruy::Schedule s;
      s.threads = (int)c.range(1, 4);
      s.whole = c.coin(30);
      s.seed = c.draw(1000);
      c.desc(" threads(%d)", s.threads);
      it.backend.ruy_context()->ctx()->schedule = s;
    } else if (op == 4) {
      c.desc(" parameters");
      pa.thr = GenPost(c, a, kTfLiteInt32).thr;
      Post q = GenPost(c, z, out);
      pz.mul = q.mul; pz.bias = q.bias; pz.thr = q.thr;
      if (it.Allocate() != kTfLiteOk) c.fail("refused on re-allocation: %s", it.log.c_str());
      if (invocations) realloc_before = changed = true;
      reallocs++;
    } else {
      if (c.coin(60)) new_data();
      c.desc(" invoke");
      Put(it, x, data);
      if (vary) {
        Put(it, t1, pa.thr);
        if (t2 >= 0) Put(it, t2, pz.thr);
        else { Put(it, m2, pz.mul); Put(it, b2, pz.bias); }
      }
      std::string e = it.Invoke(inputs);
      if (!e.empty()) c.fail("%s", e.c_str());
      invocations++;
      Conv l1 = a, l2 = z;
      l1.in = Packed(a.b * a.h * a.w, a.cin);
      for (long i = 0; i < n; ++i) l1.in.set((int)(i / a.cin), (int)(i % a.cin), SignBit(in_t, data.data(), i, zp));
      e = CheckConvOutput(it, y1, l1, pa, kTfLiteInt32);
      if (!e.empty()) c.fail("first convolution, invocation %d: %s", invocations, e.c_str());
      int oh = l1.oh(), ow = l1.ow();
      Packed mid(a.b * oh * ow, a.cout);
      for (int r = 0; r < mid.rows; ++r)
        for (int oc = 0; oc < a.cout; ++oc) {
          int sum, diff;
          l1.At(r / (oh * ow), r / ow % oh, r % ow, oc, &sum, &diff);
          mid.set(r, oc, diff > pa.thr[oc]);
        }
      l2.b = a.b; l2.h = oh; l2.w = ow;
      if (pool) {
        mid = PoolModel(mid, a.b, oh, ow, pfh, pfw, psh, psw, psame, &l2.h, &l2.w);
        vector<int> want{a.b, l2.h, l2.w, mid.words};
        if (it.Dims(y2) != want) c.fail("pool output shape %s", ShapeStr(it.Dims(y2)).c_str());
        if (memcmp(it.Data<int32_t>(y2), mid.w.data(), mid.w.size() * 4) != 0) c.fail("pool output differs in invocation %d", invocations);
      }
      l2.in = mid;
      e = CheckConvOutput(it, o, l2, pz, out);
      if (!e.empty()) c.fail("second convolution, invocation %d: %s", invocations, e.c_str());
    }
  }
  c.label(kImplName[impl]);
  if (resized) c.label("resized");
  if (changed) c.label("other parameters");
  if (realloc_before) c.label("re-allocated after an invocation");
  c.nontrivial(invocations >= 2 && (resized || reallocs));
}

