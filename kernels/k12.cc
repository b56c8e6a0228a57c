#include "gen.h"

// K12 registration
PBT_PROPERTY(K12) {
  bool ref = c.coin(), indirect = c.coin(), dflt = !ref && !indirect && c.coin();
  // What the resolver resolves is run, and identified by what it accepts.
  c.desc("ref=%d indirect=%d default_args=%d", ref, indirect, dflt);
  tflite::MutableOpResolver r;
  if (dflt) lce::RegisterLCECustomOps(&r); else if (!indirect && c.coin()) lce::RegisterLCECustomOps(&r, ref); else lce::RegisterLCECustomOps(&r, ref, indirect);
  if (r.custom_.size() != 4) c.fail("%zu operators registered instead of 4", r.custom_.size());
  const TfLiteRegistration *conv = r.FindOp("LceBconv2d", 1), *q = r.FindOp("LceQuantize", 1), *dq = r.FindOp("LceDequantize", 1), *pool = r.FindOp("LceBMaxPool2d", 1);
  if (!conv || !q || !dq || !pool) c.fail("an operator is missing");
  Impl want = ref ? kRef : indirect ? kIndirect : kBgemm;
  TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
  Conv v = GenConv(c, out, 8000);
  Post p = GenPost(c, v, out);
  c.desc(" %s out=%s", Describe(v).c_str(), TfLiteTypeGetName(out));
  // The implementation is recognised by its behaviour: which convolutions it
  // accepts, and whether it goes through the GEMM library.
  Interp it(c.draw(1 << 20));
  int in = it.AddTensor(kTfLiteFloat32, {v.b, v.h, v.w, v.cin}, kTfLiteArenaRw);
  int x = it.AddTensor(kTfLiteInt32, {1, 1, 1, 1}, kTfLiteArenaRw);
  it.AddNode(q, {in}, {x}, {});
  int f = it.AddConst<int32_t>(kTfLiteInt32, {v.cout, v.fh, v.fw, v.filter.words}, v.filter.w);
  int m = -1, b = -1, t = -1;
  if (out == kTfLiteInt32) t = it.AddConst<int32_t>(kTfLiteInt32, {v.cout}, p.thr);
  else { m = it.AddConst<float>(kTfLiteFloat32, {v.cout}, p.mul); b = it.AddConst<float>(kTfLiteFloat32, {v.cout}, p.bias); }
  int o = out == kTfLiteInt8 ? it.AddTensor(out, {0}, kTfLiteArenaRw, p.scale, p.zp, true) : it.AddTensor(out, {0}, kTfLiteArenaRw);
  it.AddNode(conv, {x, f, m, b, t}, {o}, ConvOptions(v));
  TfLiteStatus s = it.Allocate();
  bool ok = Supported(v, out, want);
  if (ok != (s == kTfLiteOk)) c.fail("the registered convolution %s this operator, unlike the %s implementation", s == kTfLiteOk ? "accepts" : "refuses", kImplName[want]);
  if (ok) {
    vector<float> data((size_t)v.in.rows * v.cin);
    for (int i = 0; i < v.in.rows; ++i) for (int k = 0; k < v.cin; ++k) data[(size_t)i * v.cin + k] = v.in.get(i, k) ? -0.5f : 2.0f;
    Put(it, in, data);
    std::string e = it.Invoke({in});
    if (e.empty()) e = CheckConvOutput(it, o, v, p, out);
    if (!e.empty()) c.fail("%s", e.c_str());
    bool gemm = it.backend.ruy_context()->ctx()->kernel_calls > 0;
    if (gemm != (want == kBgemm)) c.fail("the registered convolution %s the GEMM library, unlike the %s implementation", gemm ? "uses" : "does not use", kImplName[want]);
    // packed round trip and pooling through the registered operators
    Interp jt(c.draw(1 << 20));
    int y = jt.AddTensor(kTfLiteInt32, {v.b, v.h, v.w, v.in.words}, kTfLiteArenaRw), z = jt.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
    int full = jt.AddTensor(kTfLiteFloat32, {v.b, v.h, v.w, v.cin}, kTfLiteArenaRw);
    jt.AddNode(pool, {y}, {z}, PoolOptions(1, 1, 1, 1, true));
    jt.AddNode(dq, {z}, {full}, {});
    // The pooled tensor takes its shape in Prepare.
    if (jt.Allocate() != kTfLiteOk) c.fail("refused: %s", jt.log.c_str());
    Put(jt, y, v.in.w);
    e = jt.Invoke({y});
    if (!e.empty()) c.fail("%s", e.c_str());
    for (int i = 0; i < v.in.rows; ++i)
      for (int k = 0; k < v.cin; ++k)
        if (jt.Data<float>(full)[(size_t)i * v.cin + k] != (v.in.get(i, k) ? -1.0f : 1.0f)) c.fail("pool + dequantize");
  }
  c.label(kImplName[want]);
  if (!ok) c.label("refused");
  c.nontrivial(true);
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
