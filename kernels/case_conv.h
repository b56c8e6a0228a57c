#pragma once
#include "gen.h"

// K03, K04, K05: LceBconv2d with float, int8 and packed output.
// One convolution through every implementation that supports it.
static void ConvProperty(Ctx& c, TfLiteType out, long budget) {
  Conv v = GenConv(c, out, budget);
  Post p = GenPost(c, v, out);
  c.desc("%s out=%s", Describe(v).c_str(), TfLiteTypeGetName(out));
  if (out == kTfLiteInt8) c.desc(" scale=%g zp=%d", p.scale, p.zp);
  bool any = false;
  for (Impl impl : {kRef, kBgemm, kIndirect}) {
    if (!Supported(v, out, impl)) continue;
    any = true;
    Interp it(c.draw(1 << 20));
    ConvIds d = BuildConv(it, v, p, out, impl);
    if (impl == kBgemm) SetSchedule(c, it);
    if (it.Allocate() != kTfLiteOk) c.fail("%s refused a supported convolution: %s", kImplName[impl], it.log.c_str());
    Put(it, d.in, v.in.w);
    std::string e = it.Invoke({d.in});
    if (e.empty()) e = CheckConvOutput(it, d.out, v, p, out);
    if (!e.empty()) c.fail("%s: %s", kImplName[impl], e.c_str());
    c.label(kImplName[impl]);
  }
  if (!any) c.discard();
  if (v.same) c.label(v.pad_value ? "same_one" : "same_zero"); else c.label("valid");
  if (v.groups > 1) c.label("grouped");
  if (v.dh * v.dw > 1) c.label("dilated");
  if (v.cin % 32) c.label("partial word");
  if (v.act) c.label("activation");
  int sum, diff;
  v.At(0, 0, 0, 0, &sum, &diff);
  c.nontrivial(v.backtransform() > 1 && v.oh() * v.ow() * v.cout > 1);
}
