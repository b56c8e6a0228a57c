#pragma once
#include "gen.h"

// K07: a convolution with one thing broken (or nothing), by the operators that Reg() gives.
static void RefuseCase(Ctx& c) {
  TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
  Conv v = GenConv(c, out, 20000);
  Post p = GenPost(c, v, out);
  Impl impl = c.pick({kRef, kBgemm, kIndirect});
  c.desc("%s out=%s %s", Describe(v).c_str(), TfLiteTypeGetName(out), kImplName[impl]);
  // Describe the operator explicitly, then break one thing (or nothing).
  vector<int> in_dims{v.b, v.h, v.w, v.in.words}, f_dims{v.cout, v.fh, v.fw, v.filter.words}, m_dims{v.cout}, b_dims{v.cout}, t_dims{v.cout};
  TfLiteType in_t = kTfLiteInt32, f_t = kTfLiteInt32, m_t = kTfLiteFloat32, b_t = kTfLiteFloat32, t_t = kTfLiteInt32, o_t = out;
  TfLiteAllocationType in_alloc = kTfLiteArenaRw;
  std::map<std::string, int> opts{{"channels_in", v.cin}, {"dilation_height_factor", v.dh}, {"dilation_width_factor", v.dw}, {"fused_activation_function", v.act},
                                  {"pad_values", v.pad_value}, {"padding", v.same ? 0 : 1}, {"stride_height", v.sh}, {"stride_width", v.sw}};
  bool affine = out == kTfLiteInt8, expect_ok = Supported(v, out, impl);
  int n_inputs = 5;
  const TfLiteType other[] = {kTfLiteUInt8, kTfLiteInt64, kTfLiteInt16, kTfLiteBool, kTfLiteFloat16};
  auto bad_type = [&] { return other[c.draw(5)]; };
  auto other_len = [&] { int n = v.cout + (int)c.range(1, 3) * (c.coin() && v.cout > 3 ? -1 : 1); return n; };
  int how = (int)c.draw(16);
  const char* what = "nothing";
  switch (how) {
    case 0: what = "nothing"; break;
    case 1: {
      auto i = opts.begin();
      std::advance(i, (long)c.draw(opts.size()));
      c.desc(" missing %s", i->first.c_str());
      opts.erase(i);
      what = "missing attribute"; expect_ok = false; break;
    }
    case 2: opts["pad_values"] = c.pick({2, -1, 3, 7, 256, -2147483647}); what = "pad value"; expect_ok = false; break;
    case 3: if (c.coin()) in_dims.push_back(1); else in_dims.erase(in_dims.begin()); what = "input rank"; expect_ok = false; break;
    case 4: if (c.coin()) f_dims.push_back(1); else f_dims.erase(f_dims.begin()); what = "filter rank"; expect_ok = false; break;
    case 5: in_t = c.coin(30) ? kTfLiteFloat32 : bad_type(); what = "input type"; expect_ok = false; break;
    case 6: f_t = c.coin(30) ? kTfLiteInt8 : bad_type(); what = "filter type"; expect_ok = false; break;
    case 7: o_t = bad_type(); affine = false; what = "output type"; expect_ok = false; break;
    case 8:
      what = "length";
      if (out == kTfLiteInt32) t_dims = {other_len()};
      else if (c.coin()) m_dims = {other_len()};
      else b_dims = {other_len()};
      expect_ok = false; break;
    case 9:
      what = "rank of a post-activation operand";
      if (out == kTfLiteInt32) t_dims = {1, v.cout};
      else if (c.coin()) m_dims = {1, v.cout};
      else b_dims = {v.cout, 1};
      expect_ok = false; break;
    case 10:
      what = "type of a post-activation operand";
      if (out == kTfLiteInt32) t_t = c.coin() ? kTfLiteFloat32 : bad_type();
      else if (c.coin()) m_t = c.coin() ? kTfLiteInt32 : bad_type();
      else b_t = c.coin() ? kTfLiteInt32 : bad_type();
      expect_ok = false; break;
    case 11:
      if (out == kTfLiteInt8) { affine = false; what = "no affine quantization"; expect_ok = false; }
      break;
    case 12: {  // a filter depth that is no divisor of the packed input channels
      int words = (v.cin + 31) / 32, fd = (int)c.range(1, words + 3);
      if (fd == v.filter.words) break;
      f_dims[3] = fd;
      what = "filter depth";
      int g = words % fd == 0 ? words / fd : 0;
      int cpg = g ? v.cin / g : 0;
      expect_ok = fd == words || (g && impl != kBgemm && cpg % 32 == 0 && v.cout % g == 0);
      if (expect_ok) {
        Conv w = v;
        w.groups = g ? g : 1;
        expect_ok = Supported(w, out, impl);
      }
      break;
    }
    case 13: {  // groups of output channels
      if (v.groups == 1 || impl == kBgemm) break;
      int bad = v.cout + 1;
      f_dims[0] = bad; m_dims = b_dims = t_dims = {bad};
      what = "output channels per group"; expect_ok = false; break;
    }
    case 14:
      n_inputs = c.pick({4, 3, 6});
      what = "number of inputs"; expect_ok = false; break;
    case 15:
      if (impl == kIndirect) { in_alloc = kTfLiteDynamic; what = "dynamic input"; expect_ok = false; }
      break;
  }
  c.desc(" broken: %s", what);
  flexbuffers::Builder fb;
  fb.Map([&] { for (auto& kv : opts) fb.Int(kv.first.c_str(), kv.second); });
  fb.Finish();
  Interp it(c.draw(1 << 20));
  int in = it.AddTensor(in_t, in_dims, in_alloc);
  auto konst = [&](TfLiteType t, const vector<int>& dims) {
    int id = it.AddTensor(t, dims, kTfLiteMmapRo);
    memset(it.Data<char>(id), 0, it.T(id).bytes);
    return id;
  };
  int filter = konst(f_t, f_dims);
  bool thr = out == kTfLiteInt32;
  // When the output type is unsupported, give the operator every operand.
  int m = !thr || how == 7 ? konst(m_t, m_dims) : -1, bi = !thr || how == 7 ? konst(b_t, b_dims) : -1, t = thr || how == 7 ? konst(t_t, t_dims) : -1;
  int o = affine ? it.AddTensor(o_t, {0}, kTfLiteArenaRw, p.scale, p.zp, true) : it.AddTensor(o_t, {0}, kTfLiteArenaRw);
  vector<int> ins{in, filter, m, bi, t};
  while ((int)ins.size() < n_inputs) ins.push_back(t);
  ins.resize(n_inputs);
  it.AddNode(Reg(impl), ins, {o}, fb.GetBuffer());
  TfLiteStatus s = it.Allocate();
  if (expect_ok && s != kTfLiteOk) c.fail("a supported operator was refused: %s", it.log.c_str());
  if (!expect_ok && s == kTfLiteOk) c.fail("an unsupported operator was accepted");
  if (!expect_ok && it.log.empty()) c.fail("the operator was refused without an error message");
  if (s == kTfLiteOk) {
    memset(it.Data<char>(in), 0, it.T(in).bytes);
    std::string e = it.Invoke({in});
    if (!e.empty()) c.fail("%s", e.c_str());
  }
  c.label(what);
  c.label(expect_ok ? "accepted" : "refused");
  c.nontrivial(!expect_ok);
}
