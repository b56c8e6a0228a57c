// Runs LCE's runtime kernels on the interpreter's tensors.
#ifndef VERIF_RUN_H_
#define VERIF_RUN_H_
#include "kernels/lite.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "mlir/src/mlirx.h"

namespace mx {
inline TfLiteType KindType(const string& k) {
  if (k == "f32") return kTfLiteFloat32;
  if (k == "i32") return kTfLiteInt32;
  if (k == "i1") return kTfLiteBool;
  if (k == "q8") return kTfLiteInt8;
  throw Problem{"the runtime has no " + k};
}
// `as`: type, shape and quantisation of the output. Operands of type none are absent.
// Throws what the kernel complains about.
inline T RunKernel(const TfLiteRegistration* reg, const vector<const T*>& in, const T& as, const vector<uint8_t>& options, const vector<bool>& constant = {}, uint64_t junk = 1) {
  lite::Interp it(junk);
  vector<int> ids, dynamic;
  for (size_t i = 0; i < in.size(); ++i) {
    const T& t = *in[i];
    if (t.k == "none") { ids.push_back(-1); continue; }
    vector<int> dims(t.s.begin(), t.s.end());
    bool is_const = i < constant.size() && constant[i];
    int id = it.AddTensor(KindType(t.k), dims, is_const ? kTfLiteMmapRo : kTfLiteArenaRw, t.k == "q8" ? (float)t.scale : 0.f, t.k == "q8" ? (int)t.zp : 0, t.k == "q8");
    ids.push_back(id);
    if (!is_const) dynamic.push_back(id);
  }
  vector<int> od(as.s.begin(), as.s.end());
  int out = it.AddTensor(KindType(as.k), od, kTfLiteArenaRw, as.k == "q8" ? (float)as.scale : 0.f, as.k == "q8" ? (int)as.zp : 0, as.k == "q8");
  auto fill = [&](bool consts) {
    for (size_t i = 0; i < in.size(); ++i) {
      if (ids[i] < 0 || (it.T(ids[i]).allocation_type == kTfLiteMmapRo) != consts) continue;
      for (size_t k = 0; k < in[i]->v.size(); ++k) {
        double v = in[i]->v[k];
        if (in[i]->k == "f32") it.Data<float>(ids[i])[k] = (float)v;
        else if (in[i]->k == "i32") it.Data<int32_t>(ids[i])[k] = (int32_t)v;
        else it.Data<int8_t>(ids[i])[k] = (int8_t)v;
      }
    }
  };
  fill(true);
  it.AddNode(reg, ids, {out}, options);
  if (it.Allocate() != kTfLiteOk) throw Problem{"the runtime refuses: " + it.log};
  fill(false);
  string e = it.Invoke(dynamic);
  if (!e.empty()) throw Problem{"runtime: " + e + " " + it.log};
  T r;
  r.k = as.k;
  r.scale = as.scale;
  r.zp = as.zp;
  for (int d : it.Dims(out)) r.s.push_back(d);
  int64_t n = Count(r.s);
  for (int64_t i = 0; i < n; ++i)
    r.v.push_back(r.k == "f32" ? (double)it.Data<float>(out)[i] : r.k == "i32" ? (double)it.Data<int32_t>(out)[i] : (double)it.Data<int8_t>(out)[i]);
  Interp::Fill(r);
  return r;
}
// A custom operator, resolved by its name and run with its options.
inline vector<T> RunCustom(mlir::Operation* o, const vector<const T*>& in, bool reference, bool indirect, uint64_t junk) {
  tflite::MutableOpResolver r;
  compute_engine::tflite::RegisterLCECustomOps(&r, reference, indirect);
  auto op = mlir::cast<mlir::TFL::CustomOp>(o);
  const TfLiteRegistration* reg = r.FindOp(op.getCustomCode().str().c_str(), 1);
  if (!reg) throw Problem{"no operator " + op.getCustomCode().str() + " is registered"};
  auto opt = op.getCustomOption().getValue();
  vector<bool> constant;
  for (auto v : o->getOperands()) constant.push_back(v.getDefiningOp() && v.getDefiningOp()->hasTrait<mlir::OpTrait::ConstantLike>());
  if (o->getNumResults() != 1) throw Problem{"results of a custom operator"};
  T as = Interp::TypeOf(o->getResult(0).getType());
  for (auto& d : as.s) if (d < 0) d = 1;
  // The output type of Dequantize has to be known; of the others it follows in Prepare.
  if (op.getCustomCode() != "LceDequantize") as.s = {0};
  if (op.getCustomCode() == "LceQuantize") as.s = in[0]->s;
  if (op.getCustomCode() == "LceDequantize") { int64_t c = as.s.back(); as.s = in[0]->s; as.s.back() = c; }
  return {RunKernel(reg, in, as, vector<uint8_t>(opt.begin(), opt.end()), constant, junk)};
}
}  // namespace mx
#endif
