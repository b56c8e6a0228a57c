#include "gen.h"

// K06 independence of implementation, threads and memory
PBT_PROPERTY(K06) {
  TfLiteType out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
  Conv v = GenConv(c, out, 60000);
  Post p = GenPost(c, v, out);
  c.desc("%s out=%s", Describe(v).c_str(), TfLiteTypeGetName(out));
  bool zero_pad = v.same && v.pad_value == 0;
  Packed v2(v.in.rows, v.in.cols);
  FillBits(c, &v2);
  vector<char> first[2][2];  // with zero padding, the reference kernel adds in another order
  int runs = 0;
  for (Impl impl : {kRef, kBgemm, kIndirect}) {
    if (!Supported(v, out, impl)) continue;
    int variants = impl == kBgemm ? 3 : 2;
    for (int k = 0; k < variants; ++k) {
      Interp it(c.draw(1ull << 32));
      bool junk_weights_slack = true;
      (void)junk_weights_slack;
      ConvIds d = BuildConv(it, v, p, out, impl);
      if (impl == kBgemm) {
        ruy::Schedule s;
        s.whole = k == 0;
        s.threads = k == 2 ? (int)c.range(2, 8) : 1;
        s.seed = c.draw(1 << 20);
        s.max_blocks_per_side = (int)c.range(1, 6);
        it.backend.ruy_context()->ctx()->schedule = s;
        if (s.threads > 1) c.label("multi-threaded");
      }
      if (it.Allocate() != kTfLiteOk) c.fail("%s refused a supported convolution: %s", kImplName[impl], it.log.c_str());
      // x, then another input, then x again: nothing may be left over from a previous run.
      for (int again = 0; again < 3; ++again) {
        bool second = again == 1;
        Put(it, d.in, second ? v2.w : v.in.w);
        std::string e = it.Invoke({d.in});
        if (!e.empty()) c.fail("%s: %s", kImplName[impl], e.c_str());
        vector<char> raw = it.Raw(d.out);
        vector<char>& ref = first[zero_pad && impl == kRef][second];
        if (ref.empty()) ref = raw;
        else if (raw != ref) {
          size_t i = 0;
          while (i < raw.size() && i < ref.size() && raw[i] == ref[i]) ++i;
          c.fail("%s (variant %d, invocation %d) differs from the first run at byte %zu of %zu", kImplName[impl], k, again, i, raw.size());
        }
        runs++;
      }
    }
  }
  if (runs == 0) c.discard();
  c.label(TfLiteTypeGetName(out));
  c.nontrivial(runs > 2 && v.oh() * v.ow() * v.cout > 1);
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
