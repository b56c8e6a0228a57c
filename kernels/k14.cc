// K14: the benchmark program and the Java binding, compiled from /repo (the program's main
// as verif_main), run in a child process against stand-ins for TensorFlow Lite's tool.
#include <sys/wait.h>
#include <unistd.h>
#include "common/pbt.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/tools/benchmark/benchmark_tflite_model.h"
using pbt::Ctx;
int verif_main(int argc, char** argv);
namespace tflite { std::unique_ptr<OpResolver> CreateOpResolver(); }

struct Report { int runs, impl, threads, verbose; char graph[32], layer[32]; };
static int g_pipe = -1;
static int g_result = kTfLiteOk;
static Report g_report;

static bool Same(const TfLiteRegistration* a, const TfLiteRegistration* b) {
  return a && b && a->init == b->init && a->free == b->free && a->prepare == b->prepare && a->invoke == b->invoke;
}
// 0 default, 1 reference, 2 indirect, -1 anything else
static int Implementation(const tflite::MutableOpResolver& r) {
  using namespace compute_engine::tflite;
  if (r.custom_.size() != 4 || !Same(r.FindOp("LceQuantize", 1), Register_QUANTIZE()) || !Same(r.FindOp("LceDequantize", 1), Register_DEQUANTIZE()) ||
      !Same(r.FindOp("LceBMaxPool2d", 1), Register_BMAXPOOL_2D())) return -1;
  auto* c = r.FindOp("LceBconv2d", 1);
  return Same(c, Register_BCONV_2D_REF()) ? 1 : Same(c, Register_BCONV_2D_OPT_INDIRECT_BGEMM()) ? 2 : Same(c, Register_BCONV_2D()) ? 0 : -1;
}
TfLiteStatus verif_bench_run(const tflite::benchmark::BenchmarkParams& p, const tflite::MutableOpResolver& r) {
  ++g_report.runs;
  g_report.impl = Implementation(r);
  g_report.threads = p.Get<int>("num_threads");
  g_report.verbose = p.Get<bool>("verbose");
  snprintf(g_report.graph, sizeof g_report.graph, "%s", p.Get<std::string>("graph").c_str());
  snprintf(g_report.layer, sizeof g_report.layer, "%s", p.Get<std::string>("input_layer").c_str());
  return (TfLiteStatus)g_result;
}

PBT_PROPERTY(K14) {
  if (c.coin(3)) {
    c.desc("Java");
    std::unique_ptr<tflite::OpResolver> r = tflite::CreateOpResolver();
    auto* m = dynamic_cast<tflite::ops::builtin::BuiltinOpResolver*>(r.get());
    if (!m) c.fail("the resolver does not know TensorFlow Lite's operators");
    if (Implementation(*m) != 0) c.fail("the resolver has other LCE operators than the default ones");
    c.label("Java");
    return;
  }
  struct Arg { std::string text; };
  std::vector<std::string> args;
  Report want = {1, 0, -1, 0, "", ""};
  bool ref = false, ind = false, refused = false;
  auto flag = [&](bool* v, const char* name) {
    if (!c.coin(60)) return;
    int k = (int)c.weighted({25, 20, 25, 20, 5});
    *v = k == 2 || k == 3;
    if (k == 4) refused = true;
    args.push_back(std::string("--") + name + "=" + (k == 0 ? "false" : k == 1 ? "0" : k == 2 ? "true" : k == 3 ? "1" : c.coin() ? "" : "yes"));
  };
  bool verbose = false, help = false;
  flag(&ref, "use_reference_bconv");
  flag(&ind, "use_indirect_bgemm");
  if (c.coin(30)) flag(&verbose, "verbose");
  if (c.coin(4)) flag(&help, "help");
  if (c.coin(30)) { want.threads = (int)c.range(-1, 9); args.push_back("--num_threads=" + std::to_string(want.threads)); }
  if (c.coin(50)) { snprintf(want.graph, 32, "m%d.tflite", (int)c.range(0, 99)); args.push_back(std::string("--graph=") + want.graph); }
  if (c.coin(20)) { snprintf(want.layer, 32, "l%d", (int)c.range(0, 99)); args.push_back(std::string("--input_layer=") + want.layer); }
  for (size_t i = 0; i + 1 < args.size(); ++i) std::swap(args[i], args[i + c.draw(args.size() - i)]);
  want.impl = ref ? 1 : ind ? 2 : 0;
  want.verbose = verbose;
  refused = refused || help;
  g_result = c.coin(15) ? (int)c.range(1, 3) : kTfLiteOk;
  for (auto& a : args) c.desc("%s ", a.c_str());
  if (g_result) c.desc("(the run fails)");
  int fd[2];
  if (pipe(fd)) abort();
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    std::vector<char*> argv{(char*)"lce_benchmark_model"};
    for (auto& a : args) argv.push_back((char*)a.c_str());
    int n = (int)argv.size();
    argv.push_back(nullptr);
    int rc = verif_main(n, argv.data());
    if (write(fd[1], &g_report, sizeof g_report) != sizeof g_report) _exit(99);
    _exit(rc);
  }
  close(fd[1]);
  Report got = {};
  bool read_all = read(fd[0], &got, sizeof got) == sizeof got;
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || !read_all) c.fail("the program crashes");
  int rc = WEXITSTATUS(st);
  bool bad = refused || g_result != kTfLiteOk;
  if (bad != (rc != 0)) c.fail("the program exits with %d", rc);
  if (refused) {
    c.label("refused");
    if (got.runs) c.fail("it runs although its flags are refused");
    return;
  }
  static const char* kName[] = {"unknown", "default", "reference", "indirect"};
  if (got.runs != 1) c.fail("%d runs", got.runs);
  if (got.impl != want.impl) c.fail("the %s implementation runs instead of the %s", kName[got.impl + 1], kName[want.impl + 1]);
  if (got.threads != want.threads || got.verbose != want.verbose || strcmp(got.graph, want.graph) || strcmp(got.layer, want.layer)) c.fail("other flags of the tool are lost");
  c.label(kName[want.impl + 1]);
  c.nontrivial(ref || ind);
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
