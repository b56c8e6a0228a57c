// K16 interpreters on different threads do not disturb each other.
// Every case runs in a process of its own (so that whatever is set up on first use is set up
// while several threads want it), built with ThreadSanitizer.
#include <poll.h>
#include <pthread.h>
#include <sys/wait.h>
#include <thread>
#include "gen.h"

namespace {
enum Kind { kConv, kPool, kQuant, kChain };
const char* kKindName[] = {"conv", "pool", "quantize", "chain"};

// A network of one or two operators and two sets of inputs, drawn before any thread starts.
struct Net {
  Kind kind;
  Conv v;  // conv, chain
  Post p;
  TfLiteType out = kTfLiteFloat32, type = kTfLiteFloat32;
  Impl impl = kRef;
  int b = 1, h = 1, w = 1, ch = 1, fh = 1, fw = 1, sh = 1, sw = 1;  // pool
  bool same = true;
  Packed bits[2];
  vector<int> dims;  // quantize, chain
  float scale = 1;
  int zp = 0;
  vector<char> raw[2];
};

Net GenNet(Ctx& c) {
  Net n;
  n.kind = (Kind)c.weighted({55, 10, 15, 20});
  if (n.kind == kConv || n.kind == kChain) {
    n.out = c.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32});
    n.v = GenConv(c, n.out, 4000);
    n.p = GenPost(c, n.v, n.out);
    n.impl = c.pick({kIndirect, kBgemm, kRef});
    if (!Supported(n.v, n.out, n.impl)) {
      for (Impl i : {kIndirect, kRef, kBgemm}) if (Supported(n.v, n.out, i)) { n.impl = i; break; }
      if (!Supported(n.v, n.out, n.impl)) c.discard();
    }
    n.bits[0] = n.v.in;
    n.bits[1] = Packed(n.v.in.rows, n.v.in.cols);
    FillBits(c, &n.bits[1]);
    n.dims = {n.v.b, n.v.h, n.v.w, n.v.cin};
    c.desc(" [%s %s %s out=%s]", kKindName[n.kind], kImplName[n.impl], Describe(n.v).c_str(), TfLiteTypeGetName(n.out));
  } else if (n.kind == kPool) {
    n.b = (int)c.range(1, 2); n.fh = (int)c.range(1, 3); n.fw = (int)c.range(1, 3); n.sh = (int)c.range(1, 3); n.sw = (int)c.range(1, 3);
    n.same = c.coin();
    n.h = n.fh + (int)c.range(0, 4); n.w = n.fw + (int)c.range(0, 4); n.ch = (int)c.range(1, 70);
    for (Packed& b : n.bits) { b = Packed(n.b * n.h * n.w, n.ch); FillBits(c, &b); }
    c.desc(" [pool %dx%dx%dx%d filter %dx%d stride %dx%d]", n.b, n.h, n.w, n.ch, n.fh, n.fw, n.sh, n.sw);
  } else {
    n.dims = GenShape(c, 1, 500);
  }
  if (n.kind == kQuant || n.kind == kChain) {
    n.type = c.pick({kTfLiteFloat32, kTfLiteInt8});
    if (n.kind == kQuant && c.coin(20)) n.type = kTfLiteBool;
    if (n.type == kTfLiteInt8) { n.scale = c.pick({1.0f, 0.5f, 0.25f}); n.zp = (int)c.range(0, 40) - 20; }
    long count = Count(n.dims);
    for (int i = 0; i < 2; ++i) {
      pbt::Rng r = c.bulk();
      n.raw[i].resize(count * lite::TypeSize(n.type));
      FillTyped(r, n.type, n.raw[i].data(), count, n.zp, c.coin());
      Packed b((int)(count / n.dims.back()), n.dims.back());
      for (long k = 0; k < count; ++k) b.set((int)(k / n.dims.back()), (int)(k % n.dims.back()), SignBit(n.type, n.raw[i].data(), k, n.zp));
      n.bits[i] = b;
    }
    c.desc(" [%s %s %s]", kKindName[n.kind], TfLiteTypeGetName(n.type), ShapeStr(n.dims).c_str());
  }
  return n;
}

// One interpreter with a network in it.
struct Run {
  const Net& n;
  Interp it;
  int in = -1, mid = -1, out = -1;
  vector<std::pair<int, const void*>> consts;

  Run(const Net& net, uint64_t junk, const ruy::Schedule& s, const Run* like) : n(net), it(junk) {
    it.backend.ruy_context()->ctx()->schedule = s;
    if (n.kind == kConv) {
      ConvIds d = BuildConv(it, n.v, n.p, n.out, n.impl);
      in = d.in; out = d.out;
    } else if (n.kind == kChain) {
      in = it.AddTensor(n.type, n.dims, kTfLiteArenaRw, n.scale, n.zp, n.type == kTfLiteInt8);
      mid = it.AddTensor(kTfLiteInt32, {1, 1, 1, 1}, kTfLiteArenaRw);
      it.AddNode(RegQuantize(), {in}, {mid}, {});
      int f = it.AddConst<int32_t>(kTfLiteInt32, {n.v.cout, n.v.fh, n.v.fw, n.v.filter.words}, n.v.filter.w), m = -1, b = -1, t = -1;
      if (n.out == kTfLiteInt32) t = it.AddConst<int32_t>(kTfLiteInt32, {n.v.cout}, n.p.thr);
      else { m = it.AddConst<float>(kTfLiteFloat32, {n.v.cout}, n.p.mul); b = it.AddConst<float>(kTfLiteFloat32, {n.v.cout}, n.p.bias); }
      out = n.out == kTfLiteInt8 ? it.AddTensor(n.out, {0}, kTfLiteArenaRw, n.p.scale, n.p.zp, true) : it.AddTensor(n.out, {0}, kTfLiteArenaRw);
      it.AddNode(Reg(n.impl), {mid, f, m, b, t}, {out}, ConvOptions(n.v));
    } else if (n.kind == kPool) {
      in = it.AddTensor(kTfLiteInt32, {n.b, n.h, n.w, n.bits[0].words}, kTfLiteArenaRw);
      out = it.AddTensor(kTfLiteInt32, {0}, kTfLiteArenaRw);
      it.AddNode(RegPool(), {in}, {out}, PoolOptions(n.fh, n.fw, n.sh, n.sw, n.same));
    } else {
      in = it.AddTensor(n.type, n.dims, kTfLiteArenaRw, n.scale, n.zp, n.type == kTfLiteInt8);
      out = it.AddTensor(kTfLiteInt32, vector<int>(n.dims.size(), 1), kTfLiteArenaRw);
      it.AddNode(RegQuantize(), {in}, {out}, {});
      back = it.AddTensor(n.type, n.dims, kTfLiteArenaRw, n.scale, n.zp, n.type == kTfLiteInt8);
      it.AddNode(RegDequantize(), {out}, {back}, {});
    }
    // Interpreters of one model share its constants.
    if (like)
      for (int i = 0; i < (int)it.context()->tensors_size; ++i)
        if (it.T(i).allocation_type == kTfLiteMmapRo) it.T(i).data.raw = const_cast<Interp&>(like->it).T(i).data.raw;
  }
  std::string Invoke(int k) {
    if (n.kind == kQuant || n.kind == kChain) Put(it, in, n.raw[k]);
    else Put(it, in, n.bits[k].w);
    std::string e = it.Invoke({in});
    if (!e.empty()) return e;
    if (n.kind == kConv || n.kind == kChain) {
      Conv v = n.v;
      v.in = n.bits[k];
      return CheckConvOutput(it, out, v, n.p, n.out);
    }
    Packed want = n.bits[k];
    if (n.kind == kPool) {
      int oh, ow;
      want = PoolModel(n.bits[k], n.b, n.h, n.w, n.fh, n.fw, n.sh, n.sw, n.same, &oh, &ow);
    }
    if (it.Raw(out).size() != want.w.size() * 4 || memcmp(it.Data<char>(out), want.w.data(), want.w.size() * 4) != 0) return "packed output differs";
    if (n.kind == kQuant && n.type == kTfLiteFloat32)
      for (long i = 0, c = Count(n.dims); i < c; ++i)
        if (it.Data<float>(back)[i] != (want.get((int)(i / n.dims.back()), (int)(i % n.dims.back())) ? -1.0f : 1.0f)) return "dequantized output differs";
    return "";
  }
  int back = -1;
};

struct Step { int what; int data; };  // 0 allocate, 1 invoke
}  // namespace

PBT_PROPERTY(K16) {
  int threads = (int)c.range(2, 4);
  vector<Net> nets;
  vector<int> of(threads);      // which network a job runs
  vector<uint64_t> junk(threads);
  vector<ruy::Schedule> sched(threads);
  for (int t = 0; t < threads; ++t) {
    of[t] = t && c.coin(50) ? (int)c.draw(nets.size()) : -1;
    if (of[t] < 0) { of[t] = (int)nets.size(); nets.push_back(GenNet(c)); }
    else c.desc(" [as %d]", of[t]);
    junk[t] = c.draw(1ull << 20);
    sched[t].whole = !c.coin(40);
    sched[t].threads = c.coin(30) ? (int)c.range(1, 3) : 1;
    sched[t].seed = c.draw(1 << 20);
  }
  // Phases: in phase k, thread t works on interpreter (t + rot[k]) % threads.
  int phases = (int)c.range(2, 5);
  vector<int> rot(phases);
  vector<vector<Step>> steps(phases, vector<Step>(threads));
  bool moved = false;
  for (int k = 0; k < phases; ++k) {
    rot[k] = k && c.coin(30) ? (int)c.draw(threads) : 0;
    moved = moved || rot[k];
    for (int t = 0; t < threads; ++t) {
      steps[k][t] = {k && !c.coin(15) ? 1 : 0, (int)c.draw(2)};
    }
    c.desc(" phase(+%d", rot[k]);
    for (auto& s : steps[k]) c.desc(" %s", s.what ? s.data ? "b" : "a" : "prepare");
    c.desc(")");
  }
  bool in_threads = c.coin(70);  // whether the interpreters are made on the threads as well

  int fd[2];
  if (pipe(fd) != 0) { perror("pipe"); exit(3); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    dup2(fd[1], 2);
    close(fd[0]);
    alarm(120);
    vector<std::unique_ptr<Run>> runs(threads);
    vector<const Run*> first(nets.size(), nullptr);
    vector<std::unique_ptr<Run>> shared(nets.size());
    // Who holds the constants of a model: an interpreter that does nothing else.
    auto make = [&](int j) { runs[j] = std::make_unique<Run>(nets[of[j]], junk[j], sched[j], shared[of[j]].get()); };
    vector<int> uses(nets.size(), 0);
    for (int j : of) uses[j]++;
    if (!in_threads) {
      for (size_t i = 0; i < nets.size(); ++i)
        if (uses[i] > 1) shared[i] = std::make_unique<Run>(nets[i], 1, ruy::Schedule(), nullptr);
      for (int j = 0; j < threads; ++j) make(j);
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, threads);
    vector<std::string> err(threads);
    vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        for (int k = 0; k < phases; ++k) {
          pthread_barrier_wait(&bar);
          if (!err[t].empty()) continue;
          int j = (t + rot[k]) % threads;
          if (k == 0 && in_threads) make(j);
          const Step& s = steps[k][t];
          if (s.what == 0) {
            if (runs[j]->it.Allocate() != kTfLiteOk) err[t] = "refused: " + runs[j]->it.log;
          } else {
            err[t] = runs[j]->Invoke(s.data);
          }
          if (!err[t].empty()) err[t] = "thread " + std::to_string(t) + ", phase " + std::to_string(k) + ": " + err[t];
        }
      });
    for (auto& t : ts) t.join();
    int rc = 0;
    for (auto& e : err)
      if (!e.empty()) { fprintf(stderr, "%s\n", e.c_str()); rc = 1; break; }
    runs.clear();
    shared.clear();
    fflush(stderr);
    _exit(rc);
  }
  close(fd[1]);
  std::string log;
  char buf[4096];
  ssize_t got;
  while ((got = read(fd[0], buf, sizeof buf)) > 0)
    if (log.size() < 3000) log.append(buf, got);
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (log.size() > 1800) log.resize(1800);
    c.fail("%s %d: %s", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), log.c_str());
  }
  for (auto& n : nets) c.label(kKindName[n.kind]);
  if ((int)nets.size() < threads) c.label("shared constants");
  if (moved) c.label("moved between threads");
  c.label(std::to_string(threads) + " threads");
  c.nontrivial();
}

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
