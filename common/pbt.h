// A small property-based testing engine. A generated case is a function of a
// sequence of choices (bounded integers): random generation records the choices,
// shrinking edits the sequence (towards shorter and smaller), and a replay file
// is the sequence itself. The process runs many cases; the sequence under test is
// always in a memory-mapped file, so that a crash leaves its reproduction behind.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Failure { std::string msg; };
struct Discard {};

struct Live {  // the choices being tested, in shared memory
  static constexpr size_t kCap = 1 << 16;
  uint64_t* p = nullptr;  // p[0] = count, p[1..] = choices
  void Open(const char* path) {
    int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, (kCap + 1) * 8) != 0) { perror(path); exit(3); }
    p = (uint64_t*)mmap(nullptr, (kCap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  void Reset() { if (p) p[0] = 0; }
  void Push(uint64_t v) { if (p && p[0] < kCap) { p[p[0] + 1] = v; p[0]++; } }
};

class Ctx {
 public:
  // -- drawing. All shrink towards 0 / the low end / the first alternative.
  uint64_t draw(uint64_t n) {  // in [0, n)
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (n != 0 && v >= n) v = n - 1;
      pos_++;
    } else {
      v = n == 0 ? rng_.next() : rng_.below(n);
    }
    out_.push_back(v);
    if (live_) live_->Push(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  bool coin(int percent = 50) { return draw(100) >= (uint64_t)(100 - percent); }
  template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  // index by weights; shrinks to index 0
  int weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w) total += x;
    int r = (int)draw(total), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
  }
  // a size that is usually small
  int64_t size(int64_t lo, int64_t hi) {
    int64_t h = hi;
    switch (draw(4)) { case 0: h = lo + (hi - lo) / 8; break; case 1: h = lo + (hi - lo) / 3; break; default: break; }
    return range(lo, h);
  }
  Rng bulk() { return Rng(draw(1ull << 32) * 0x9E37u + 17); }  // for filling big arrays

  // -- reporting
  void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    desc_ += buf;
  }
  void text(const std::string& s) { desc_ += s; }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string& l) { labels_.insert(l); }
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Failure{buf};
  }
  [[noreturn]] void discard() { throw Discard{}; }
  bool thorough() const { return thorough_; }

  Ctx(uint64_t seed, Live* live) : rng_(seed), live_(live) {}
  Ctx(const std::vector<uint64_t>& in, Live* live) : rng_(0), replay_(true), in_(in), live_(live) {}

  Rng rng_;
  bool replay_ = false, nontrivial_ = false, thorough_ = false;
  std::vector<uint64_t> in_, out_;
  size_t pos_ = 0;
  std::string desc_;
  std::set<std::string> labels_;
  Live* live_;
};

using Prop = std::function<void(Ctx&)>;
struct Entry { std::string name; Prop prop; };
inline std::vector<Entry>& Registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const char* n, Prop p) { Registry().push_back({n, p}); } };
#define PBT_PROPERTY(NAME) \
  static void NAME##_body(pbt::Ctx& c); \
  static pbt::Reg NAME##_reg(#NAME, NAME##_body); \
  static void NAME##_body(pbt::Ctx& c)

inline uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
  return h;
}
inline std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

// returns 0 pass, 1 fail, 2 discard
inline int RunOne(const Prop& p, Ctx& c, std::string* msg) {
  if (c.live_) c.live_->Reset();
  try {
    p(c);
    return 0;
  } catch (const Failure& f) {
    *msg = f.msg;
    return 1;
  } catch (const Discard&) {
    return 2;
  } catch (const std::exception& e) {
    *msg = std::string("exception: ") + e.what();
    return 1;
  }
}

inline int Main(int argc, char** argv) {
  std::string prop, live_path, stats_path, replay_path, out_path;
  uint64_t seed = 1;
  long cases = 1000;
  double secs = 20;
  bool thorough = false;
  int shrink_tries = 4000;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
    if (a == "--prop") prop = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--cases") cases = atol(next().c_str());
    else if (a == "--secs") secs = atof(next().c_str());
    else if (a == "--live") live_path = next();
    else if (a == "--stats") stats_path = next();
    else if (a == "--replay") replay_path = next();
    else if (a == "--out") out_path = next();
    else if (a == "--thorough") thorough = true;
    else if (a == "--list") { for (auto& e : Registry()) printf("%s\n", e.name.c_str()); return 0; }
  }
  const Prop* p = nullptr;
  for (auto& e : Registry()) if (e.name == prop) p = &e.prop;
  if (!p) { fprintf(stderr, "no such property: %s\n", prop.c_str()); return 3; }
  auto write_choices = [](const std::string& path, const std::vector<uint64_t>& v) {
    std::ofstream f(path);
    for (uint64_t x : v) f << x << "\n";
  };
  if (!replay_path.empty()) {
    std::ifstream f(replay_path);
    std::vector<uint64_t> in;
    std::string line;
    while (std::getline(f, line)) if (!line.empty() && line[0] != '#') in.push_back(strtoull(line.c_str(), 0, 10));
    Ctx c(in, nullptr);
    c.thorough_ = thorough;
    std::string msg;
    setvbuf(stdout, nullptr, _IONBF, 0);
    int r = RunOne(*p, c, &msg);
    printf("CASE %s\n", c.desc_.c_str());
    if (r == 1) printf("FAIL %s\n", msg.c_str());
    return r == 1 ? 1 : 0;
  }
  Live live;
  if (!live_path.empty()) live.Open(live_path.c_str());
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  long evals = 0, discards = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  int status = 0;
  std::string msg, fdesc;
  Rng seeder(seed * 0x2545F4914F6CDD1Dull + Hash(prop));
  for (long i = 0; i < cases && elapsed() < secs; ++i) {
    Ctx c(seeder.next(), live_path.empty() ? nullptr : &live);
    c.thorough_ = thorough;
    int r = RunOne(*p, c, &msg);
    if (r == 2) { discards++; continue; }
    evals++;
    if (c.nontrivial_) {
      nontrivial++;
      if (distinct.size() < 2000000) distinct.insert(Hash(c.desc_));
      if (samples.size() < 3 || (samples.size() < 6 && i % 97 == 0)) samples.push_back(c.desc_.substr(0, 600));
    }
    for (auto& l : c.labels_) labels[l]++;
    if (r == 1) {
      status = 1;
      fdesc = c.desc_;
      // Shrink: delete chunks, then minimise values; keep what still fails.
      std::vector<uint64_t> best = c.out_;
      int tries = 0;
      double limit = elapsed() + 20;
      auto still = [&](const std::vector<uint64_t>& v) {
        if (tries++ >= shrink_tries || elapsed() > limit) return false;
        Ctx k(v, live_path.empty() ? nullptr : &live);
        k.thorough_ = thorough;
        std::string m;
        if (RunOne(*p, k, &m) != 1) return false;
        best = k.out_;
        while (!best.empty() && best.back() == 0) best.pop_back();
        msg = m; fdesc = k.desc_;
        return true;
      };
      for (bool progress = true; progress && tries < shrink_tries;) {
        progress = false;
        for (size_t n = std::max<size_t>(1, best.size() / 2); n >= 1; n /= 2) {
          for (size_t at = 0; at + n <= best.size();) {
            std::vector<uint64_t> v(best);
            v.erase(v.begin() + at, v.begin() + at + n);
            if (still(v)) progress = true; else at += n;
          }
          if (n == 1) break;
        }
        for (size_t at = 0; at < best.size(); ++at) {
          if (best[at] == 0) continue;
          std::vector<uint64_t> v(best);
          v[at] = 0;
          if (still(v)) { progress = true; continue; }
          uint64_t lo = 0, hi = best[at];
          while (hi - lo > 1 && at < best.size() && best[at] == hi) {
            uint64_t mid = lo + (hi - lo) / 2;
            v = best; v[at] = mid;
            if (still(v)) { progress = true; hi = at < best.size() ? best[at] : 0; } else lo = mid;
          }
        }
      }
      if (!out_path.empty()) write_choices(out_path, best);
      break;
    }
  }
  if (!stats_path.empty()) {
    std::ofstream f(stats_path);
    f << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"nontrivial\":" << nontrivial
      << ",\"status\":" << status << ",\"message\":\"" << JsonEscape(msg) << "\",\"case\":\"" << JsonEscape(fdesc)
      << "\",\"secs\":" << elapsed() << ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) { f << (first ? "" : ",") << "\"" << JsonEscape(l.first) << "\":" << l.second; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { f << (first ? "" : ",") << "\"" << JsonEscape(s) << "\""; first = false; }
    f << "],\"distinct\":[";
    first = true;
    for (auto h : distinct) { f << (first ? "" : ",") << h; first = false; }
    f << "]}\n";
  }
  return status;
}
}  // namespace pbt
#endif
