// A small, faithful-by-contract stand-in for ruy: packed matrix layouts, the
// packing callback, the kernel callback, the cache of pre-packed matrices, and a
// TrMul that splits the work into kernel-aligned blocks run in a chosen order on
// a chosen number of threads (real ruy picks these from cache sizes and cores).
#ifndef VERIF_MINI_RUY_H_
#define VERIF_MINI_RUY_H_
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include "ruy/check_macros.h"
#include "ruy/opt_set.h"
#include "ruy/platform.h"
#include "ruy/profiler/instrumentation.h"

namespace ruy {
// The C library keeps some of what it allocates for a thread (K17 does not count it).
inline thread_local int making_threads = 0;

enum class Order : std::uint8_t { kColMajor, kRowMajor };
enum class Side { kLhs = 0, kRhs = 1 };
enum class Path : std::uint8_t {
  kNone = 0, kStandardCpp = 0x2, kInternalStandardCppVariant1 = 0x4,
  kNeon = 0x10, kNeonDotprod = 0x20,
};
enum class Tuning { kA55ish, kX1, kGeneric, kAuto };
enum class CachePolicy : std::uint8_t { kNeverCache, kCacheIfLargeSpeedup, kCacheIfSignificantSpeedup, kAlwaysCache };

template <typename T> class SidePair {
 public:
  SidePair() : e_{} {}
  SidePair(const T& a, const T& b) : e_{a, b} {}
  const T& operator[](Side s) const { return e_[(int)s]; }
  T& operator[](Side s) { return e_[(int)s]; }
 private:
  T e_[2];
};

class Layout {
 public:
  int rows() const { return rows_; }
  int cols() const { return cols_; }
  int stride() const { return stride_; }
  Order order() const { return order_; }
  void set_rows(int v) { rows_ = v; }
  void set_cols(int v) { cols_ = v; }
  void set_stride(int v) { stride_ = v; }
  void set_order(Order v) { order_ = v; }
 private:
  int rows_ = 0, cols_ = 0, stride_ = 0;
  Order order_ = Order::kColMajor;
};
inline void MakeSimpleLayout(int rows, int cols, Order order, Layout* l) {
  l->set_rows(rows); l->set_cols(cols); l->set_order(order);
  l->set_stride(order == Order::kColMajor ? rows : cols);
}

template <typename Scalar> class Matrix {
 public:
  Scalar* data() { RUY_DCHECK(!const_); return data_; }
  const Scalar* data() const { return data_; }
  void set_data(Scalar* p) { data_ = p; const_ = false; }
  void set_data(const Scalar* p) { data_ = const_cast<Scalar*>(p); const_ = true; }
  const Layout& layout() const { return layout_; }
  Layout* mutable_layout() { return &layout_; }
  Scalar zero_point() const { return zp_; }
  void set_zero_point(Scalar v) { zp_ = v; }
  CachePolicy cache_policy() const { return cp_; }
  void set_cache_policy(CachePolicy v) { cp_ = v; }
 private:
  Scalar* data_ = nullptr;
  bool const_ = false;
  Layout layout_;
  Scalar zp_ = 0;
  CachePolicy cp_ = CachePolicy::kNeverCache;
};

struct MatLayout {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
};
struct KernelLayout {
  Order order = Order::kColMajor;
  std::uint8_t rows = 1, cols = 1;
};
struct PMatLayout {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
  KernelLayout kernel;
};
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const MatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsUnstrided(const MatLayout& l) { return l.stride == (IsColMajor(l) ? l.rows : l.cols); }

template <Order tOrder, int tRows, int tCols> struct FixedKernelLayout {
  static constexpr Order kOrder = tOrder;
  static constexpr int kRows = tRows;
  static constexpr int kCols = tCols;
};
template <Order o, int r, int c> constexpr Order FixedKernelLayout<o, r, c>::kOrder;
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kRows;
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kCols;
template <typename F> KernelLayout ToKernelLayout() {
  KernelLayout k;
  k.order = F::kOrder; k.rows = F::kRows; k.cols = F::kCols;
  return k;
}

namespace detail {
template <typename T> class ConstCheckingPtr {
 public:
  T* get() { RUY_DCHECK(!const_); return p_; }
  const T* get() const { return p_; }
  void set(T* p) { p_ = p; const_ = false; }
  void set(const T* p) { p_ = const_cast<T*>(p); const_ = true; }
  bool is_const() const { return const_; }
 private:
  T* p_ = nullptr;
  bool const_ = false;
};
}  // namespace detail

template <typename Scalar> struct Mat {
  detail::ConstCheckingPtr<Scalar> data;
  MatLayout layout;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
template <typename Scalar> struct PMat {
  using SumsType = std::int32_t;
  Scalar* data = nullptr;
  SumsType* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
struct EMat {
  void* data = nullptr;
  bool is_const = false;
  int elem_size = 0;
  MatLayout layout;
  std::int32_t zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
struct PEMat {
  void* data = nullptr;
  void* sums = nullptr;
  int elem_size = 0;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
inline int DataBytes(const PEMat& p) { return p.layout.stride * p.layout.cols * p.elem_size; }

template <typename S> EMat EraseType(const Mat<S>& m) {
  EMat r;
  r.data = const_cast<void*>(static_cast<const void*>(m.data.get()));
  r.is_const = m.data.is_const();
  r.elem_size = sizeof(S);
  r.layout = m.layout; r.zero_point = (std::int32_t)m.zero_point; r.cache_policy = m.cache_policy;
  return r;
}
template <typename S> Mat<S> UneraseType(const EMat& m) {
  Mat<S> r;
  if (m.is_const) r.data.set(static_cast<const S*>(m.data)); else r.data.set(static_cast<S*>(m.data));
  r.layout = m.layout; r.zero_point = (S)m.zero_point; r.cache_policy = m.cache_policy;
  return r;
}
template <typename S> PMat<S> UneraseType(const PEMat& m) {
  PMat<S> r;
  r.data = static_cast<S*>(m.data);
  r.sums = static_cast<std::int32_t*>(m.sums);
  r.layout = m.layout; r.zero_point = m.zero_point;
  return r;
}
inline MatLayout ToInternalLayout(const Layout& l) {
  MatLayout r;
  r.rows = l.rows(); r.cols = l.cols(); r.stride = l.stride(); r.order = l.order();
  return r;
}
template <typename S> Mat<S> ToInternal(const Matrix<S>& m) {
  Mat<S> r;
  r.data.set(m.data());
  r.layout = ToInternalLayout(m.layout()); r.zero_point = m.zero_point(); r.cache_policy = m.cache_policy();
  return r;
}
template <typename S> Mat<S> ToInternal(Matrix<S>& m) {
  Mat<S> r;
  r.data.set(m.data());
  r.layout = ToInternalLayout(m.layout()); r.zero_point = m.zero_point(); r.cache_policy = m.cache_policy();
  return r;
}
inline Order Transpose(Order o) { return o == Order::kColMajor ? Order::kRowMajor : Order::kColMajor; }
inline MatLayout Transpose(const MatLayout& l) {
  MatLayout r(l);
  r.order = Transpose(l.order);
  std::swap(r.rows, r.cols);
  return r;
}
template <typename S> Mat<S> Transpose(const Mat<S>& m) {
  Mat<S> r(m);
  r.layout = Transpose(m.layout);
  return r;
}

inline int Offset(const MatLayout& l, int row, int col) {
  int rs = l.order == Order::kColMajor ? 1 : l.stride;
  int cs = l.order == Order::kRowMajor ? 1 : l.stride;
  return row * rs + col * cs;
}
inline int Offset(const PMatLayout& l, int row, int col) {
  int row_outer = row & ~(l.kernel.rows - 1);
  int col_outer = col & ~(l.kernel.cols - 1);
  int rso = l.order == Order::kColMajor ? l.kernel.cols : l.stride;
  int cso = l.order == Order::kRowMajor ? l.kernel.rows : l.stride;
  int row_inner = row - row_outer, col_inner = col - col_outer;
  int rsi = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols;
  int csi = l.kernel.order == Order::kRowMajor ? 1 : l.kernel.rows;
  return row_outer * rso + col_outer * cso + row_inner * rsi + col_inner * csi;
}
template <typename S> const S* ElementPtr(const Mat<S>& m, int r, int c) { return m.data.get() + Offset(m.layout, r, c); }
template <typename S> S* ElementPtr(Mat<S>* m, int r, int c) { return m->data.get() + Offset(m->layout, r, c); }
template <typename S> S Element(const Mat<S>& m, int r, int c) { return *ElementPtr(m, r, c); }
template <typename S> const S* ElementPtr(const PMat<S>& m, int r, int c) { return m.data + Offset(m.layout, r, c); }
template <typename S> S* ElementPtr(PMat<S>* m, int r, int c) { return m->data + Offset(m->layout, r, c); }
template <typename S> S Element(const PMat<S>& m, int r, int c) { return *ElementPtr(m, r, c); }

// Generic packing: one element at a time, zero point outside of the source.
template <Path ThePath, typename Fixed, typename Scalar, typename PackedScalar, typename SumsType, Order SrcOrder>
struct PackImpl {
  static void Run(Tuning, const Mat<Scalar>& src, PMat<PackedScalar>* packed, int start_col, int end_col) {
    for (int col = start_col; col < end_col; ++col)
      for (int row = 0; row < packed->layout.rows; ++row) {
        PackedScalar v = (PackedScalar)packed->zero_point;
        if (col < src.layout.cols && row < src.layout.rows) v = (PackedScalar)Element(src, row, col);
        *ElementPtr(packed, row, col) = v;
      }
  }
};

using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*, const SidePair<int>&, const SidePair<int>&, EMat*);
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
static constexpr int kMaxMulParamsAlignment = alignof(std::max_align_t);
static constexpr int kMaxMulParamsSize = 128;

struct TrMulParams {
  SidePair<RunPackFn*> run_pack;
  SidePair<bool> is_prepacked;
  RunKernelFn* run_kernel = nullptr;
  Path path = Path::kNone;
  SidePair<EMat> src;
  EMat dst;
  SidePair<PEMat> packed_matrix;
  alignas(kMaxMulParamsAlignment) std::uint8_t mul_params_bytes[kMaxMulParamsSize];
};

inline int RoundUp(int v, int k) { return (v + k - 1) / k * k; }
namespace detail {
template <typename Scalar, typename PackedScalar>
void CreatePackedMatrix(Side side, const KernelLayout& kernel_layout, TrMulParams* params) {
  const EMat& src = params->src[side];
  PEMat* packed = &params->packed_matrix[side];
  packed->elem_size = sizeof(PackedScalar);
  packed->layout.order = Order::kColMajor;
  packed->layout.rows = RoundUp(src.layout.rows, kernel_layout.rows);
  packed->layout.cols = RoundUp(src.layout.cols, kernel_layout.cols);
  packed->layout.kernel = kernel_layout;
  int stride = packed->layout.rows;
  // Like ruy, avoid strides which are multiples of 1024 bytes.
  if (stride * (int)sizeof(PackedScalar) % 1024 == 0) stride += 64 / sizeof(PackedScalar);
  packed->layout.stride = stride;
  packed->zero_point = src.zero_point;
}
}  // namespace detail

struct Schedule {
  int threads = 1;
  bool whole = true;       // one call for the whole product
  std::uint64_t seed = 0;  // block sizes and order otherwise
  int max_blocks_per_side = 4;
};

class Allocator {
 public:
  void* Alloc(std::size_t n) {
    blocks_.emplace_back((char*)malloc(n ? n : 1));
    memset(blocks_.back(), 0xA5, n);
    return blocks_.back();
  }
  void FreeAll() {
    for (char* b : blocks_) free(b);
    blocks_.clear();
  }
  ~Allocator() { FreeAll(); }
 private:
  std::vector<char*> blocks_;
};

class Ctx {
 public:
  Allocator* GetMainAllocator() { return &alloc_; }
  Schedule schedule;
  struct CacheEntry { PEMat packed; std::unique_ptr<char[]> mem; };
  std::map<std::tuple<const void*, int, int, int, int, int, int, int, int>, CacheEntry> cache;
  int cache_hits = 0, kernel_calls = 0;
 private:
  Allocator alloc_;
};
class Context {
 public:
  Ctx* ctx() { return &ctx_; }
  void set_max_num_threads(int n) { ctx_.schedule.threads = n; }
  int max_num_threads() const { return const_cast<Context*>(this)->ctx_.schedule.threads; }
  void ClearPrepackedCache() { ctx_.cache.clear(); }
 private:
  Ctx ctx_;
};
inline Ctx* get_ctx(Context* c) { return c->ctx(); }
inline const Ctx* get_ctx(const Context* c) { return const_cast<Context*>(c)->ctx(); }

inline void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
  for (Side side : {Side::kLhs, Side::kRhs}) {
    PEMat& p = params->packed_matrix[side];
    const EMat& s = params->src[side];
    if (s.cache_policy == CachePolicy::kAlwaysCache) {
      auto key = std::make_tuple((const void*)s.data, s.layout.rows, s.layout.cols, s.layout.stride, (int)s.layout.order,
                                 p.layout.stride, (int)p.layout.kernel.rows, (int)p.layout.kernel.cols, (int)p.layout.kernel.order);
      auto it = ctx->cache.find(key);
      if (it == ctx->cache.end()) {
        Ctx::CacheEntry e;
        e.packed = p;
        e.mem.reset(new char[std::max(1, DataBytes(p))]);
        memset(e.mem.get(), 0x5A, DataBytes(p));
        e.packed.data = e.mem.get();
        params->run_pack[side](Tuning::kAuto, s, &e.packed, 0, e.packed.layout.cols);
        it = ctx->cache.emplace(key, std::move(e)).first;
      } else {
        ctx->cache_hits++;
      }
      p.data = it->second.packed.data;
      params->is_prepacked[side] = true;
    } else {
      p.data = ctx->GetMainAllocator()->Alloc(DataBytes(p));
      params->is_prepacked[side] = false;
    }
  }
}

inline void TrMul(Ctx* ctx, TrMulParams* params) {
  const Schedule sch = ctx->schedule;
  SidePair<int> rounded(params->packed_matrix[Side::kLhs].layout.cols, params->packed_matrix[Side::kRhs].layout.cols);
  std::uint64_t st = sch.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  auto rnd = [&st](std::uint64_t n) {
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    return n ? st % n : 0;
  };
  SidePair<std::vector<int>> bounds;
  for (Side side : {Side::kLhs, Side::kRhs}) {
    int k = params->packed_matrix[side].layout.kernel.cols;
    int units = rounded[side] / k;
    std::vector<int>& b = bounds[side];
    b.push_back(0);
    if (!sch.whole) {
      int want = 1 + (int)rnd(sch.max_blocks_per_side);
      for (int i = 1; i < want && units > 1; ++i) b.push_back((1 + (int)rnd(units - 1)) * k);
    }
    b.push_back(rounded[side]);
    std::sort(b.begin(), b.end());
    b.erase(std::unique(b.begin(), b.end()), b.end());
    if (b.size() < 2) return;  // an empty product
  }
  int nb_l = bounds[Side::kLhs].size() - 1, nb_r = bounds[Side::kRhs].size() - 1;
  std::vector<std::pair<int, int>> order;
  for (int i = 0; i < nb_l; ++i)
    for (int j = 0; j < nb_r; ++j) order.push_back({i, j});
  if (!sch.whole)
    for (int i = (int)order.size() - 1; i > 0; --i) std::swap(order[i], order[rnd(i + 1)]);
#if defined(__aarch64__) || defined(__arm__)  // emulated, on one thread
  struct Once { bool done = false; };
  auto call_once = [](Once& o, auto&& f) { if (!o.done) { o.done = true; f(); } };
#else
  using Once = std::once_flag;
  auto call_once = [](Once& o, auto&& f) { std::call_once(o, f); };
#endif
  SidePair<std::vector<Once>> once;
  once[Side::kLhs] = std::vector<Once>(nb_l);
  once[Side::kRhs] = std::vector<Once>(nb_r);
  std::atomic<int> next{0};
  auto work = [&]() {
    for (;;) {
      int n = next.fetch_add(1);
      if (n >= (int)order.size()) return;
      SidePair<int> blk(order[n].first, order[n].second), start, end;
      for (Side side : {Side::kLhs, Side::kRhs}) {
        start[side] = bounds[side][blk[side]];
        end[side] = bounds[side][blk[side] + 1];
        if (!params->is_prepacked[side])
          call_once(once[side][blk[side]], [&] {
            params->run_pack[side](Tuning::kAuto, params->src[side], &params->packed_matrix[side], start[side], end[side]);
          });
      }
      EMat dst = params->dst;
      params->run_kernel(Tuning::kAuto, params->packed_matrix, params->mul_params_bytes, start, end, &dst);
    }
  };
  ctx->kernel_calls += order.size();
  int nthreads = std::max(1, std::min(sch.threads, (int)order.size()));
#if defined(__aarch64__) || defined(__arm__)
  nthreads = 1;
#endif
  if (nthreads == 1) {
    work();
  } else {
#if !defined(__aarch64__) && !defined(__arm__)
    std::vector<std::thread> ts;
    making_threads++;
    for (int i = 0; i < nthreads; ++i) ts.emplace_back(work);
    making_threads--;
    for (auto& t : ts) t.join();
#endif
  }
}
}  // namespace ruy
#endif
