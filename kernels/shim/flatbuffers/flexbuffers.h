// Binary compatible subset of FlexBuffers: maps and vectors of scalars/strings.
#ifndef VERIF_FLEXBUFFERS_H_
#define VERIF_FLEXBUFFERS_H_
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
#include "flatbuffers/base.h"
namespace flexbuffers {
enum BuilderFlag {
  BUILDER_FLAG_NONE = 0, BUILDER_FLAG_SHARE_KEYS = 1, BUILDER_FLAG_SHARE_STRINGS = 2, BUILDER_FLAG_SHARE_KEYS_AND_STRINGS = 3,
  BUILDER_FLAG_SHARE_KEY_VECTORS = 4, BUILDER_FLAG_SHARE_ALL = 7,
};
enum Type {
  FBT_NULL = 0, FBT_INT = 1, FBT_UINT = 2, FBT_FLOAT = 3, FBT_KEY = 4, FBT_STRING = 5,
  FBT_INDIRECT_INT = 6, FBT_INDIRECT_UINT = 7, FBT_INDIRECT_FLOAT = 8, FBT_MAP = 9, FBT_VECTOR = 10, FBT_BLOB = 25, FBT_BOOL = 26,
};
class Map;
namespace impl {
inline int64_t ReadInt(const uint8_t* p, uint8_t w) {
  switch (w) {
    case 1: return (int8_t)*p;
    case 2: { int16_t v; memcpy(&v, p, 2); return v; }
    case 4: { int32_t v; memcpy(&v, p, 4); return v; }
    default: { int64_t v; memcpy(&v, p, 8); return v; }
  }
}
inline uint64_t ReadUInt(const uint8_t* p, uint8_t w) {
  switch (w) {
    case 1: return *p;
    case 2: { uint16_t v; memcpy(&v, p, 2); return v; }
    case 4: { uint32_t v; memcpy(&v, p, 4); return v; }
    default: { uint64_t v; memcpy(&v, p, 8); return v; }
  }
}
inline double ReadDouble(const uint8_t* p, uint8_t w) {
  if (w == 4) { float v; memcpy(&v, p, 4); return v; }
  if (w == 8) { double v; memcpy(&v, p, 8); return v; }
  return 0;
}
}  // namespace impl

class Reference {
 public:
  Reference() : data_(nullptr), pw_(0), bw_(0), type_(FBT_NULL) {}
  Reference(const uint8_t* d, uint8_t parent_width, uint8_t byte_width, Type t) : data_(d), pw_(parent_width), bw_(byte_width), type_(t) {}
  Reference(const uint8_t* d, uint8_t parent_width, uint8_t packed) : data_(d), pw_(parent_width), bw_((uint8_t)(1u << (packed & 3))), type_((Type)(packed >> 2)) {}
  Type GetType() const { return type_; }
  bool IsNull() const { return type_ == FBT_NULL; }
  bool IsBool() const { return type_ == FBT_BOOL; }
  bool IsInt() const { return type_ == FBT_INT || type_ == FBT_INDIRECT_INT; }
  bool IsUInt() const { return type_ == FBT_UINT || type_ == FBT_INDIRECT_UINT; }
  bool IsIntOrUint() const { return IsInt() || IsUInt(); }
  bool IsFloat() const { return type_ == FBT_FLOAT || type_ == FBT_INDIRECT_FLOAT; }
  bool IsNumeric() const { return IsIntOrUint() || IsFloat(); }
  bool IsString() const { return type_ == FBT_STRING; }
  bool IsMap() const { return type_ == FBT_MAP; }
  int64_t AsInt64() const {
    switch (type_) {
      case FBT_INT: case FBT_BOOL: return impl::ReadInt(data_, pw_);
      case FBT_UINT: return (int64_t)impl::ReadUInt(data_, pw_);
      case FBT_FLOAT: return (int64_t)impl::ReadDouble(data_, pw_);
      case FBT_INDIRECT_INT: return impl::ReadInt(Indirect(), bw_);
      case FBT_INDIRECT_UINT: return (int64_t)impl::ReadUInt(Indirect(), bw_);
      case FBT_INDIRECT_FLOAT: return (int64_t)impl::ReadDouble(Indirect(), bw_);
      case FBT_STRING: return strtoll((const char*)Indirect(), nullptr, 10);
      default: return 0;
    }
  }
  int32_t AsInt32() const { return (int32_t)AsInt64(); }
  int16_t AsInt16() const { return (int16_t)AsInt64(); }
  int8_t AsInt8() const { return (int8_t)AsInt64(); }
  uint64_t AsUInt64() const { return (uint64_t)AsInt64(); }
  uint32_t AsUInt32() const { return (uint32_t)AsInt64(); }
  bool AsBool() const { return AsInt64() != 0; }
  double AsDouble() const {
    if (type_ == FBT_FLOAT) return impl::ReadDouble(data_, pw_);
    if (type_ == FBT_INDIRECT_FLOAT) return impl::ReadDouble(Indirect(), bw_);
    return (double)AsInt64();
  }
  float AsFloat() const { return (float)AsDouble(); }
  std::string ToString() const;
  inline Map AsMap() const;
  bool IsKey() const { return type_ == FBT_KEY; }
  bool IsVector() const { return type_ == FBT_VECTOR; }
  bool IsBlob() const { return type_ == FBT_BLOB; }
  inline class String AsString() const;
  template <typename T> T As() const { return AsNumber<T>(std::is_floating_point<T>()); }
 private:
  template <typename T> T AsNumber(std::true_type) const { return (T)AsDouble(); }
  template <typename T> T AsNumber(std::false_type) const { return (T)AsInt64(); }
  const uint8_t* Indirect() const { return data_ - impl::ReadUInt(data_, pw_); }
  const uint8_t* data_;
  uint8_t pw_, bw_;
  Type type_;
  friend class Map;
};

class String {
 public:
  String(const char* p, size_t n) : p_(p), n_(n) {}
  const char* c_str() const { return p_; }
  std::string str() const { return std::string(p_, n_); }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
 private:
  const char* p_;
  size_t n_;
};
inline class String Reference::AsString() const {
  if (type_ != FBT_STRING) return {"", 0};
  const uint8_t* p = Indirect();
  return {(const char*)p, (size_t)impl::ReadUInt(p - bw_, bw_)};
}
class Map {
 public:
  Map() : data_(nullptr), bw_(1) {}
  Map(const uint8_t* d, uint8_t bw) : data_(d), bw_(bw) {}
  size_t size() const { return data_ ? impl::ReadUInt(data_ - bw_, bw_) : 0; }
  size_t length() const { return size(); }
  bool IsTheEmptyMap() const { return size() == 0; }
  const char* KeyAt(size_t i) const {
    const uint8_t* kp = data_ - 3 * bw_;
    const uint8_t* keys = kp - impl::ReadUInt(kp, bw_);
    uint8_t kw = (uint8_t)impl::ReadUInt(kp + bw_, bw_);
    const uint8_t* e = keys + i * kw;
    return (const char*)(e - impl::ReadUInt(e, kw));
  }
  Reference ValueAt(size_t i) const {
    size_t n = size();
    if (i >= n) return Reference();
    uint8_t packed = data_[n * bw_ + i];
    return Reference(data_ + i * bw_, bw_, packed);
  }
  Reference operator[](const char* key) const {
    // Binary search, as FlexBuffers does: it relies on sorted keys.
    size_t lo = 0, hi = size();
    while (lo < hi) {
      size_t mid = (lo + hi) / 2;
      int c = strcmp(KeyAt(mid), key);
      if (c == 0) return ValueAt(mid);
      if (c < 0) lo = mid + 1; else hi = mid;
    }
    return Reference();
  }
  Reference operator[](const std::string& key) const { return (*this)[key.c_str()]; }
 private:
  const uint8_t* data_;
  uint8_t bw_;
};
inline Map Reference::AsMap() const {
  if (type_ != FBT_MAP) return Map();
  return Map(Indirect(), bw_);
}
inline Reference GetRoot(const uint8_t* buffer, size_t size) {
  if (buffer == nullptr || size < 3) return Reference();
  const uint8_t* end = buffer + size;
  uint8_t byte_width = *--end;
  uint8_t packed = *--end;
  end -= byte_width;
  return Reference(end, byte_width, packed);
}
inline Reference GetRoot(const std::vector<uint8_t>& b) { return GetRoot(b.data(), b.size()); }

// Builds one map of scalars (nesting is not needed here).
class Builder {
 public:
  explicit Builder(size_t = 256, BuilderFlag = BUILDER_FLAG_SHARE_KEYS) {}
  explicit Builder(BuilderFlag) {}
  size_t Key(const char* k) { key_ = k; return 0; }
  size_t Key(const char* k, size_t n) { key_ = std::string(k, n); return 0; }
  size_t Key(const std::string& k) { key_ = k; return 0; }
  void Null() { Add(key_.c_str(), FBT_NULL, 0, 0); }
  void Null(const char* k) { Add(k, FBT_NULL, 0, 0); }
  void Int(int64_t v) { Add(key_.c_str(), FBT_INT, v, 0); }
  void Int(const char* k, int64_t v) { Add(k, FBT_INT, v, 0); }
  void UInt(uint64_t v) { Add(key_.c_str(), FBT_UINT, (int64_t)v, 0); }
  void UInt(const char* k, uint64_t v) { Add(k, FBT_UINT, (int64_t)v, 0); }
  void Bool(bool v) { Add(key_.c_str(), FBT_BOOL, v, 0); }
  void Bool(const char* k, bool v) { Add(k, FBT_BOOL, v, 0); }
  void Float(float v) { Add(key_.c_str(), FBT_FLOAT, 0, v); }
  void Float(const char* k, float v) { Add(k, FBT_FLOAT, 0, v); }
  void Double(double v) { Add(key_.c_str(), FBT_FLOAT, 0, v); }
  void Double(const char* k, double v) { Add(k, FBT_FLOAT, 0, v); }
  size_t String(const char* k, const std::string& v) { Add(k, FBT_STRING, 0, 0, v); return 0; }
  size_t String(const std::string& v) { Add(key_.c_str(), FBT_STRING, 0, 0, v); return 0; }
  void Add(int64_t v) { Int(v); }
  void Add(const char* k, int64_t v) { Int(k, v); }
  size_t StartMap() { is_map_ = true; return 0; }
  size_t EndMap(size_t) { return 0; }
  template <typename F> size_t Map(F f) { is_map_ = true; f(); return 0; }
  template <typename F, typename T> size_t Map(F f, T& state) { is_map_ = true; f(state); return 0; }
  size_t GetSize() const { return buf_.size(); }
  void Finish();
  const std::vector<uint8_t>& GetBuffer() const { return buf_; }
  void Clear() { items_.clear(); buf_.clear(); }
 private:
  struct Item { std::string key; Type type; int64_t i; double d; std::string s; };
  void Add(const char* k, Type t, int64_t i, double d, const std::string& s = "") { items_.push_back({k, t, i, d, s}); }
  std::vector<Item> items_;
  std::string key_;
  bool is_map_ = false;
  std::vector<uint8_t> buf_;
};
inline void Builder::Finish() {
  buf_.clear();
  std::stable_sort(items_.begin(), items_.end(), [](const Item& a, const Item& b) { return strcmp(a.key.c_str(), b.key.c_str()) < 0; });
  std::vector<size_t> key_at, str_at;
  for (auto& it : items_) {
    key_at.push_back(buf_.size());
    buf_.insert(buf_.end(), it.key.begin(), it.key.end());
    buf_.push_back(0);
  }
  // Everything that follows uses one width for offsets and values; 8 bytes are
  // used as soon as a value needs them, else 4 (always enough for the offsets),
  // else 2 or 1 when small enough. This keeps every width exercised.
  int w = 1;
  auto need = [&](int64_t v) { while (w < 8 && (v < -(1ll << (8 * w - 1)) || v >= (1ll << (8 * w - 1)))) w *= 2; };
  size_t bytes = buf_.size();
  for (auto& it : items_) {
    if (it.type == FBT_INT || it.type == FBT_UINT) need(it.i);
    if (it.type == FBT_FLOAT) w = std::max(w, (double)(float)it.d == it.d ? 4 : 8);
    bytes += it.s.size() + 16;
  }
  while (w < 8 && bytes + (items_.size() + 8) * 2 * 8 + 64 >= (1ull << (8 * w))) w *= 2;
  const int lg = w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3;
  auto align = [&] { while (buf_.size() % w) buf_.push_back(0); };
  auto put = [&](uint64_t v) { for (int i = 0; i < w; ++i) buf_.push_back((uint8_t)(v >> (8 * i))); };
  for (auto& it : items_) {
    if (it.type == FBT_STRING) { align(); put(it.s.size()); str_at.push_back(buf_.size()); buf_.insert(buf_.end(), it.s.begin(), it.s.end()); buf_.push_back(0); }
    else str_at.push_back(0);
  }
  align();
  put(items_.size());
  size_t keys = buf_.size();
  for (size_t k : key_at) put(buf_.size() - k);
  put(buf_.size() - keys);
  put(w);
  put(items_.size());
  size_t vals = buf_.size();
  for (size_t i = 0; i < items_.size(); ++i) {
    const Item& it = items_[i];
    if (it.type == FBT_STRING) put(buf_.size() - str_at[i]);
    else if (it.type == FBT_FLOAT) {
      if (w == 4) { float f = (float)it.d; uint32_t u; memcpy(&u, &f, 4); put(u); } else { uint64_t u; memcpy(&u, &it.d, 8); put(u); }
    } else put((uint64_t)it.i);
  }
  for (auto& it : items_) buf_.push_back((uint8_t)(it.type << 2 | lg));
  align();
  uint64_t off = buf_.size() - vals;
  put(off);
  buf_.push_back((uint8_t)(FBT_MAP << 2 | lg));
  buf_.push_back((uint8_t)w);
}
}  // namespace flexbuffers
#endif
