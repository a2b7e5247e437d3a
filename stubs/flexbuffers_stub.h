// Value-level model of flexbuffers maps (keys -> scalar values).
#ifndef LCE_FLEX_STUB_H_
#define LCE_FLEX_STUB_H_
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#define FLATBUFFERS_LITTLEENDIAN 1
namespace flexbuffers {
enum Type { FBT_NULL = 0, FBT_INT = 1, FBT_UINT = 2, FBT_FLOAT = 3, FBT_STRING = 5, FBT_BOOL = 26 };
class Reference { public: Reference() : t_(FBT_NULL), v_(0), f_(0) {} Reference(int t, int64_t v) : t_(t), v_(v), f_(0) { if (t == FBT_FLOAT) { std::memcpy(&f_, &v, 8); } }
  bool IsNull() const { return t_ == FBT_NULL; } bool IsInt() const { return t_ == FBT_INT; } bool IsFloat() const { return t_ == FBT_FLOAT; } bool IsBool() const { return t_ == FBT_BOOL; } bool IsString() const { return t_ == FBT_STRING; } bool IsNumeric() const { return IsInt() || IsFloat() || t_ == FBT_UINT; } bool IsIntOrUint() const { return t_ == FBT_INT || t_ == FBT_UINT; }
  int64_t AsInt64() const { return t_ == FBT_FLOAT ? (int64_t)f_ : t_ == FBT_STRING ? 0 : v_; } int32_t AsInt32() const { return (int32_t)AsInt64(); } int16_t AsInt16() const { return (int16_t)AsInt64(); } int8_t AsInt8() const { return (int8_t)AsInt64(); }
  uint64_t AsUInt64() const { return t_ == FBT_FLOAT ? (uint64_t)f_ : (uint64_t)v_; } uint32_t AsUInt32() const { return (uint32_t)AsUInt64(); } uint16_t AsUInt16() const { return (uint16_t)AsUInt64(); } uint8_t AsUInt8() const { return (uint8_t)AsUInt64(); }
  double AsDouble() const { return t_ == FBT_FLOAT ? f_ : (double)v_; } float AsFloat() const { return (float)AsDouble(); } bool AsBool() const { return t_ == FBT_FLOAT ? f_ != 0 : v_ != 0; }
  class Map AsMap() const;
  int t_; int64_t v_; double f_; const uint8_t* buf_ = nullptr; size_t len_ = 0; };
class Map { public: Map(const uint8_t* b, size_t n) : b_(b), n_(n) {}
  Reference operator[](const char* key) const { size_t p = 0; size_t kl = std::strlen(key); while (p + 2 <= n_) { size_t l = b_[p]; int t = b_[p + 1]; const char* k = (const char*)b_ + p + 2; int64_t v; std::memcpy(&v, b_ + p + 2 + l, 8); if (l == kl && std::memcmp(k, key, l) == 0) return Reference(t, v); p += 2 + l + 8; } return Reference(); }
  Reference operator[](const std::string& key) const { return (*this)[key.c_str()]; } size_t size() const { size_t p = 0, c = 0; while (p + 2 <= n_) { p += 2 + b_[p] + 8; c++; } return c; }
 private: const uint8_t* b_; size_t n_; };
inline Map Reference::AsMap() const { return Map(buf_, len_); }
inline Reference GetRoot(const uint8_t* b, size_t n) { Reference r; r.buf_ = b; r.len_ = n; return r; }
inline Reference GetRoot(const std::vector<uint8_t>& b) { return GetRoot(b.data(), b.size()); }
class Builder { public: Builder(size_t = 256, int = 0) {}
  void Put(const char* k, int t, int64_t v) { size_t l = std::strlen(k), p = buf_.size(); buf_.resize(p + 2 + l + 8); buf_[p] = (uint8_t)l; buf_[p + 1] = (uint8_t)t; std::memcpy(&buf_[p + 2], k, l); std::memcpy(&buf_[p + 2 + l], &v, 8); }
  void Int(const char* k, int64_t v) { Put(k, FBT_INT, v); } void UInt(const char* k, uint64_t v) { Put(k, FBT_UINT, (int64_t)v); } void Bool(const char* k, bool v) { Put(k, FBT_BOOL, v ? 1 : 0); } void Double(const char* k, double d) { int64_t v; std::memcpy(&v, &d, 8); Put(k, FBT_FLOAT, v); } void Float(const char* k, float f) { Double(k, f); } void Null(const char* k) { Put(k, FBT_NULL, 0); } void Add(const char* k, int v) { Int(k, v); } void Add(const char* k, bool v) { Bool(k, v); } void Add(const char* k, float v) { Float(k, v); }
  void String(const char* k, const std::string&) { Put(k, FBT_STRING, 0); } void String(const char* k, const char*) { Put(k, FBT_STRING, 0); }
  template <class F> size_t Map(F f) { f(); return 0; } size_t StartMap() { return 0; } size_t StartMap(const char*) { return 0; } size_t EndMap(size_t s) { return s; } void Finish() { finished_ = true; } const std::vector<uint8_t>& GetBuffer() const { return buf_; } void Clear() { buf_.clear(); }
 private: std::vector<uint8_t> buf_; bool finished_ = false; };
}  // namespace flexbuffers
#endif
