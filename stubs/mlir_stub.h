// A small in-memory stand-in for MLIR: types, attributes, operations, builders, passes and the greedy rewrite driver, with the semantics the sources under check rely on.
// The passes of the repository are compiled against it unchanged; patterns and operation classes are generated from the repository's .td files by lib/drr.py.
#ifndef LCE_MLIR_STUB_H_
#define LCE_MLIR_STUB_H_
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/STLExtras.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/StringSwitch.h"
#include "llvm/Support/Casting.h"
// ---- the few out-of-line pieces of LLVM's support library
namespace llvm {
__attribute__((weak, noinline)) void report_bad_alloc_error(const char*, bool) { abort(); }
__attribute__((weak, noinline)) void llvm_unreachable_internal(const char*, const char*, unsigned) { abort(); }
__attribute__((weak, noinline)) void report_fatal_error(const char*, bool) { abort(); }
template <class S> struct lce_sv_peek : SmallVectorBase<S> { static void grow(SmallVectorBase<S>* v, void* first, size_t min, size_t ts) {
    size_t nc = 2 * v->capacity() + 1; if (nc < min) nc = min; if (nc < 4) nc = 4; void* n; auto* p = static_cast<lce_sv_peek*>(v);
    if (p->BeginX == first) { n = malloc(nc * ts); memcpy(n, p->BeginX, v->size() * ts); } else { n = malloc(nc * ts); memcpy(n, p->BeginX, v->size() * ts); free(p->BeginX); }
    p->BeginX = n; p->Capacity = nc; }
  static void* mal(SmallVectorBase<S>* v, size_t min, size_t ts, size_t& cap) { size_t nc = 2 * v->capacity() + 1; if (nc < min) nc = min; cap = nc; return malloc(nc * ts); } };
#define LCE_OUT __attribute__((weak, noinline, used))
LCE_OUT void lce_gp32(SmallVectorBase<uint32_t>*, void*, size_t, size_t) asm("_ZN4llvm15SmallVectorBaseIjE8grow_podEPvmm"); LCE_OUT void lce_gp64(SmallVectorBase<uint64_t>*, void*, size_t, size_t) asm("_ZN4llvm15SmallVectorBaseImE8grow_podEPvmm"); LCE_OUT void* lce_mg32(SmallVectorBase<uint32_t>*, void*, size_t, size_t, size_t&) asm("_ZN4llvm15SmallVectorBaseIjE13mallocForGrowEPvmmRm"); LCE_OUT void* lce_mg64(SmallVectorBase<uint64_t>*, void*, size_t, size_t, size_t&) asm("_ZN4llvm15SmallVectorBaseImE13mallocForGrowEPvmmRm");
void lce_gp32(SmallVectorBase<uint32_t>* v, void* f, size_t m, size_t t) { lce_sv_peek<uint32_t>::grow(v, f, m, t); }
void lce_gp64(SmallVectorBase<uint64_t>* v, void* f, size_t m, size_t t) { lce_sv_peek<uint64_t>::grow(v, f, m, t); }
void* lce_mg32(SmallVectorBase<uint32_t>* v, void*, size_t m, size_t t, size_t& c) { return lce_sv_peek<uint32_t>::mal(v, m, t, c); }
void* lce_mg64(SmallVectorBase<uint64_t>* v, void*, size_t m, size_t t, size_t& c) { return lce_sv_peek<uint64_t>::mal(v, m, t, c); }
namespace cl {
struct desc { const char* s; desc(const char* x) : s(x) {} };
struct OptionEnumValue { const char* n; int v; const char* d; };
struct lce_values { std::vector<OptionEnumValue> v; };
template <class... A> inline lce_values values(A... a) { return lce_values{{OptionEnumValue{a.n, (int)a.v, a.d}...}}; }
template <class T> struct initializer { T v; };
template <class T> inline initializer<T> init(const T& v) { return {v}; }
}
#define clEnumValN(ENUMVAL, FLAGNAME, DESC) llvm::cl::OptionEnumValue{FLAGNAME, int(ENUMVAL), DESC}
#define clEnumVal(ENUMVAL, DESC) llvm::cl::OptionEnumValue{#ENUMVAL, int(ENUMVAL), DESC}
struct lce_ostream { template <class T> lce_ostream& operator<<(const T&) { return *this; } };
inline lce_ostream& errs() { static lce_ostream o; return o; }
inline lce_ostream& outs() { return errs(); }
inline lce_ostream& dbgs() { return errs(); }
// integers and floats of attributes
struct APInt { unsigned w; int64_t v; APInt(unsigned w_ = 64, uint64_t v_ = 0, bool s = false) : w(w_), v(w_ >= 64 ? (int64_t)v_ : w_ == 0 ? 0 : (int64_t)(v_ << (64 - w_)) >> (64 - w_)) {}
  int64_t getSExtValue() const { return v; } uint64_t getZExtValue() const { return w >= 64 ? (uint64_t)v : (uint64_t)v & ((1ull << w) - 1); } unsigned getBitWidth() const { return w; }
  bool isZero() const { return v == 0; } bool isOne() const { return getZExtValue() == 1; } bool isNegative() const { return v < 0; } bool operator==(const APInt& o) const { return v == o.v; } bool operator!=(const APInt& o) const { return v != o.v; } bool operator==(uint64_t o) const { return getZExtValue() == o; } bool operator!=(uint64_t o) const { return getZExtValue() != o; } };
struct APFloat { double d; APFloat(double x) : d(x) {} APFloat(float x) : d(x) {} float convertToFloat() const { return (float)d; } double convertToDouble() const { return d; } bool isZero() const { return d == 0; } bool isNegative() const { return std::signbit(d); } bool isExactlyValue(double x) const { return d == x; } bool operator==(const APFloat& o) const { return d == o.d; } };
}  // namespace llvm
namespace mlir {
using llvm::APFloat; using llvm::APInt; using llvm::ArrayRef; using llvm::cast; using llvm::cast_or_null; using llvm::dyn_cast; using llvm::dyn_cast_or_null; using llvm::isa; using llvm::isa_and_nonnull; using llvm::MutableArrayRef; using llvm::SmallVector; using llvm::SmallVectorImpl; using llvm::StringRef;
using llvm::cast_if_present; using llvm::dyn_cast_if_present; using llvm::isa_and_present; using llvm::function_ref;
class Operation; class Value; class Block; class Type; class Attribute; class OpBuilder; class ShapedType;
struct LogicalResult { bool ok; bool succeeded() const { return ok; } bool failed() const { return !ok; } };
inline LogicalResult success(bool b = true) { return {b}; } inline LogicalResult failure(bool b = true) { return {!b}; } inline bool succeeded(LogicalResult r) { return r.ok; } inline bool failed(LogicalResult r) { return !r.ok; }
struct DialectRegistry { template <class... T> void insert() {} };
struct MLIRContext { int id = 0; template <class... T> void loadDialect() {} template <class T> void getOrLoadDialect() {} void printOpOnDiagnostic(bool) {} template <class R> void appendDialectRegistry(const R&) {} void allowUnregisteredDialects(bool = true) {} void disableMultithreading(bool = true) {} };
inline MLIRContext* lce_ctx() { static MLIRContext c; return &c; }
struct LocationAttr { int id = 0; };
struct Location { int id = 0; MLIRContext* getContext() const { return lce_ctx(); } };
struct UnknownLoc { static Location get(MLIRContext*) { return {}; } };
struct FusedLoc { static Location get(MLIRContext*, ArrayRef<Location>) { return {}; } };
struct Diagnostic { template <class T> Diagnostic& operator<<(const T&) { return *this; } };
struct InFlightDiagnostic { template <class T> InFlightDiagnostic& operator<<(const T&) { return *this; } operator LogicalResult() const { return failure(); } void attachNote() {} };
inline int& lce_errors() { static int n = 0; return n; }
inline InFlightDiagnostic emitError(Location) { lce_errors()++; return {}; }
inline InFlightDiagnostic emitWarning(Location) { return {}; }
inline InFlightDiagnostic emitRemark(Location) { return {}; }
// ------------------------------------------------------------------ types
enum class TK { None, Integer, Index, Float, Quant, QuantAxis, Ranked, Unranked, Vector, MemRef, Function, Opaque };
struct AttrStorage;
struct TypeStorage { TK k; unsigned width = 0; int sign = 0; std::vector<int64_t> shape; const TypeStorage* elem = nullptr; const AttrStorage* encoding = nullptr; double scale = 0; int64_t zp = 0, qmin = 0, qmax = 0; unsigned flags = 0; const TypeStorage* expressed = nullptr; std::vector<const TypeStorage*> ins, outs; int id = 0; };
bool lce_same_attr(const AttrStorage* a, const AttrStorage* b);
inline bool lce_same(const TypeStorage* a, const TypeStorage* b) {
  if (a == b) return true; if (!a || !b || a->k != b->k || a->width != b->width || a->sign != b->sign || a->id != b->id || a->shape.size() != b->shape.size() || a->ins.size() != b->ins.size() || a->outs.size() != b->outs.size()) return false;
  for (size_t i = 0; i < a->shape.size(); i++) if (a->shape[i] != b->shape[i]) return false;
  if (!(a->scale == b->scale) || a->zp != b->zp || a->qmin != b->qmin || a->qmax != b->qmax || a->flags != b->flags) return false;
  if (!lce_same(a->elem, b->elem) || !lce_same(a->expressed, b->expressed) || !lce_same_attr(a->encoding, b->encoding)) return false;
  for (size_t i = 0; i < a->ins.size(); i++) if (!lce_same(a->ins[i], b->ins[i])) return false;
  for (size_t i = 0; i < a->outs.size(); i++) if (!lce_same(a->outs[i], b->outs[i])) return false;
  return true; }
class Type {
 public:
  const TypeStorage* impl = nullptr;
  Type() = default; Type(std::nullptr_t) {} explicit Type(const TypeStorage* s) : impl(s) {}
  const TypeStorage* getImpl() const { return impl; }
  explicit operator bool() const { return impl != nullptr; } bool operator!() const { return !impl; }
  bool operator==(Type o) const { return lce_same(impl, o.impl); } bool operator!=(Type o) const { return !lce_same(impl, o.impl); }
  template <class... T> bool isa() const { return impl && (T::classof(*this) || ...); }
  template <class... T> bool isa_and_nonnull() const { return impl && (T::classof(*this) || ...); }
  template <class T> T cast() const { assert(impl); if (!T::classof(*this)) abort(); return T(impl); }
  template <class T> T dyn_cast() const { return impl && T::classof(*this) ? T(impl) : T(); }
  template <class T> T dyn_cast_or_null() const { return dyn_cast<T>(); }
  MLIRContext* getContext() const { return lce_ctx(); }
  bool isF32() const { return impl->k == TK::Float && impl->width == 32; } bool isF64() const { return impl->k == TK::Float && impl->width == 64; } bool isF16() const { return impl->k == TK::Float && impl->width == 16 && impl->id == 0; } bool isBF16() const { return impl->k == TK::Float && impl->width == 16 && impl->id == 1; }
  bool isIndex() const { return impl->k == TK::Index; } bool isInteger(unsigned w) const { return impl->k == TK::Integer && impl->width == w; } bool isInteger() const { return impl->k == TK::Integer; }
  bool isSignlessInteger() const { return impl->k == TK::Integer && !impl->sign; } bool isSignlessInteger(unsigned w) const { return isInteger(w) && !impl->sign; } bool isSignedInteger(unsigned w) const { return isInteger(w) && impl->sign == 1; } bool isUnsignedInteger(unsigned w) const { return isInteger(w) && impl->sign == 2; }
  bool isIntOrIndex() const { return isInteger() || isIndex(); } bool isIntOrFloat() const { return impl->k == TK::Integer || impl->k == TK::Float; } unsigned getIntOrFloatBitWidth() const { return impl->width; }
  static bool classof(Type) { return true; } };
#define LCE_TYPE(C, B, COND) using B::B; C() = default; C(std::nullptr_t) {} explicit C(const TypeStorage* s) : B(s) {} static bool classof(Type t) { const TypeStorage* s = t.impl; return COND; }
class NoneType : public Type { public: LCE_TYPE(NoneType, Type, s->k == TK::None) static NoneType get(MLIRContext*) { auto* s = new TypeStorage; s->k = TK::None; return NoneType(s); } };
class IntegerType : public Type { public: LCE_TYPE(IntegerType, Type, s->k == TK::Integer) enum SignednessSemantics { Signless, Signed, Unsigned };
  static IntegerType get(MLIRContext*, unsigned w, SignednessSemantics sg = Signless) { auto* s = new TypeStorage; s->k = TK::Integer; s->width = w; s->sign = sg; return IntegerType(s); }
  unsigned getWidth() const { return impl->width; } bool isSigned() const { return impl->sign == 1; } bool isUnsigned() const { return impl->sign == 2; } bool isSignless() const { return !impl->sign; } };
class IndexType : public Type { public: LCE_TYPE(IndexType, Type, s->k == TK::Index) static IndexType get(MLIRContext*) { auto* s = new TypeStorage; s->k = TK::Index; s->width = 64; return IndexType(s); } };
class FloatType : public Type { public: LCE_TYPE(FloatType, Type, s->k == TK::Float) static FloatType mk(unsigned w, int id = 0) { auto* s = new TypeStorage; s->k = TK::Float; s->width = w; s->id = id; return FloatType(s); }
  static FloatType getF32(MLIRContext*) { return mk(32); } static FloatType getF64(MLIRContext*) { return mk(64); } static FloatType getF16(MLIRContext*) { return mk(16); } static FloatType getBF16(MLIRContext*) { return mk(16, 1); } unsigned getWidth() const { return impl->width; } };
class Float32Type : public FloatType { public: LCE_TYPE(Float32Type, FloatType, s->k == TK::Float && s->width == 32) static Float32Type get(MLIRContext*) { return Float32Type(mk(32).impl); } };
class ShapedType : public Type {
 public:
  LCE_TYPE(ShapedType, Type, s->k == TK::Ranked || s->k == TK::Unranked || s->k == TK::Vector || s->k == TK::MemRef)
  static constexpr int64_t kDynamic = std::numeric_limits<int64_t>::min();
  static bool isDynamic(int64_t d) { return d == kDynamic; }
  static bool isDynamicShape(ArrayRef<int64_t> s) { for (auto d : s) if (isDynamic(d)) return true; return false; }
  static int64_t getNumElements(ArrayRef<int64_t> s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
  bool hasRank() const { return impl->k != TK::Unranked; } ArrayRef<int64_t> getShape() const { return ArrayRef<int64_t>(impl->shape.data(), impl->shape.size()); } Type getElementType() const { return Type(impl->elem); }
  int64_t getRank() const { return (int64_t)impl->shape.size(); } int64_t getDimSize(unsigned i) const { return getShape()[i]; } bool isDynamicDim(unsigned i) const { return isDynamic(getShape()[i]); }
  bool hasStaticShape() const { if (!hasRank()) return false; for (auto d : impl->shape) if (isDynamic(d)) return false; return true; } bool hasStaticShape(ArrayRef<int64_t> s) const { return hasStaticShape() && getShape() == s; } int64_t getNumDynamicDims() const { int64_t n = 0; for (auto d : impl->shape) n += isDynamic(d); return n; }
  int64_t getNumElements() const { return getNumElements(getShape()); }
  unsigned getElementTypeBitWidth() const { return impl->elem->width; }
  static const TypeStorage* mk(const TypeStorage* from, bool reshape, ArrayRef<int64_t> sh, Type el) { auto* s = new TypeStorage(*from); if (reshape) { s->shape.assign(sh.begin(), sh.end()); if (s->k == TK::Unranked) s->k = TK::Ranked; } if (el) s->elem = el.impl; return s; }
  ShapedType clone(ArrayRef<int64_t> sh, Type el) const { return ShapedType(mk(impl, true, sh, el)); } ShapedType clone(ArrayRef<int64_t> sh) const { return ShapedType(mk(impl, true, sh, nullptr)); } ShapedType clone(Type el) const { return ShapedType(mk(impl, false, {}, el)); } };
class TensorType : public ShapedType { public: LCE_TYPE(TensorType, ShapedType, s->k == TK::Ranked || s->k == TK::Unranked)
  TensorType clone(ArrayRef<int64_t> sh, Type el) const { return TensorType(mk(impl, true, sh, el)); } TensorType clone(ArrayRef<int64_t> sh) const { return TensorType(mk(impl, true, sh, nullptr)); } TensorType clone(Type el) const { return TensorType(mk(impl, false, {}, el)); }
  TensorType cloneWith(std::optional<ArrayRef<int64_t>> sh, Type el) const { return TensorType(mk(impl, sh.has_value(), sh.value_or(ArrayRef<int64_t>()), el)); } };
class RankedTensorType : public TensorType { public: LCE_TYPE(RankedTensorType, TensorType, s->k == TK::Ranked)
  static RankedTensorType get(ArrayRef<int64_t> sh, Type el, Attribute enc); static RankedTensorType get(ArrayRef<int64_t> sh, Type el) { auto* s = new TypeStorage; s->k = TK::Ranked; s->shape.assign(sh.begin(), sh.end()); s->elem = el.impl; return RankedTensorType(s); }
  Attribute getEncoding() const; RankedTensorType clone(ArrayRef<int64_t> sh, Type el) const { return RankedTensorType(mk(impl, true, sh, el)); } RankedTensorType clone(ArrayRef<int64_t> sh) const { return RankedTensorType(mk(impl, true, sh, nullptr)); } RankedTensorType clone(Type el) const { return RankedTensorType(mk(impl, false, {}, el)); } };
class UnrankedTensorType : public TensorType { public: LCE_TYPE(UnrankedTensorType, TensorType, s->k == TK::Unranked) static UnrankedTensorType get(Type el) { auto* s = new TypeStorage; s->k = TK::Unranked; s->elem = el.impl; return UnrankedTensorType(s); } };
class VectorType : public ShapedType { public: LCE_TYPE(VectorType, ShapedType, s->k == TK::Vector) static VectorType get(ArrayRef<int64_t> sh, Type el) { auto* s = new TypeStorage; s->k = TK::Vector; s->shape.assign(sh.begin(), sh.end()); s->elem = el.impl; return VectorType(s); } };
class MemRefType : public ShapedType { public: LCE_TYPE(MemRefType, ShapedType, s->k == TK::MemRef) static MemRefType get(ArrayRef<int64_t> sh, Type el) { auto* s = new TypeStorage; s->k = TK::MemRef; s->shape.assign(sh.begin(), sh.end()); s->elem = el.impl; return MemRefType(s); } };
class OpaqueType : public Type { public: LCE_TYPE(OpaqueType, Type, s->k == TK::Opaque) static OpaqueType get(int id) { auto* s = new TypeStorage; s->k = TK::Opaque; s->id = id; return OpaqueType(s); } };
// a type range: a list of types by value
class ValueRange; class OperandRange; class ResultRange;
class TypeRange { public: std::vector<Type> v; TypeRange() = default; TypeRange(ArrayRef<Type> a) : v(a.begin(), a.end()) {} TypeRange(std::initializer_list<Type> a) : v(a) {}
  template <class A, class = std::enable_if_t<std::is_constructible<ArrayRef<Type>, A>::value && !std::is_same<std::decay_t<A>, TypeRange>::value>> TypeRange(A&& a) : TypeRange(ArrayRef<Type>(a)) {}
  TypeRange(const ValueRange& r); size_t size() const { return v.size(); } bool empty() const { return v.empty(); } Type operator[](size_t i) const { return v[i]; } auto begin() const { return v.begin(); } auto end() const { return v.end(); } Type front() const { return v.front(); } operator ArrayRef<Type>() const { return ArrayRef<Type>(v.data(), v.size()); } };
class FunctionType : public Type { public: LCE_TYPE(FunctionType, Type, s->k == TK::Function)
  struct TypeList { }; 
  static FunctionType get(MLIRContext*, TypeRange in, TypeRange out) { auto* s = new TypeStorage; s->k = TK::Function; for (auto t : in) s->ins.push_back(t.impl); for (auto t : out) s->outs.push_back(t.impl); return FunctionType(s); }
  static_assert(sizeof(Type) == sizeof(void*), "");
  ArrayRef<Type> getInputs() const { return ArrayRef<Type>(reinterpret_cast<const Type*>(impl->ins.data()), impl->ins.size()); } ArrayRef<Type> getResults() const { return ArrayRef<Type>(reinterpret_cast<const Type*>(impl->outs.data()), impl->outs.size()); }
  unsigned getNumInputs() const { return impl->ins.size(); } unsigned getNumResults() const { return impl->outs.size(); } Type getInput(unsigned i) const { return Type(impl->ins[i]); } Type getResult(unsigned i) const { return Type(impl->outs[i]); }
  FunctionType clone(TypeRange in, TypeRange out) const { return get(nullptr, in, out); } };
namespace quant {
class QuantizedType : public Type { public: LCE_TYPE(QuantizedType, Type, s->k == TK::Quant || s->k == TK::QuantAxis) Type getStorageType() const { return Type(impl->elem); } Type getExpressedType() const { return Type(impl->expressed); } int64_t getStorageTypeMin() const { return impl->qmin; } int64_t getStorageTypeMax() const { return impl->qmax; } bool isSigned() const { return impl->flags & 1; } unsigned getStorageTypeIntegralWidth() const { return impl->elem->width; } unsigned getFlags() const { return impl->flags; } };
class UniformQuantizedType : public QuantizedType { public: LCE_TYPE(UniformQuantizedType, QuantizedType, s->k == TK::Quant)
  static UniformQuantizedType get(unsigned flags, Type storage, Type expressed, double scale, int64_t zp, int64_t mn, int64_t mx) { auto* s = new TypeStorage; s->k = TK::Quant; s->flags = flags; s->elem = storage.impl; s->expressed = expressed.impl; s->scale = scale; s->zp = zp; s->qmin = mn; s->qmax = mx; return UniformQuantizedType(s); }
  double getScale() const { return impl->scale; } int64_t getZeroPoint() const { return impl->zp; } bool isFixedPoint() const { return impl->zp == 0; } };
class UniformQuantizedPerAxisType : public QuantizedType { public: LCE_TYPE(UniformQuantizedPerAxisType, QuantizedType, s->k == TK::QuantAxis)
  static UniformQuantizedPerAxisType get(unsigned flags, Type storage, Type expressed, ArrayRef<double> scales, ArrayRef<int64_t> zps, int32_t axis, int64_t mn, int64_t mx) { auto* s = new TypeStorage; s->k = TK::QuantAxis; s->flags = flags; s->elem = storage.impl; s->expressed = expressed.impl; s->scale = scales[0]; s->zp = zps[0]; s->id = axis; s->qmin = mn; s->qmax = mx; return UniformQuantizedPerAxisType(s); } int32_t getQuantizedDimension() const { return impl->id; } };
struct QuantizationFlags { enum FlagValue { Signed = 1 }; };
}
// ------------------------------------------------------------------ attributes
enum class AK { Dense, Integer, Float, String, Array, Unit, TypeA, ConstBytes, Dict, Symbol };
struct AttrStorage { AK k; const TypeStorage* type = nullptr; int64_t i = 0; double f = 0; std::string s; std::vector<const AttrStorage*> arr; unsigned char* data = nullptr; size_t bytes = 0, n = 0; const TypeStorage* t = nullptr; std::vector<std::string> keys; };
inline bool lce_same_attr(const AttrStorage* a, const AttrStorage* b) {
  if (a == b) return true; if (!a || !b || a->k != b->k || a->i != b->i || a->n != b->n || a->bytes != b->bytes || a->arr.size() != b->arr.size() || a->s != b->s) return false;
  if (memcmp(&a->f, &b->f, sizeof(double)) || !lce_same(a->type, b->type) || !lce_same(a->t, b->t)) return false;
  for (size_t q = 0; q < a->arr.size(); q++) if (!lce_same_attr(a->arr[q], b->arr[q])) return false;
  for (size_t q = 0; q < a->keys.size(); q++) if (a->keys[q] != b->keys[q]) return false;
  for (size_t q = 0; q < a->bytes; q++) if (a->data[q] != b->data[q]) return false;
  return true; }
class Attribute {
 public:
  const AttrStorage* impl = nullptr;
  Attribute() = default; Attribute(std::nullptr_t) {} explicit Attribute(const AttrStorage* s) : impl(s) {}
  const AttrStorage* getImpl() const { return impl; }
  explicit operator bool() const { return impl != nullptr; } bool operator!() const { return !impl; }
  bool operator==(Attribute o) const { return lce_same_attr(impl, o.impl); } bool operator!=(Attribute o) const { return !lce_same_attr(impl, o.impl); }
  template <class... T> bool isa() const { return impl && (T::classof(*this) || ...); }
  template <class... T> bool isa_and_nonnull() const { return impl && (T::classof(*this) || ...); }
  template <class T> T cast() const { if (!impl || !T::classof(*this)) abort(); return T(impl); }
  template <class T> T dyn_cast() const { return impl && T::classof(*this) ? T(impl) : T(); }
  template <class T> T dyn_cast_or_null() const { return dyn_cast<T>(); }
  MLIRContext* getContext() const { return lce_ctx(); }
  static bool classof(Attribute) { return true; } };
inline RankedTensorType RankedTensorType::get(ArrayRef<int64_t> sh, Type el, Attribute enc) { auto* s = new TypeStorage; s->k = TK::Ranked; s->shape.assign(sh.begin(), sh.end()); s->elem = el.impl; s->encoding = enc.impl; return RankedTensorType(s); }
inline Attribute RankedTensorType::getEncoding() const { return Attribute(impl->encoding); }
#define LCE_ATTR(C, B, COND) C() = default; C(std::nullptr_t) {} explicit C(const AttrStorage* s) : B(s) {} static bool classof(Attribute a) { const AttrStorage* s = a.impl; return COND; }
class TypedAttr : public Attribute { public: LCE_ATTR(TypedAttr, Attribute, s->type != nullptr) Type getType() const { return Type(impl->type); } };
class StringAttr : public TypedAttr { public: LCE_ATTR(StringAttr, TypedAttr, s->k == AK::String) static StringAttr get(MLIRContext*, StringRef v) { auto* s = new AttrStorage; s->k = AK::String; s->s = std::string(v.data(), v.size()); s->type = NoneType::get(nullptr).impl; return StringAttr(s); } StringRef getValue() const { return StringRef(impl->s.data(), impl->s.size()); } StringRef strref() const { return getValue(); } std::string str() const { return impl->s; } operator StringRef() const { return getValue(); } size_t size() const { return impl->s.size(); } bool empty() const { return impl->s.empty(); } const char* data() const { return impl->s.data(); } bool operator==(StringRef o) const { return getValue() == o; } bool operator==(StringAttr o) const { return Attribute::operator==(o); } bool operator==(Attribute o) const { return Attribute::operator==(o); } };
class IntegerAttr : public TypedAttr { public: LCE_ATTR(IntegerAttr, TypedAttr, s->k == AK::Integer)
  static IntegerAttr get(Type t, int64_t v) { auto* s = new AttrStorage; s->k = AK::Integer; s->type = t.impl; unsigned w = t.impl->width; s->i = w == 32 ? (int64_t)(int32_t)v : w >= 64 ? v : APInt(w, (uint64_t)v).v; return IntegerAttr(s); } static IntegerAttr get(Type t, const APInt& v) { return get(t, v.v); }
  int64_t getInt() const { return impl->i; } int64_t getSInt() const { return impl->i; } uint64_t getUInt() const { return (uint64_t)impl->i; } APInt getValue() const { return APInt(impl->type->width, (uint64_t)impl->i); } };
class BoolAttr : public IntegerAttr { public: LCE_ATTR(BoolAttr, IntegerAttr, s->k == AK::Integer && s->type->k == TK::Integer && s->type->width == 1) static BoolAttr get(MLIRContext*, bool v) { return BoolAttr(IntegerAttr::get(IntegerType::get(nullptr, 1), v).impl); } bool getValue() const { return impl->i != 0; } };
class FloatAttr : public TypedAttr { public: LCE_ATTR(FloatAttr, TypedAttr, s->k == AK::Float) static FloatAttr get(Type t, double v) { auto* s = new AttrStorage; s->k = AK::Float; s->type = t.impl; s->f = t.isF32() ? (double)(float)v : v; return FloatAttr(s); } static FloatAttr get(Type t, const APFloat& v) { return get(t, v.d); } double getValueAsDouble() const { return impl->f; } APFloat getValue() const { return APFloat(impl->f); } };
class UnitAttr : public Attribute { public: LCE_ATTR(UnitAttr, Attribute, s->k == AK::Unit) static UnitAttr get(MLIRContext*) { auto* s = new AttrStorage; s->k = AK::Unit; return UnitAttr(s); } };
class TypeAttr : public Attribute { public: LCE_ATTR(TypeAttr, Attribute, s->k == AK::TypeA) static TypeAttr get(Type t) { auto* s = new AttrStorage; s->k = AK::TypeA; s->t = t.impl; return TypeAttr(s); } Type getValue() const { return Type(impl->t); } };
class ArrayAttr : public Attribute { public: LCE_ATTR(ArrayAttr, Attribute, s->k == AK::Array) static ArrayAttr get(MLIRContext*, ArrayRef<Attribute> v) { auto* s = new AttrStorage; s->k = AK::Array; for (auto a : v) s->arr.push_back(a.impl); return ArrayAttr(s); }
  ArrayRef<Attribute> getValue() const { return ArrayRef<Attribute>(reinterpret_cast<const Attribute*>(impl->arr.data()), impl->arr.size()); } size_t size() const { return impl->arr.size(); } bool empty() const { return impl->arr.empty(); } Attribute operator[](size_t i) const { return Attribute(impl->arr[i]); } auto begin() const { return getValue().begin(); } auto end() const { return getValue().end(); } };
struct NamedAttribute { StringAttr name; Attribute value; NamedAttribute(StringAttr n, Attribute v) : name(n), value(v) {} StringAttr getName() const { return name; } Attribute getValue() const { return value; } };
class DictionaryAttr : public Attribute { public: LCE_ATTR(DictionaryAttr, Attribute, s->k == AK::Dict) static DictionaryAttr get(MLIRContext*, ArrayRef<NamedAttribute> v) { auto* s = new AttrStorage; s->k = AK::Dict; for (auto& a : v) { s->keys.push_back(a.name.str()); s->arr.push_back(a.value.impl); } return DictionaryAttr(s); } Attribute get(StringRef n) const { for (size_t i = 0; i < impl->keys.size(); i++) if (n == StringRef(impl->keys[i])) return Attribute(impl->arr[i]); return {}; } };
class ElementsAttr : public TypedAttr { public: LCE_ATTR(ElementsAttr, TypedAttr, s->k == AK::Dense) ShapedType getShapedType() const { return ShapedType(impl->type); } ShapedType getType() const { return ShapedType(impl->type); } Type getElementType() const { return Type(impl->type->elem); } int64_t getNumElements() const { return (int64_t)impl->n; } int64_t size() const { return (int64_t)impl->n; } bool empty() const { return !impl->n; }
  static uint64_t lce_flat(const AttrStorage* s, ArrayRef<uint64_t> ix) { uint64_t o = 0; for (size_t d = 0; d < ix.size(); d++) o = o * (uint64_t)s->type->shape[d] + ix[d]; return o; }
  unsigned esize() const { unsigned w = lce_width(impl->type->elem); return w <= 8 ? 1 : w / 8; }
  static unsigned lce_width(const TypeStorage* t) { return t->k == TK::Quant || t->k == TK::QuantAxis ? t->elem->width : t->width ? t->width : 64; }
  template <class T> struct Range { const AttrStorage* s;
    static T load(const AttrStorage* s, uint64_t i) { if (i >= s->n) abort(); if constexpr (std::is_same_v<T, bool>) return s->data[i] != 0; else if constexpr (std::is_same_v<T, Attribute>) return elem(s, i); else if constexpr (std::is_same_v<T, APInt>) return APInt(lce_width(s->type->elem), (uint64_t)asInt(s, i)); else if constexpr (std::is_same_v<T, APFloat>) { float f; memcpy(&f, s->data + i * 4, 4); return APFloat(f); } else if constexpr (std::is_same_v<T, IntegerAttr>) return IntegerAttr::get(Type(s->type->elem), asInt(s, i)); else if constexpr (std::is_same_v<T, FloatAttr>) { float f; memcpy(&f, s->data + i * 4, 4); return FloatAttr::get(Type(s->type->elem), f); } else { T v; memcpy(&v, s->data + i * sizeof(T), sizeof(T)); return v; } }
    static int64_t asInt(const AttrStorage* s, uint64_t i) { unsigned w = lce_width(s->type->elem); if (w <= 8) return (int8_t)s->data[i]; if (w == 16) { int16_t v; memcpy(&v, s->data + 2 * i, 2); return v; } if (w == 32) { int32_t v; memcpy(&v, s->data + 4 * i, 4); return v; } int64_t v; memcpy(&v, s->data + 8 * i, 8); return v; }
    static Attribute elem(const AttrStorage* s, uint64_t i) { if (s->type->elem->k == TK::Float) { float f; memcpy(&f, s->data + i * 4, 4); return FloatAttr::get(Type(s->type->elem), f); } return IntegerAttr::get(Type(s->type->elem), asInt(s, i)); }
    struct iterator { using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = ptrdiff_t; using pointer = const T*; using reference = T; const AttrStorage* s = nullptr; uint64_t i = 0; T operator*() const { return load(s, i); } T operator[](ptrdiff_t d) const { return load(s, i + d); } iterator& operator++() { ++i; return *this; } iterator operator++(int) { auto t = *this; ++i; return t; } iterator& operator--() { --i; return *this; } iterator operator+(ptrdiff_t d) const { return {s, i + d}; } iterator operator-(ptrdiff_t d) const { return {s, i - d}; } iterator& operator+=(ptrdiff_t d) { i += d; return *this; } ptrdiff_t operator-(const iterator& o) const { return (ptrdiff_t)(i - o.i); } bool operator==(const iterator& o) const { return i == o.i; } bool operator!=(const iterator& o) const { return i != o.i; } bool operator<(const iterator& o) const { return i < o.i; } };
    iterator begin() const { return {s, 0}; } iterator end() const { return {s, s->n}; } T operator[](uint64_t i) const { return load(s, i); } T operator[](ArrayRef<uint64_t> ix) const { return load(s, lce_flat(s, ix)); } T operator[](std::initializer_list<uint64_t> ix) const { return load(s, lce_flat(s, ArrayRef<uint64_t>(ix.begin(), ix.size()))); } size_t size() const { return s->n; } bool empty() const { return !s->n; } T front() const { return load(s, 0); } using iterator_t = iterator; };
  template <class T> Range<T> getValues() const { return {impl}; }
  template <class T> auto value_begin() const { return getValues<T>().begin(); } template <class T> auto value_end() const { return getValues<T>().end(); }
  template <class T> Range<T> tryGetValues() const { return getValues<T>(); }
  template <class T> std::optional<Range<T>> try_getValues() const { return getValues<T>(); }
  bool isSplat() const { size_t e = esize(); for (size_t i = 1; i < impl->n; i++) if (memcmp(impl->data, impl->data + i * e, e)) return false; return impl->n > 0; }
  template <class T> T getSplatValue() const { return Range<T>::load(impl, 0); } };
class DenseElementsAttr : public ElementsAttr { public: LCE_ATTR(DenseElementsAttr, ElementsAttr, s->k == AK::Dense)
  static AttrStorage* mk(ShapedType t) { auto* s = new AttrStorage; s->k = AK::Dense; s->type = t.impl; s->n = (size_t)t.getNumElements(); DenseElementsAttr d(s); s->bytes = s->n * d.esize(); s->data = (unsigned char*)malloc(s->bytes ? s->bytes : 1); return s; }
  static void put(AttrStorage* s, size_t i, Attribute a) { unsigned w = lce_width(s->type->elem); if (a.impl->k == AK::Float) { float f = (float)a.impl->f; memcpy(s->data + 4 * i, &f, 4); } else { int64_t v = a.impl->i; memcpy(s->data + i * (w <= 8 ? 1 : w / 8), &v, w <= 8 ? 1 : w / 8); } }
  static DenseElementsAttr get(ShapedType t, ArrayRef<Attribute> v) { auto* s = mk(t); if (v.size() != s->n && v.size() != 1) abort(); for (size_t i = 0; i < s->n; i++) put(s, i, v[v.size() == 1 ? 0 : i]); return DenseElementsAttr(s); }
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static DenseElementsAttr get(ShapedType t, ArrayRef<T> v) { auto* s = mk(t); if (sizeof(T) != DenseElementsAttr(s).esize() || (v.size() != s->n && v.size() != 1)) abort(); for (size_t i = 0; i < s->n; i++) memcpy(s->data + i * sizeof(T), &v[v.size() == 1 ? 0 : i], sizeof(T)); return DenseElementsAttr(s); }
  template <class T, class A, class = std::enable_if_t<std::is_arithmetic<T>::value>> static DenseElementsAttr get(ShapedType t, const std::vector<T, A>& v) { return get<T>(t, ArrayRef<T>(v.data(), v.size())); }
  static DenseElementsAttr get(ShapedType t, const std::vector<Attribute>& v) { return get(t, ArrayRef<Attribute>(v)); } template <unsigned N> static DenseElementsAttr get(ShapedType t, const SmallVector<Attribute, N>& v) { return get(t, ArrayRef<Attribute>(v)); }
  template <class T, unsigned N, class = std::enable_if_t<std::is_arithmetic<T>::value>> static DenseElementsAttr get(ShapedType t, const SmallVector<T, N>& v) { return get<T>(t, ArrayRef<T>(v)); }
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static DenseElementsAttr get(ShapedType t, const std::initializer_list<T>& v) { return get<T>(t, ArrayRef<T>(v.begin(), v.size())); }
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static DenseElementsAttr get(ShapedType t, T v) { return get<T>(t, ArrayRef<T>(v)); }
  DenseElementsAttr reshape(ShapedType t) const { auto* s = new AttrStorage(*impl); s->type = t.impl; return DenseElementsAttr(s); }
  ArrayRef<char> getRawData() const { return ArrayRef<char>((const char*)impl->data, impl->bytes); } };
class DenseIntOrFPElementsAttr : public DenseElementsAttr { public: LCE_ATTR(DenseIntOrFPElementsAttr, DenseElementsAttr, s->k == AK::Dense) };
class DenseIntElementsAttr : public DenseIntOrFPElementsAttr { public: LCE_ATTR(DenseIntElementsAttr, DenseIntOrFPElementsAttr, s->k == AK::Dense && (s->type->elem->k == TK::Integer || s->type->elem->k == TK::Index)) };
class DenseFPElementsAttr : public DenseIntOrFPElementsAttr { public: LCE_ATTR(DenseFPElementsAttr, DenseIntOrFPElementsAttr, s->k == AK::Dense && s->type->elem->k == TK::Float) };
class SplatElementsAttr : public DenseElementsAttr { public: LCE_ATTR(SplatElementsAttr, DenseElementsAttr, s->k == AK::Dense && DenseElementsAttr(s).isSplat()) };
class SymbolRefAttr : public Attribute { public: LCE_ATTR(SymbolRefAttr, Attribute, s->k == AK::Symbol) };
namespace TFL { class ConstBytesAttr : public Attribute { public: LCE_ATTR(ConstBytesAttr, Attribute, s->k == AK::ConstBytes) static ConstBytesAttr get(MLIRContext*, StringRef v) { auto* s = new AttrStorage; s->k = AK::ConstBytes; s->s = std::string(v.data(), v.size()); return ConstBytesAttr(s); } StringRef getValue() const { return StringRef(impl->s.data(), impl->s.size()); } }; }
inline Type getElementTypeOrSelf(Type t) { if (auto s = t.dyn_cast<ShapedType>()) return s.getElementType(); return t; }
}  // namespace mlir
// llvm::cast and friends on types and attributes
namespace llvm {
template <typename To, typename From> struct CastInfo<To, From, std::enable_if_t<std::is_same_v<mlir::Type, std::remove_const_t<From>> || std::is_base_of_v<mlir::Type, From>>> : NullableValueCastFailed<To>, DefaultDoCastIfPossible<To, From, CastInfo<To, From>> { static inline bool isPossible(mlir::Type t) { return To::classof(t); } static inline To doCast(mlir::Type t) { return To(t.getImpl()); } };
template <typename To, typename From> struct CastInfo<To, From, std::enable_if_t<std::is_same_v<mlir::Attribute, std::remove_const_t<From>> || std::is_base_of_v<mlir::Attribute, From>>> : NullableValueCastFailed<To>, DefaultDoCastIfPossible<To, From, CastInfo<To, From>> { static inline bool isPossible(mlir::Attribute t) { return To::classof(t); } static inline To doCast(mlir::Attribute t) { return To(t.getImpl()); } };
}
namespace mlir {
// ------------------------------------------------------------------ values and operations
struct Use { Operation* op; unsigned idx; };
struct ValueImpl { const TypeStorage* type; Operation* def = nullptr; unsigned num = 0; Block* block = nullptr; std::vector<Use> uses; };
class Value {
 public:
  ValueImpl* impl = nullptr;
  Value() = default; Value(std::nullptr_t) {} explicit Value(ValueImpl* i) : impl(i) {} Value(ValueImpl* i, int) : impl(i) {}
  explicit operator bool() const { return impl; } bool operator!() const { return !impl; } bool operator==(Value o) const { return impl == o.impl; } bool operator!=(Value o) const { return impl != o.impl; } bool operator<(Value o) const { return impl < o.impl; }
  ValueImpl* getImpl() const { return impl; }
  Type getType() const { return Type(impl->type); } void setType(Type t) { impl->type = t.impl; } MLIRContext* getContext() const { return lce_ctx(); }
  Operation* getDefiningOp() const { return impl->def; } template <class T> T getDefiningOp() const;
  bool hasOneUse() const { return impl->uses.size() == 1; } bool use_empty() const { return impl->uses.empty(); } Location getLoc() const { return {}; }
  struct UserRange { std::vector<Operation*> v; auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } bool empty() const { return v.empty(); } };
  UserRange getUsers() const { UserRange r; for (auto& u : impl->uses) r.v.push_back(u.op); return r; }
  struct UseView { Operation* op; unsigned idx; Operation* getOwner() const { return op; } unsigned getOperandNumber() const { return idx; } };
  std::vector<UseView> getUses() const { std::vector<UseView> r; for (auto& u : impl->uses) r.push_back({u.op, u.idx}); return r; }
  void replaceAllUsesWith(Value n) const; template <class... T> bool isa() const { return (T::classof(*this) || ...); } template <class T> T cast() const { return T(impl); } template <class T> T dyn_cast() const { return T::classof(*this) ? T(impl) : T(); } static bool classof(Value) { return true; } };
class OpResult : public Value { public: using Value::Value; OpResult() = default; static bool classof(Value v) { return v.impl->def; } unsigned getResultNumber() const { return impl->num; } Operation* getOwner() const { return impl->def; } };
class BlockArgument : public Value { public: using Value::Value; BlockArgument() = default; static bool classof(Value v) { return !v.impl->def; } unsigned getArgNumber() const { return impl->num; } Block* getOwner() const { return impl->block; } };
class ValueRange { public: std::vector<Value> v; ValueRange() = default; ValueRange(Value x) : v{x} {} ValueRange(ArrayRef<Value> a) : v(a.begin(), a.end()) {} ValueRange(std::initializer_list<Value> a) : v(a) {}
  template <class A, class = std::enable_if_t<std::is_constructible<ArrayRef<Value>, A>::value && !std::is_base_of<ValueRange, std::decay_t<A>>::value && !std::is_base_of<Value, std::decay_t<A>>::value>> ValueRange(A&& a) : ValueRange(ArrayRef<Value>(a)) {}
  size_t size() const { return v.size(); } bool empty() const { return v.empty(); } Value operator[](size_t i) const { if (i >= v.size()) abort(); return v[i]; } Value front() const { return (*this)[0]; } Value back() const { return v.back(); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } operator ArrayRef<Value>() const { return ArrayRef<Value>(v.data(), v.size()); } ValueRange drop_front(size_t n = 1) const { ValueRange r; r.v.assign(v.begin() + n, v.end()); return r; } ValueRange take_front(size_t n = 1) const { ValueRange r; r.v.assign(v.begin(), v.begin() + n); return r; } ValueRange slice(size_t a, size_t n) const { ValueRange r; r.v.assign(v.begin() + a, v.begin() + a + n); return r; } TypeRange getTypes() const { return TypeRange(*this); } };
class OperandRange : public ValueRange { public: using ValueRange::ValueRange; OperandRange() = default; };
class ResultRange : public ValueRange { public: using ValueRange::ValueRange; ResultRange() = default; };
inline TypeRange::TypeRange(const ValueRange& r) { for (auto x : r) v.push_back(x.getType()); }
struct OperationName { std::string n; StringRef getStringRef() const { return StringRef(n.data(), n.size()); } bool operator==(const OperationName& o) const { return n == o.n; } };
class OpFoldResult { public: Attribute a; Value v; OpFoldResult() = default; OpFoldResult(std::nullptr_t) {} OpFoldResult(Attribute x) : a(x) {} OpFoldResult(Value x) : v(x) {} explicit operator bool() const { return (bool)a || (bool)v; } bool isNull() const { return !a && !v; } template <class T> T dyn_cast() const { if constexpr (std::is_base_of_v<Attribute, T>) return a.dyn_cast<T>(); else return v; } };
struct OperationState { Location location; std::string name; std::vector<Value> operands; std::vector<Type> types; std::vector<NamedAttribute> attributes; OperationState() = default; OperationState(Location l, StringRef n) : location(l), name(n.str()) {}
  void addOperands(ValueRange r) { operands.insert(operands.end(), r.begin(), r.end()); } void addTypes(TypeRange r) { types.insert(types.end(), r.begin(), r.end()); } void addTypes(Type t) { types.push_back(t); } void addAttribute(StringRef n, Attribute a) { attributes.push_back(NamedAttribute(StringAttr::get(nullptr, n), a)); } void addAttributes(ArrayRef<NamedAttribute> a) { attributes.insert(attributes.end(), a.begin(), a.end()); } MLIRContext* getContext() const { return lce_ctx(); } };
class Block { public: std::vector<ValueImpl*> args; std::vector<Operation*> ops; Operation* parent = nullptr; Operation* getParentOp() const { return parent; } std::vector<BlockArgument> getArguments() const { std::vector<BlockArgument> r; for (auto* a : args) r.push_back(BlockArgument(a)); return r; } BlockArgument getArgument(unsigned i) const { return BlockArgument(args[i]); } unsigned getNumArguments() const { return args.size(); } };
class Operation {
 public:
  std::string name; std::vector<ValueImpl*> operands; std::vector<ValueImpl*> results; std::vector<std::pair<std::string, Attribute>> attrs; Block* block = nullptr; Block* body = nullptr; bool erased = false;
  OperationName getName() const { return {name}; } Location getLoc() const { return {}; } MLIRContext* getContext() const { return lce_ctx(); } Block* getBlock() const { return block; } Operation* getParentOp() const { return block ? block->parent : nullptr; }
  unsigned getNumOperands() const { return operands.size(); } unsigned getNumResults() const { return results.size(); }
  Value getOperand(unsigned i) const { if (i >= operands.size()) abort(); return Value(operands[i]); } OpResult getResult(unsigned i) const { if (i >= results.size()) abort(); return OpResult(results[i]); }
  OperandRange getOperands() const { OperandRange r; for (auto* o : operands) r.v.push_back(Value(o)); return r; } ResultRange getResults() const { ResultRange r; for (auto* o : results) r.v.push_back(Value(o)); return r; } ResultRange getOpResults() const { return getResults(); }
  TypeRange getResultTypes() const { TypeRange r; for (auto* o : results) r.v.push_back(Type(o->type)); return r; } TypeRange getOperandTypes() const { TypeRange r; for (auto* o : operands) r.v.push_back(Type(o->type)); return r; }
  void dropUse(unsigned i) { if (!operands[i]) return; auto& u = operands[i]->uses; for (size_t q = 0; q < u.size(); q++) if (u[q].op == this && u[q].idx == i) { u.erase(u.begin() + q); break; } }
  void setOperand(unsigned i, Value v) { dropUse(i); operands[i] = v.impl; v.impl->uses.push_back({this, i}); }
  void addOperand(Value v) { operands.push_back(v.impl); v.impl->uses.push_back({this, (unsigned)operands.size() - 1}); }
  Attribute getAttr(StringRef n) const { for (auto& a : attrs) if (StringRef(a.first) == n) return a.second; return {}; } template <class T> T getAttrOfType(StringRef n) const { Attribute a = getAttr(n); return a ? a.dyn_cast<T>() : T(); } bool hasAttr(StringRef n) const { return (bool)getAttr(n); }
  void setAttr(StringRef n, Attribute v) { for (auto& a : attrs) if (StringRef(a.first) == n) { a.second = v; return; } attrs.push_back({n.str(), v}); } void removeAttr(StringRef n) { for (size_t i = 0; i < attrs.size(); i++) if (StringRef(attrs[i].first) == n) { attrs.erase(attrs.begin() + i); return; } }
  std::vector<NamedAttribute> getAttrs() const { std::vector<NamedAttribute> r; for (auto& a : attrs) r.push_back(NamedAttribute(StringAttr::get(nullptr, a.first), a.second)); return r; }
  bool use_empty() const { for (auto* r : results) if (!r->uses.empty()) return false; return true; } bool hasOneUse() const { size_t n = 0; for (auto* r : results) n += r->uses.size(); return n == 1; }
  Value::UserRange getUsers() const { Value::UserRange r; for (auto* x : results) for (auto& u : x->uses) r.v.push_back(u.op); return r; }
  void replaceAllUsesWith(ValueRange n) { if (n.size() != results.size()) abort(); for (size_t i = 0; i < results.size(); i++) Value(results[i]).replaceAllUsesWith(n[i]); }
  void erase() { if (!use_empty()) abort(); for (unsigned i = 0; i < operands.size(); i++) dropUse(i); operands.clear(); erased = true; if (block) { auto& v = block->ops; for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v.erase(v.begin() + i); break; } } block = nullptr; }
  InFlightDiagnostic emitError() { lce_errors()++; return {}; } InFlightDiagnostic emitOpError() { lce_errors()++; return {}; }
  template <class F> void walk(F&& f);
  static Operation* create(const OperationState& s) { auto* o = new Operation; o->name = s.name; for (auto v : s.operands) o->addOperand(v); unsigned n = 0; for (auto t : s.types) { auto* r = new ValueImpl; r->type = t.impl; r->def = o; r->num = n++; o->results.push_back(r); } for (auto& a : s.attributes) o->setAttr(a.name.getValue(), a.value); return o; } };
inline void Value::replaceAllUsesWith(Value n) const { if (impl == n.impl) return; auto u = impl->uses; for (auto& x : u) x.op->setOperand(x.idx, n); }
class OpState { public: Operation* state = nullptr; OpState() = default; OpState(std::nullptr_t) {} explicit OpState(Operation* o) : state(o) {} Operation* getOperation() const { return state; } operator Operation*() const { return state; } Operation* operator->() const { return state; } explicit operator bool() const { return state; } bool operator!() const { return !state; } bool operator==(OpState o) const { return state == o.state; } bool operator!=(OpState o) const { return state != o.state; } bool operator==(std::nullptr_t) const { return !state; } bool operator!=(std::nullptr_t) const { return state; }
  Location getLoc() const { return {}; } MLIRContext* getContext() const { return lce_ctx(); } InFlightDiagnostic emitError() { return state->emitError(); } InFlightDiagnostic emitOpError() { return state->emitError(); } bool use_empty() const { return state->use_empty(); } void erase() { state->erase(); } };
template <class C, bool ONE> class OpBase : public OpState { public: using OpState::OpState; OpBase() = default; static bool classof(Operation* o) { return StringRef(o->name) == C::getOperationName(); } OperandRange getOperands() const { return state->getOperands(); } Value getOperand(unsigned i) const { return state->getOperand(i); } ResultRange getResults() const { return state->getResults(); } unsigned getNumOperands() const { return state->getNumOperands(); } unsigned getNumResults() const { return state->getNumResults(); } Value getOpResult(unsigned i) const { return state->getResult(i); } };
template <class C> class OneResultOp : public OpBase<C, true> { public: using OpBase<C, true>::OpBase; OneResultOp() = default; OpResult getResult() const { return this->state->getResult(0); } Type getType() const { return getResult().getType(); } operator Value() const { return getResult(); } void replaceAllUsesWith(Value v) { getResult().replaceAllUsesWith(v); } };
template <class T> T Value::getDefiningOp() const { return impl->def && T::classof(impl->def) ? T(impl->def) : T(); }
}
namespace llvm {
template <typename T> struct CastInfo<T, ::mlir::Operation*> : public ValueFromPointerCast<T, ::mlir::Operation, CastInfo<T, ::mlir::Operation*>> { static bool isPossible(::mlir::Operation* op) { return T::classof(op); } };
template <typename T> struct CastInfo<T, const ::mlir::Operation*> : public ConstStrippingForwardingCast<T, const ::mlir::Operation*, CastInfo<T, ::mlir::Operation*>> {};
template <typename T> struct CastInfo<T, ::mlir::Operation> : public NullableValueCastFailed<T>, public DefaultDoCastIfPossible<T, ::mlir::Operation&, CastInfo<T, ::mlir::Operation>> { static bool isPossible(::mlir::Operation& val) { return T::classof(&val); } static T doCast(::mlir::Operation& val) { return T(&val); } };
template <typename T> struct CastInfo<T, const ::mlir::Operation> : public ConstStrippingForwardingCast<T, const ::mlir::Operation, CastInfo<T, ::mlir::Operation>> {};
}
namespace mlir {
// ------------------------------------------------------------------ builders
class Builder { public: MLIRContext* getContext() const { return lce_ctx(); } Builder(MLIRContext* = nullptr) {}
  IntegerType getIntegerType(unsigned w) { return IntegerType::get(nullptr, w); } IntegerType getIntegerType(unsigned w, bool sg) { return IntegerType::get(nullptr, w, sg ? IntegerType::Signed : IntegerType::Unsigned); } IntegerType getI1Type() { return getIntegerType(1); } IntegerType getI8Type() { return getIntegerType(8); } IntegerType getI32Type() { return getIntegerType(32); } IntegerType getI64Type() { return getIntegerType(64); } FloatType getF32Type() { return FloatType::mk(32); } FloatType getF64Type() { return FloatType::mk(64); } NoneType getNoneType() { return NoneType::get(nullptr); } IndexType getIndexType() { return IndexType::get(nullptr); } FunctionType getFunctionType(TypeRange a, TypeRange b) { return FunctionType::get(nullptr, a, b); }
  IntegerAttr getI32IntegerAttr(int32_t v) { return IntegerAttr::get(getIntegerType(32), v); } IntegerAttr getI64IntegerAttr(int64_t v) { return IntegerAttr::get(getIntegerType(64), v); } IntegerAttr getIntegerAttr(Type t, int64_t v) { return IntegerAttr::get(t, v); } FloatAttr getF32FloatAttr(float v) { return FloatAttr::get(getF32Type(), v); } FloatAttr getFloatAttr(Type t, double v) { return FloatAttr::get(t, v); } StringAttr getStringAttr(StringRef v) { return StringAttr::get(nullptr, v); } BoolAttr getBoolAttr(bool v) { return BoolAttr::get(nullptr, v); } UnitAttr getUnitAttr() { return UnitAttr::get(nullptr); } ArrayAttr getArrayAttr(ArrayRef<Attribute> v) { return ArrayAttr::get(nullptr, v); } NamedAttribute getNamedAttr(StringRef n, Attribute v) { return NamedAttribute(getStringAttr(n), v); } Location getUnknownLoc() { return {}; } Location getFusedLoc(ArrayRef<Location>) { return {}; }
  ArrayAttr getI32ArrayAttr(ArrayRef<int32_t> v) { std::vector<Attribute> a; for (auto x : v) a.push_back(getI32IntegerAttr(x)); return getArrayAttr(a); } ArrayAttr getI64ArrayAttr(ArrayRef<int64_t> v) { std::vector<Attribute> a; for (auto x : v) a.push_back(getI64IntegerAttr(x)); return getArrayAttr(a); } DenseIntElementsAttr getI32VectorAttr(ArrayRef<int32_t> v) { return DenseIntElementsAttr(DenseElementsAttr::get<int32_t>(RankedTensorType::get({(int64_t)v.size()}, getIntegerType(32)), v).impl); } };
class OpBuilder : public Builder { public: Block* block = nullptr; Operation* before = nullptr; OpBuilder(MLIRContext* = nullptr) {} explicit OpBuilder(Operation* o) : block(o->block), before(o) {}
  void setInsertionPoint(Operation* o) { block = o->block; before = o; } void setInsertionPointToEnd(Block* b) { block = b; before = nullptr; } void setInsertionPointToStart(Block* b) { block = b; before = b->ops.empty() ? nullptr : b->ops[0]; } void setInsertionPointAfter(Operation* o) { block = o->block; before = nullptr; for (size_t i = 0; i + 1 < block->ops.size(); i++) if (block->ops[i] == o) before = block->ops[i + 1]; }
  struct InsertionGuard { OpBuilder& b; Block* bl; Operation* be; InsertionGuard(OpBuilder& x) : b(x), bl(x.block), be(x.before) {} ~InsertionGuard() { b.block = bl; b.before = be; } };
  Operation* insert(Operation* o) { o->block = block; if (!block) return o; auto& v = block->ops; if (!before) v.push_back(o); else { size_t i = 0; while (i < v.size() && v[i] != before) i++; v.insert(v.begin() + i, o); } return o; }
  Operation* create(const OperationState& s) { return insert(Operation::create(s)); }
  template <class Op, class... A> Op create(Location l, A&&... a) { OperationState st(l, Op::getOperationName()); Op::build(*this, st, std::forward<A>(a)...); return Op(insert(Operation::create(st))); }
  template <class Op, class... A> Op createOrFold(Location l, A&&... a) { return create<Op>(l, std::forward<A>(a)...); } };
using ImplicitLocOpBuilder = OpBuilder;
class RewriterBase : public OpBuilder { public: RewriterBase(MLIRContext* = nullptr) {}
  bool changed = false;
  void replaceOp(Operation* o, ValueRange n) { if (n.size() != o->results.size()) abort(); o->replaceAllUsesWith(n); changed = true; o->erase(); } void eraseOp(Operation* o) { changed = true; o->erase(); }
  void replaceOp(Operation* o, Operation* n) { replaceOp(o, n->getResults()); }
  template <class Op, class... A> Op replaceOpWithNewOp(Operation* o, A&&... a) { Op n = create<Op>(o->getLoc(), std::forward<A>(a)...); replaceOp(o, n.getOperation()->getResults()); return n; }
  template <class F> LogicalResult notifyMatchFailure(Operation*, F&&) { return failure(); } template <class F> LogicalResult notifyMatchFailure(Location, F&&) { return failure(); }
  void startRootUpdate(Operation*) {} void finalizeRootUpdate(Operation*) { changed = true; } void cancelRootUpdate(Operation*) {} template <class F> void updateRootInPlace(Operation*, F&& f) { f(); changed = true; } template <class F> void modifyOpInPlace(Operation*, F&& f) { f(); changed = true; } void startOpModification(Operation*) {} void finalizeOpModification(Operation*) { changed = true; } void replaceAllUsesWith(Value a, Value b) { a.replaceAllUsesWith(b); changed = true; } };
class PatternRewriter : public RewriterBase { public: PatternRewriter(MLIRContext* = nullptr) {} };
struct PatternBenefit { unsigned b; PatternBenefit(unsigned x = 1) : b(x) {} };
class RewritePattern { public: std::string root; unsigned benefit; RewritePattern(StringRef r, PatternBenefit b, MLIRContext* = nullptr, ArrayRef<StringRef> = {}) : root(r.str()), benefit(b.b) {} virtual ~RewritePattern() {} virtual LogicalResult matchAndRewrite(Operation* op, PatternRewriter& r) const { if (failed(match(op))) return failure(); rewrite(op, r); return success(); } virtual LogicalResult match(Operation*) const { return failure(); } virtual void rewrite(Operation*, PatternRewriter&) const {} MLIRContext* getContext() const { return lce_ctx(); } };
template <class Op> class OpRewritePattern : public RewritePattern { public: OpRewritePattern(MLIRContext* c, PatternBenefit b = 1, ArrayRef<StringRef> = {}) : RewritePattern(Op::getOperationName(), b, c) {} using RewritePattern::matchAndRewrite;
  LogicalResult matchAndRewrite(Operation* op, PatternRewriter& r) const final { return matchAndRewrite(Op(op), r); } virtual LogicalResult matchAndRewrite(Op op, PatternRewriter& r) const { if (failed(match(op))) return failure(); rewrite(op, r); return success(); } virtual LogicalResult match(Op) const { return failure(); } virtual void rewrite(Op, PatternRewriter&) const {} LogicalResult match(Operation* o) const final { return match(Op(o)); } void rewrite(Operation* o, PatternRewriter& r) const final { rewrite(Op(o), r); } };
class RewritePatternSet { public: std::vector<RewritePattern*> v; RewritePatternSet(MLIRContext*) {} MLIRContext* getContext() const { return lce_ctx(); } template <class... P, class... A> RewritePatternSet& add(A&&... a) { (v.push_back(new P(a...)), ...); return *this; } template <class... P, class... A> RewritePatternSet& insert(A&&... a) { return add<P...>(a...); } template <class P> RewritePatternSet& addWithLabel() { return *this; } };
using OwningRewritePatternList = RewritePatternSet;
class FrozenRewritePatternSet { public: std::vector<RewritePattern*> v; FrozenRewritePatternSet() = default; FrozenRewritePatternSet(RewritePatternSet&& s) : v(std::move(s.v)) {} };
struct GreedyRewriteConfig { bool useTopDownTraversal = false; bool enableRegionSimplification = true; int64_t maxIterations = 10; int64_t maxNumRewrites = -1; };
// ------------------------------------------------------------------ functions
namespace func {
class FuncOp : public OpBase<FuncOp, false> { public: using OpBase::OpBase; FuncOp() = default; static StringRef getOperationName() { return "func.func"; }
  FunctionType getFunctionType() const { return state->getAttrOfType<TypeAttr>("function_type").getValue().cast<FunctionType>(); } void setFunctionTypeAttr(TypeAttr t) { state->setAttr("function_type", t); } void setFunctionType(FunctionType t) { setFunctionTypeAttr(TypeAttr::get(t)); } void setType(FunctionType t) { setFunctionType(t); } TypeAttr getFunctionTypeAttr() const { return state->getAttrOfType<TypeAttr>("function_type"); }
  std::vector<BlockArgument> getArguments() const { return state->body->getArguments(); } BlockArgument getArgument(unsigned i) const { return state->body->getArgument(i); } unsigned getNumArguments() const { return state->body->args.size(); } ArrayRef<Type> getArgumentTypes() const { return getFunctionType().getInputs(); } ArrayRef<Type> getResultTypes() const { return getFunctionType().getResults(); } unsigned getNumResults() const { return getFunctionType().getNumResults(); }
  StringRef getName() const { return state->getAttrOfType<StringAttr>("sym_name").getValue(); } StringRef getSymName() const { return getName(); } Block& getBody() const { return *state->body; } Block& front() const { return *state->body; } bool empty() const { return !state->body; } bool isExternal() const { return !state->body; } template <class F> void walk(F&& f) { for (auto* o : std::vector<Operation*>(state->body->ops)) lce_walk(o, f); }
  template <class F> static void lce_walk(Operation* o, F& f) { if constexpr (std::is_invocable_v<F, Operation*>) f(o); else lce_walk2(o, f, &F::operator()); } template <class F, class R, class C, class A> static void lce_walk2(Operation* o, F& f, R (C::*)(A) const) { if (std::decay_t<A>::classof(o)) f(std::decay_t<A>(o)); } };
class ReturnOp : public OpBase<ReturnOp, false> { public: using OpBase::OpBase; ReturnOp() = default; static StringRef getOperationName() { return "func.return"; } static void build(OpBuilder&, OperationState& s, ValueRange v) { s.addOperands(v); } };
class FuncDialect {};
}
namespace arith {
class ConstantOp : public OneResultOp<ConstantOp> { public: using OneResultOp::OneResultOp; ConstantOp() = default; static StringRef getOperationName() { return "arith.constant"; } TypedAttr getValue() const { return state->getAttrOfType<TypedAttr>("value"); } TypedAttr getValueAttr() const { return getValue(); }
  static void build(OpBuilder&, OperationState& s, TypedAttr v) { s.addAttribute("value", v); s.addTypes(v.getType()); } static void build(OpBuilder&, OperationState& s, Type t, TypedAttr v) { s.addAttribute("value", v); s.addTypes(t); } static void build(OpBuilder&, OperationState& s, TypeRange t, ValueRange o, ArrayRef<NamedAttribute> a) { s.addTypes(t); s.addOperands(o); s.addAttributes(a); }
  static bool isBuildableWith(Attribute v, Type t) { auto ta = v.dyn_cast<TypedAttr>(); return ta && ta.getType() == t; } };
class ArithDialect {};
}
// ------------------------------------------------------------------ passes
class Pass { public: Operation* op_ = nullptr; bool failed_ = false; virtual ~Pass() {} virtual void runOnOperation() = 0; virtual StringRef getArgument() const { return ""; } virtual StringRef getDescription() const { return ""; } virtual StringRef getName() const { return ""; } virtual void getDependentDialects(DialectRegistry&) const {} MLIRContext& getContext() { return *lce_ctx(); } void signalPassFailure() { failed_ = true; } virtual LogicalResult initialize(MLIRContext*) { return success(); }
  template <class T> struct Option { T v{}; template <class P, class... A> Option(P&, StringRef, A&&... a) { (ini(a), ...); } Option(const Option& o) = default; template <class X> void ini(const X&) {} template <class X> void ini(const llvm::cl::initializer<X>& x) { v = (T)x.v; } void setValue(const T& x) { v = x; } const T& getValue() const { return v; } operator const T&() const { return v; } template <class X> Option& operator=(const X& x) { v = x; return *this; } bool operator==(const T& o) const { return v == o; } bool operator!=(const T& o) const { return v != o; } bool hasValue() const { return true; } const T& operator*() const { return v; } }; };
template <class T = void> class OperationPass : public Pass { public: T getOperation() { return T(op_); } };
template <> class OperationPass<void> : public Pass { public: Operation* getOperation() { return op_; } };
template <class D, class B> class PassWrapper : public B { public: PassWrapper() = default; PassWrapper(const PassWrapper&) = default; };
template <class T> using InterfacePass = OperationPass<T>;
template <class T> struct PassRegistration { PassRegistration() {} template <class F> PassRegistration(F&&) {} };
inline void registerPass(std::function<std::unique_ptr<Pass>()>) {}
// ------------------------------------------------------------------ the greedy driver
using FoldFn = OpFoldResult (*)(Operation*, ArrayRef<Attribute>);
class Dialect;
struct OpInfo { const char* name; FoldFn fold; bool pure; Dialect* d; };
inline std::vector<OpInfo>& lce_opinfo() { static std::vector<OpInfo> v; return v; }
inline const OpInfo* lce_info(Operation* o) { for (auto& i : lce_opinfo()) if (o->name == i.name) return &i; return nullptr; }
inline bool lce_pure(Operation* o) { if (o->name == "arith.constant") return true; if (o->name == "func.return") return false; auto* i = lce_info(o); return i && i->pure; }
inline Attribute (*&lce_other_folds())(Operation*) { static Attribute (*f)(Operation*) = nullptr; return f; }
struct DriverStats { int rewrites = 0; bool converged = true; };
inline DriverStats& lce_stats() { static DriverStats s; return s; }
class Dialect { public: virtual ~Dialect() {} MLIRContext* getContext() const { return lce_ctx(); } template <class T> void lce_add() { if (!lce_find(T::getOperationName())) lce_opinfo().push_back(OpInfo{T::getOperationName().data(), T::lce_folder, T::lce_pure, this}); } static bool lce_find(StringRef n) { for (auto& i : lce_opinfo()) if (n == StringRef(i.name)) return true; return false; }
  template <class... T> void addOperations() { (lce_add<T>(), ...); } template <class... T> void addTypes() {} template <class... T> void addAttributes() {} virtual Operation* materializeConstant(OpBuilder&, Attribute, Type, Location) { return nullptr; } };
inline LogicalResult applyPatternsAndFoldGreedily(func::FuncOp f, const FrozenRewritePatternSet& p, GreedyRewriteConfig = {}, bool* chg = nullptr) {
  std::vector<RewritePattern*> pats = p.v; std::stable_sort(pats.begin(), pats.end(), [](RewritePattern* a, RewritePattern* b) { return a->benefit > b->benefit; });
  Block* b = f.getOperation()->body; bool any = false; int round = 0; PatternRewriter rw;
  for (; round < 40; round++) { bool changed = false; std::vector<Operation*> work = b->ops;
    for (Operation* o : work) { if (o->erased) continue;
      if (lce_pure(o) && o->use_empty()) { o->erase(); changed = true; continue; }
      auto* inf = lce_info(o);
      if (inf && inf->fold && o->results.size() == 1) { std::vector<Attribute> cs; for (auto* v : o->operands) cs.push_back(v->def && v->def->name == "arith.constant" ? v->def->getAttr("value") : Attribute()); OpFoldResult r = inf->fold(o, cs);
        if (r) { rw.setInsertionPoint(o); Value nv = r.v; if (!nv) { Operation* c = inf->d->materializeConstant(rw, r.a, Type(o->results[0]->type), o->getLoc()); if (c) nv = c->getResult(0); } if (nv) { o->replaceAllUsesWith(ValueRange(nv)); o->erase(); changed = true; continue; } } }
      if (lce_other_folds() && o->results.size() == 1 && !o->operands.empty()) if (Attribute a = lce_other_folds()(o)) { rw.setInsertionPoint(o); auto c = rw.create<arith::ConstantOp>(o->getLoc(), Type(o->results[0]->type), a.cast<TypedAttr>()); o->replaceAllUsesWith(ValueRange(Value(c.getOperation()->getResult(0)))); o->erase(); changed = true; continue; }
      for (auto* q : pats) { if (q->root != o->name) continue; rw.setInsertionPoint(o); if (succeeded(q->matchAndRewrite(o, rw))) { changed = true; lce_stats().rewrites++; break; } } }
    if (!changed) break; any = true; }
  if (round >= 40) lce_stats().converged = false; if (chg) *chg = any; return success(round < 40); }
inline LogicalResult applyPatternsAndFoldGreedily(func::FuncOp f, RewritePatternSet&& p, GreedyRewriteConfig c = {}, bool* chg = nullptr) { return applyPatternsAndFoldGreedily(f, FrozenRewritePatternSet(std::move(p)), c, chg); }
inline LogicalResult applyPatternsGreedily(func::FuncOp f, RewritePatternSet&& p, GreedyRewriteConfig c = {}) { return applyPatternsAndFoldGreedily(f, FrozenRewritePatternSet(std::move(p)), c); }
struct IRMapping {};
}  // namespace mlir
#endif
