// Minimal stand-in for the parts of TensorFlow Lite the kernels are written against.
// Semantics follow TFLite (tensor indexing, padding arithmetic, im2col, activation ranges); see DESIGN.md "environment model".
#ifndef LCE_TFLITE_STUB_H_
#define LCE_TFLITE_STUB_H_
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

// ------------------------------------------------------------------ macros
#define TFLITE_ASSERT_FALSE std::abort()
#define TFLITE_DCHECK(c) ((c) ? static_cast<void>(0) : std::abort())
#define TFLITE_DCHECK_EQ(x, y) TFLITE_DCHECK((x) == (y))
#define TFLITE_DCHECK_NE(x, y) TFLITE_DCHECK((x) != (y))
#define TFLITE_DCHECK_GE(x, y) TFLITE_DCHECK((x) >= (y))
#define TFLITE_DCHECK_GT(x, y) TFLITE_DCHECK((x) > (y))
#define TFLITE_DCHECK_LE(x, y) TFLITE_DCHECK((x) <= (y))
#define TFLITE_DCHECK_LT(x, y) TFLITE_DCHECK((x) < (y))
#define TFLITE_CHECK(c) ((c) ? static_cast<void>(0) : std::abort())
#define TFLITE_CHECK_EQ(x, y) TFLITE_CHECK((x) == (y))
#define TFLITE_CHECK_NE(x, y) TFLITE_CHECK((x) != (y))
#define TFLITE_CHECK_GE(x, y) TFLITE_CHECK((x) >= (y))
#define TFLITE_CHECK_GT(x, y) TFLITE_CHECK((x) > (y))
#define TFLITE_CHECK_LE(x, y) TFLITE_CHECK((x) <= (y))
#define TFLITE_CHECK_LT(x, y) TFLITE_CHECK((x) < (y))
#define TF_LITE_ASSERT(x) do { if (!(x)) std::abort(); } while (0)
#define TF_LITE_ASSERT_EQ(x, y) do { if ((x) != (y)) std::abort(); } while (0)
#define TF_LITE_FATAL(msg) std::abort()
#define TFLITE_ABORT std::abort()
#define TFLITE_NOEXCEPT noexcept
#define TF_LITE_STATIC_MEMORY_UNDEFINED 1
#define TFLITE_LOG(x) ::tflite::NullStream()
#define TFLITE_ATTRIBUTE_WEAK
#define TFLITE_MUST_USE_RESULT

// ------------------------------------------------------------------ C API
typedef enum { kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2, kTfLiteApplicationError = 3 } TfLiteStatus;
typedef enum { kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3, kTfLiteInt64 = 4, kTfLiteString = 5, kTfLiteBool = 6, kTfLiteInt16 = 7, kTfLiteComplex64 = 8, kTfLiteInt8 = 9, kTfLiteFloat16 = 10, kTfLiteFloat64 = 11, kTfLiteComplex128 = 12, kTfLiteUInt64 = 13, kTfLiteResource = 14, kTfLiteVariant = 15, kTfLiteUInt32 = 16, kTfLiteUInt16 = 17, kTfLiteInt4 = 18 } TfLiteType;
typedef enum { kTfLiteMemNone = 0, kTfLiteMmapRo, kTfLiteArenaRw, kTfLiteArenaRwPersistent, kTfLiteDynamic, kTfLitePersistentRo, kTfLiteCustom } TfLiteAllocationType;
typedef enum { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef enum { kTfLitePaddingUnknown = 0, kTfLitePaddingSame, kTfLitePaddingValid } TfLitePadding;
typedef enum { kTfLiteActNone = 0, kTfLiteActRelu, kTfLiteActReluN1To1, kTfLiteActRelu6, kTfLiteActTanh, kTfLiteActSignBit, kTfLiteActSigmoid } TfLiteFusedActivation;
typedef struct { int width; int height; int width_offset; int height_offset; } TfLitePaddingValues;
typedef struct TfLiteIntArray { int size; int data[]; } TfLiteIntArray;
typedef struct TfLiteFloatArray { int size; float data[]; } TfLiteFloatArray;
typedef struct { float scale; int32_t zero_point; } TfLiteQuantizationParams;
typedef struct { TfLiteQuantizationType type; void* params; } TfLiteQuantization;
typedef struct { TfLiteFloatArray* scale; TfLiteIntArray* zero_point; int32_t quantized_dimension; } TfLiteAffineQuantization;
typedef union TfLitePtrUnion { int32_t* i32; int64_t* i64; float* f; uint8_t* uint8; bool* b; int16_t* i16; int8_t* int8; char* raw; const char* raw_const; void* data; } TfLitePtrUnion;
#define kTfLiteOptionalTensor (-1)
typedef struct TfLiteTensor {
  TfLiteType type; TfLitePtrUnion data; TfLiteIntArray* dims; TfLiteQuantizationParams params; TfLiteAllocationType allocation_type; size_t bytes; const void* allocation; const char* name; struct TfLiteDelegate* delegate; int buffer_handle; bool data_is_stale; bool is_variable; TfLiteQuantization quantization; void* sparsity; const TfLiteIntArray* dims_signature;
} TfLiteTensor;
typedef struct TfLiteNode { TfLiteIntArray* inputs; TfLiteIntArray* outputs; TfLiteIntArray* intermediates; TfLiteIntArray* temporaries; void* user_data; void* builtin_data; const void* custom_initial_data; int custom_initial_data_size; struct TfLiteDelegate* delegate; bool might_have_side_effect; } TfLiteNode;
struct TfLiteRegistration;
typedef struct TfLiteContext {
  size_t tensors_size; TfLiteTensor* tensors; void* impl_;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor* tensor, TfLiteIntArray* new_size);
  void (*ReportError)(struct TfLiteContext*, const char* msg, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int tensors_to_add, int* first_new_tensor_index);
  int recommended_num_threads; bool allow_fp32_relax_to_fp16;
} TfLiteContext;
typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext* context, const char* buffer, size_t length);
  void (*free)(TfLiteContext* context, void* buffer);
  TfLiteStatus (*prepare)(TfLiteContext* context, TfLiteNode* node);
  TfLiteStatus (*invoke)(TfLiteContext* context, TfLiteNode* node);
  const char* (*profiling_string)(const TfLiteContext* context, const TfLiteNode* node);
  int32_t builtin_code; const char* custom_name; int version;
} TfLiteRegistration;

inline TfLiteIntArray* TfLiteIntArrayCreate(int size) { TfLiteIntArray* r = (TfLiteIntArray*)std::malloc(sizeof(TfLiteIntArray) + sizeof(int) * (size_t)size); r->size = size; return r; }
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { std::free(a); }
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* a) { if (!a) return nullptr; TfLiteIntArray* r = TfLiteIntArrayCreate(a->size); for (int i = 0; i < a->size; i++) r->data[i] = a->data[i]; return r; }
inline int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b) { if (a == b) return 1; if (!a || !b || a->size != b->size) return 0; for (int i = 0; i < a->size; i++) if (a->data[i] != b->data[i]) return 0; return 1; }
inline int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int n, const int* b) { if (!a || a->size != n) return 0; for (int i = 0; i < n; i++) if (a->data[i] != b[i]) return 0; return 1; }
inline const char* TfLiteTypeGetName(TfLiteType) { return "type"; }

template <class... A> inline void lce_stub_log(TfLiteContext*, const char*, A...) {}
#define TF_LITE_KERNEL_LOG(context, ...) ::lce_stub_log((context), __VA_ARGS__)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...) ::lce_stub_log((context), __VA_ARGS__)
#define TF_LITE_ENSURE_MSG(context, value, ...) do { if (!(value)) { TF_LITE_KERNEL_LOG((context), __VA_ARGS__); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE(context, a) do { if (!(a)) { return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_STATUS(a) do { const TfLiteStatus s = (a); if (s != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_ENSURE_OK(context, a) do { const TfLiteStatus s = (a); if (s != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_ENSURE_EQ(context, a, b) do { if ((a) != (b)) { return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b) do { if ((a) != (b)) { return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_NEAR(context, a, b, eps) do { auto d = ((a) > (b)) ? ((a) - (b)) : ((b) - (a)); if (d > (eps)) return kTfLiteError; } while (0)

namespace tflite {
struct NullStream { template <class T> NullStream& operator<<(const T&) { return *this; } };
// ------------------------------------------------------------------ schema enums
enum Padding : int8_t { Padding_SAME = 0, Padding_VALID = 1, Padding_MIN = Padding_SAME, Padding_MAX = Padding_VALID };
enum ActivationFunctionType : int8_t { ActivationFunctionType_NONE = 0, ActivationFunctionType_RELU = 1, ActivationFunctionType_RELU_N1_TO_1 = 2, ActivationFunctionType_RELU6 = 3, ActivationFunctionType_TANH = 4, ActivationFunctionType_SIGN_BIT = 5, ActivationFunctionType_MIN = 0, ActivationFunctionType_MAX = 5 };

template <TfLiteType> struct TfLiteTypeToType {};
template <> struct TfLiteTypeToType<kTfLiteFloat32> { using Type = float; };
template <> struct TfLiteTypeToType<kTfLiteInt32> { using Type = int32_t; };
template <> struct TfLiteTypeToType<kTfLiteInt8> { using Type = int8_t; };
template <> struct TfLiteTypeToType<kTfLiteUInt8> { using Type = uint8_t; };
template <> struct TfLiteTypeToType<kTfLiteInt64> { using Type = int64_t; };
template <> struct TfLiteTypeToType<kTfLiteInt16> { using Type = int16_t; };
template <> struct TfLiteTypeToType<kTfLiteBool> { using Type = bool; };
template <class T> constexpr TfLiteType typeToTfLiteType() {
  return std::is_same<T, float>::value ? kTfLiteFloat32 : std::is_same<T, int32_t>::value ? kTfLiteInt32 : std::is_same<T, int8_t>::value ? kTfLiteInt8 : std::is_same<T, uint8_t>::value ? kTfLiteUInt8 : std::is_same<T, bool>::value ? kTfLiteBool : std::is_same<T, int64_t>::value ? kTfLiteInt64 : std::is_same<T, int16_t>::value ? kTfLiteInt16 : kTfLiteNoType; }

// ------------------------------------------------------------------ cppmath
template <class T> inline T TfLiteRound(const T x) { return std::round(x); }
template <class T> inline T TfLiteExpm1(const T x) { return std::expm1(x); }
template <class T> inline T TfLiteMin(const T& x, const T& y) { return std::min(x, y); }
template <class T> inline T TfLiteMax(const T& x, const T& y) { return std::max(x, y); }

// ------------------------------------------------------------------ RuntimeShape
class RuntimeShape {
 public:
  static constexpr int kMax = 8;
  RuntimeShape() : size_(0) {}
  explicit RuntimeShape(int n) : size_(n) { TFLITE_CHECK(n >= 0 && n <= kMax); }
  RuntimeShape(int n, int32_t value) : size_(0) { Resize(n); for (int i = 0; i < n; i++) SetDim(i, value); }
  RuntimeShape(int n, const int32_t* d) : size_(0) { ReplaceWith(n, d); }
  RuntimeShape(const std::initializer_list<int> l) : size_(0) { Resize((int)l.size()); int i = 0; for (int x : l) dims_[i++] = x; }
  bool operator==(const RuntimeShape& o) const { if (size_ != o.size_) return false; for (int i = 0; i < size_; i++) if (dims_[i] != o.dims_[i]) return false; return true; }
  bool operator!=(const RuntimeShape& o) const { return !(*this == o); }
  int32_t DimensionsCount() const { return size_; }
  int32_t Dims(int i) const { TFLITE_DCHECK(i >= 0 && i < size_); return dims_[i]; }
  void SetDim(int i, int32_t v) { TFLITE_DCHECK(i >= 0 && i < size_); dims_[i] = v; }
  int32_t* DimsData() { return dims_; }
  const int32_t* DimsData() const { return dims_; }
  const int32_t* DimsDataUpTo5D() const { return dims_; }
  void Resize(int n) { TFLITE_CHECK(n >= 0 && n <= kMax); size_ = n; }
  void ReplaceWith(int n, const int32_t* d) { Resize(n); for (int i = 0; i < n; i++) dims_[i] = d[i]; }
  template <typename T> void BuildFrom(const T& src) { Resize((int)std::distance(src.begin(), src.end())); int i = 0; for (auto it : src) dims_[i++] = it; }
  static RuntimeShape ExtendedShape(int n, const RuntimeShape& s) { RuntimeShape r(n, 1); int k = n - s.DimensionsCount(); for (int i = 0; i < s.DimensionsCount(); i++) r.SetDim(k + i, s.Dims(i)); return r; }
  int FlatSize() const { int b = 1; for (int i = 0; i < size_; i++) b *= dims_[i]; return b; }
 private:
  int32_t size_; int32_t dims_[kMax];
};
inline int Offset(const RuntimeShape& s, int i0, int i1, int i2, int i3) { TFLITE_DCHECK_EQ(s.DimensionsCount(), 4); const int* d = s.DimsData();
  TFLITE_DCHECK((d[0] == 0 && i0 == 0) || (i0 >= 0 && i0 < d[0])); TFLITE_DCHECK((d[1] == 0 && i1 == 0) || (i1 >= 0 && i1 < d[1])); TFLITE_DCHECK((d[2] == 0 && i2 == 0) || (i2 >= 0 && i2 < d[2])); TFLITE_DCHECK((d[3] == 0 && i3 == 0) || (i3 >= 0 && i3 < d[3]));
  return ((i0 * d[1] + i1) * d[2] + i2) * d[3] + i3; }
inline int Offset(const RuntimeShape& s, int* i) { return Offset(s, i[0], i[1], i[2], i[3]); }
inline int MatchingDim(const RuntimeShape& a, int i, const RuntimeShape& b, int j) { TFLITE_DCHECK_EQ(a.Dims(i), b.Dims(j)); return std::min(a.Dims(i), b.Dims(j)); }
template <typename... Args> int MatchingDim(const RuntimeShape& a, int i, const RuntimeShape& b, int j, Args... args) { TFLITE_DCHECK_EQ(a.Dims(i), b.Dims(j)); return MatchingDim(a, i, args...); }
inline int FlatSizeSkipDim(const RuntimeShape& s, int skip) { const int n = s.DimensionsCount(); TFLITE_DCHECK(skip >= 0 && skip < n); int f = 1; for (int i = 0; i < n; i++) f *= (i == skip) ? 1 : s.Dims(i); return f; }
inline int MatchingFlatSize(const RuntimeShape& a, const RuntimeShape& b) { const int n = a.DimensionsCount(); TFLITE_DCHECK_EQ(n, b.DimensionsCount()); for (int i = 0; i < n; i++) MatchingDim(a, i, b, i); return a.FlatSize(); }
inline int MatchingFlatSizeSkipDim(const RuntimeShape& a, int skip, const RuntimeShape& b) { const int n = a.DimensionsCount(); for (int i = 0; i < n; i++) if (i != skip) { TFLITE_DCHECK_EQ(a.Dims(i), b.Dims(i)); } return FlatSizeSkipDim(a, skip); }

enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues { int16_t width; int16_t height; int16_t width_offset; int16_t height_offset; };
struct ConvParams { PaddingType padding_type; PaddingValues padding_values; int16_t stride_width; int16_t stride_height; int16_t dilation_width_factor; int16_t dilation_height_factor; int32_t input_offset; int32_t weights_offset; int32_t output_offset; int32_t output_multiplier; int output_shift; int32_t quantized_activation_min; int32_t quantized_activation_max; float float_activation_min; float float_activation_max; };

// ------------------------------------------------------------------ kernel_util
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int i) { return t->dims->data[i]; }
inline int NumInputs(const TfLiteNode* n) { return n->inputs == nullptr ? 0 : n->inputs->size; }
inline int NumOutputs(const TfLiteNode* n) { return n->outputs == nullptr ? 0 : n->outputs->size; }
inline int NumIntermediates(const TfLiteNode* n) { return n->intermediates->size; }
inline int64_t NumElements(const TfLiteIntArray* d) { int64_t c = 1; for (int i = 0; i < d->size; i++) c *= d->data[i]; return c; }
inline int64_t NumElements(const TfLiteTensor* t) { return NumElements(t->dims); }
inline TfLiteTensor* LceTensorAt(const TfLiteContext* c, const TfLiteIntArray* l, int i) { if (!l || i < 0 || i >= l->size) return nullptr; int k = l->data[i]; if (k == kTfLiteOptionalTensor) return nullptr; TFLITE_CHECK(k >= 0 && (size_t)k < c->tensors_size); return &c->tensors[k]; }
inline const TfLiteTensor* GetInput(const TfLiteContext* c, const TfLiteNode* n, int i) { return LceTensorAt(c, n->inputs, i); }
inline TfLiteStatus GetInputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, const TfLiteTensor** t) { *t = LceTensorAt(c, n->inputs, i); return *t ? kTfLiteOk : kTfLiteError; }
inline const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* c, const TfLiteNode* n, int i) { return LceTensorAt(c, n->inputs, i); }
inline TfLiteTensor* GetVariableInput(TfLiteContext* c, const TfLiteNode* n, int i) { TfLiteTensor* t = LceTensorAt(c, n->inputs, i); return t && t->is_variable ? t : nullptr; }
inline TfLiteTensor* GetOutput(TfLiteContext* c, const TfLiteNode* n, int i) { return LceTensorAt(c, n->outputs, i); }
inline TfLiteStatus GetOutputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) { *t = LceTensorAt(c, n->outputs, i); return *t ? kTfLiteOk : kTfLiteError; }
inline TfLiteTensor* GetTemporary(TfLiteContext* c, const TfLiteNode* n, int i) { return LceTensorAt(c, n->temporaries, i); }
inline TfLiteStatus GetTemporarySafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) { *t = LceTensorAt(c, n->temporaries, i); return *t ? kTfLiteOk : kTfLiteError; }
inline bool IsConstantTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteMmapRo; }
inline bool IsConstantOrPersistentTensor(const TfLiteTensor* t) { return IsConstantTensor(t) || t->allocation_type == kTfLitePersistentRo; }
inline bool IsDynamicTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteDynamic; }
inline void SetTensorToDynamic(TfLiteTensor* t) { if (t->allocation_type != kTfLiteDynamic) { t->allocation_type = kTfLiteDynamic; t->data.raw = nullptr; } }
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) { return TfLiteIntArrayEqual(a->dims, b->dims); }
template <class T> inline T* GetTensorData(TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<T*>(t->data.raw) : nullptr; }
template <class T> inline const T* GetTensorData(const TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<const T*>(t->data.raw) : nullptr; }
inline RuntimeShape GetTensorShape(const TfLiteTensor* t) { if (t == nullptr) return RuntimeShape(); return RuntimeShape(t->dims->size, t->dims->data); }
inline RuntimeShape GetTensorShape(std::vector<int32_t> d) { return RuntimeShape((int)d.size(), d.data()); }
template <typename T> void CalculateActivationRange(TfLiteFusedActivation a, T* mn, T* mx) {
  if (a == kTfLiteActRelu) { *mn = 0; *mx = std::numeric_limits<T>::max(); } else if (a == kTfLiteActRelu6) { *mn = 0; *mx = 6; } else if (a == kTfLiteActReluN1To1) { *mn = -1; *mx = 1; } else { *mn = std::numeric_limits<T>::lowest(); *mx = std::numeric_limits<T>::max(); } }

// ------------------------------------------------------------------ padding
inline int ComputePadding(int stride, int dilation, int in, int filter, int out) { int e = (filter - 1) * dilation + 1; int p = ((out - 1) * stride + e - in) / 2; return p > 0 ? p : 0; }
inline int ComputePaddingWithOffset(int stride, int dilation, int in, int filter, int out, int* offset) { int e = (filter - 1) * dilation + 1; int t = ((out - 1) * stride + e - in); t = t > 0 ? t : 0; *offset = t % 2; return t / 2; }
inline int ComputeOutSize(TfLitePadding padding, int image, int filter, int stride, int dilation = 1) { int e = (filter - 1) * dilation + 1; if (stride == 0) return 0; switch (padding) { case kTfLitePaddingSame: return (image + stride - 1) / stride; case kTfLitePaddingValid: return (image + stride - e) / stride; default: return 0; } }
inline TfLitePaddingValues ComputePaddingHeightWidth(int stride_height, int stride_width, int dilation_rate_height, int dilation_rate_width, int in_height, int in_width, int filter_height, int filter_width, TfLitePadding padding, int* out_height, int* out_width) {
  *out_width = ComputeOutSize(padding, in_width, filter_width, stride_width, dilation_rate_width); *out_height = ComputeOutSize(padding, in_height, filter_height, stride_height, dilation_rate_height);
  TfLitePaddingValues v; int off = 0; v.height = ComputePaddingWithOffset(stride_height, dilation_rate_height, in_height, filter_height, *out_height, &off); v.height_offset = off; v.width = ComputePaddingWithOffset(stride_width, dilation_rate_width, in_width, filter_width, *out_width, &off); v.width_offset = off; return v; }

// ------------------------------------------------------------------ im2col (semantic model)
namespace optimized_ops {
template <typename T> inline void LceIm2colImpl(int sh, int sw, int dh, int dw, int ph, int pw, int kh, int kw, uint8_t zero_byte, const RuntimeShape& in, const T* in_data, int batches, int oh, int ow, T* out) {
  const int depth = in.Dims(3), ih = in.Dims(1), iw = in.Dims(2); T* o = out;
  for (int b = 0; b < batches; b++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int fy = 0; fy < kh; fy++) for (int fx = 0; fx < kw; fx++) {
    const int iy = y * sh - ph + dh * fy, ix = x * sw - pw + dw * fx;
    if (iy >= 0 && iy < ih && ix >= 0 && ix < iw) std::memcpy(o, in_data + Offset(in, b, iy, ix, 0), depth * sizeof(T)); else std::memset(o, zero_byte, depth * sizeof(T));
    o += depth; } }
template <typename T> void DilatedIm2col(const ConvParams& p, uint8_t zero_byte, const RuntimeShape& in, const T* in_data, const RuntimeShape& filter, const RuntimeShape& out, T* im2col_data) {
  const int batches = MatchingDim(in, 0, out, 0); MatchingDim(in, 3, filter, 3);
  LceIm2colImpl<T>(p.stride_height, p.stride_width, p.dilation_height_factor, p.dilation_width_factor, p.padding_values.height, p.padding_values.width, filter.Dims(1), filter.Dims(2), zero_byte, in, in_data, batches, out.Dims(1), out.Dims(2), im2col_data); }
template <typename T> void Im2col(const ConvParams& p, int kheight, int kwidth, uint8_t zero_byte, const RuntimeShape& in, const T* in_data, const RuntimeShape& out, T* output_data) {
  const int batches = MatchingDim(in, 0, out, 0);
  LceIm2colImpl<T>(p.stride_height, p.stride_width, 1, 1, p.padding_values.height, p.padding_values.width, kheight, kwidth, zero_byte, in, in_data, batches, out.Dims(1), out.Dims(2), output_data); }
}  // namespace optimized_ops

// ------------------------------------------------------------------ op resolver
class OpResolver { public: virtual ~OpResolver() {} };
class MutableOpResolver : public OpResolver { public: struct Entry { const char* name; const TfLiteRegistration* r; int version; }; Entry entries[32]; int n = 0;
  void AddCustom(const char* name, const TfLiteRegistration* r, int version = 1) { entries[n++] = Entry{name, r, version}; }
  const TfLiteRegistration* FindOp(const char* name, int version) const { for (int i = n - 1; i >= 0; i--) if (!std::strcmp(entries[i].name, name) && entries[i].version == version) return entries[i].r; return nullptr; } };
namespace ops { namespace builtin { class BuiltinOpResolver : public MutableOpResolver { public: bool lce_default_delegates = true; }; class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver { public: BuiltinOpResolverWithoutDefaultDelegates() { lce_default_delegates = false; } }; } }
}  // namespace tflite
#include "ruy_stub.h"
// ------------------------------------------------------------------ cpu backend
namespace tflite {
class CpuBackendContext { public: ruy::Context* ruy_context() { return &ctx_; } static CpuBackendContext* GetFromContext(TfLiteContext* c) { return static_cast<CpuBackendContext*>(c->impl_); } void SetMaxNumThreads(int n) { ctx_.set_max_num_threads(n); } private: ruy::Context ctx_; };
namespace cpu_backend_gemm {
enum class Order { kColMajor, kRowMajor };
enum class CachePolicy : uint8_t { kNeverCache, kCacheIfLargeSpeedup, kAlwaysCache };
inline CachePolicy DefaultCachePolicy(bool c) { return c ? CachePolicy::kCacheIfLargeSpeedup : CachePolicy::kNeverCache; }
template <typename Scalar> struct MatrixParams { Order order = Order::kColMajor; int rows = 0; int cols = 0; Scalar zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
namespace detail {
inline ruy::CachePolicy ToRuyCachePolicy(CachePolicy p) { switch (p) { case CachePolicy::kNeverCache: return ruy::CachePolicy::kNeverCache; case CachePolicy::kCacheIfLargeSpeedup: return ruy::CachePolicy::kCacheIfLargeSpeedup; case CachePolicy::kAlwaysCache: return ruy::CachePolicy::kAlwaysCache; } return ruy::CachePolicy::kNeverCache; }
template <typename Scalar, typename DataPointer> void MakeRuyMatrix(const MatrixParams<Scalar>& p, DataPointer data, ruy::Matrix<Scalar>* dst, bool use_caching = false) {
  ruy::Order o = p.order == Order::kColMajor ? ruy::Order::kColMajor : ruy::Order::kRowMajor; ruy::MakeSimpleLayout(p.rows, p.cols, o, dst->mutable_layout()); dst->set_data(data); dst->set_zero_point(p.zero_point); if (use_caching) dst->set_cache_policy(ToRuyCachePolicy(p.cache_policy)); }
}  // namespace detail
}  // namespace cpu_backend_gemm
}  // namespace tflite
#endif
