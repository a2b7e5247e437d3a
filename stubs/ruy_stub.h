// Model of the parts of ruy (the GEMM library) that LCE plugs its kernels into: matrices, packing layouts, packed-matrix
// caching and block-wise TrMul scheduling.
#ifndef LCE_RUY_STUB_H_
#define LCE_RUY_STUB_H_
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <vector>
#define RUY_PLATFORM_NEON 0
#define RUY_PLATFORM_NEON_32 0
#define RUY_PLATFORM_NEON_64 0
#define RUY_PLATFORM_ARM_32 0
#define RUY_PLATFORM_ARM_64 0
#define RUY_PLATFORM_ARM 0
#define RUY_PLATFORM_X86 1
#define RUY_PLATFORM_AVX 0
#define RUY_OPT(x) LCE_RUY_OPT_##x
#ifndef LCE_RUY_OPT_FAT_KERNEL
#define LCE_RUY_OPT_FAT_KERNEL 1
#endif
#define LCE_RUY_OPT_ASM 0
#define LCE_RUY_OPT_AVOID_ALIASING 0
#define RUY_DCHECK(c) ((c) ? static_cast<void>(0) : std::abort())
#define RUY_DCHECK_EQ(x, y) RUY_DCHECK((x) == (y))
#define RUY_DCHECK_NE(x, y) RUY_DCHECK((x) != (y))
#define RUY_DCHECK_LE(x, y) RUY_DCHECK((x) <= (y))
#define RUY_DCHECK_LT(x, y) RUY_DCHECK((x) < (y))
#define RUY_DCHECK_GE(x, y) RUY_DCHECK((x) >= (y))
#define RUY_DCHECK_GT(x, y) RUY_DCHECK((x) > (y))
#define RUY_CHECK(c) RUY_DCHECK(c)
#define RUY_CHECK_EQ(x, y) RUY_DCHECK_EQ(x, y)
extern "C" long lce_choose(const char*, long, long);
extern "C" int lce_tier(void);
namespace ruy {
namespace profiler { struct ScopeLabel { template <class... A> explicit ScopeLabel(const char*, A...) {} ~ScopeLabel() {} }; }
using profiler::ScopeLabel;
enum class Order : uint8_t { kColMajor, kRowMajor };
enum class Side { kLhs = 0, kRhs = 1 };
inline Side OtherSide(Side s) { return s == Side::kLhs ? Side::kRhs : Side::kLhs; }
enum class CachePolicy : uint8_t { kNeverCache, kCacheIfLargeSpeedup, kCacheIfSignificantSpeedup, kAlwaysCache };
enum class Path : uint8_t { kNone = 0, kStandardCpp = 0x1, kInternalStandardCppVariant1 = 0x2, kNeon = 0x10, kNeonDotprod = 0x20, kAvx2Fma = 0x10, kAvx512 = 0x20, kAvx = 0x40 };
enum class Tuning { kAuto, kGeneric, kA55ish, kX1 };
static constexpr int kMaxMulParamsAlignment = 8;
static constexpr int kMaxMulParamsSize = 64;
template <typename T> class SidePair final { public: SidePair() {} SidePair(const T& a, const T& b) : e_{a, b} {} const T& operator[](Side s) const { return e_[(int)s]; } T& operator[](Side s) { return e_[(int)s]; } private: T e_[2]; };

class Layout final { public: int rows() const { return rows_; } int cols() const { return cols_; } int stride() const { return stride_; } Order order() const { return order_; } void set_rows(int v) { rows_ = v; } void set_cols(int v) { cols_ = v; } void set_stride(int v) { stride_ = v; } void set_order(Order v) { order_ = v; } private: int32_t rows_ = 0, cols_ = 0, stride_ = 0; Order order_ = Order::kColMajor; };
inline void MakeSimpleLayout(int rows, int cols, Order order, Layout* l) { l->set_rows(rows); l->set_cols(cols); l->set_order(order); l->set_stride(order == Order::kColMajor ? rows : cols); }
template <typename T> class Matrix final { public: const T* data() const { return const_cast<const T*>(p_); } T* data() { return p_; } void set_data(const T* p) { p_ = const_cast<T*>(p); } void set_data(T* p) { p_ = p; } const Layout& layout() const { return l_; } Layout* mutable_layout() { return &l_; } T zero_point() const { return zp_; } void set_zero_point(T z) { zp_ = z; } CachePolicy cache_policy() const { return cp_; } void set_cache_policy(CachePolicy c) { cp_ = c; } private: T* p_ = nullptr; Layout l_; T zp_ = 0; CachePolicy cp_ = CachePolicy::kNeverCache; };

struct MatLayout final { int32_t rows = 0, cols = 0, stride = 0; Order order = Order::kColMajor; };
template <typename T> class ConstCheckingPtr final { public: T* get() { return ptr_; } T* get() const { return const_cast<T*>(ptr_); } void set(T* p) { ptr_ = p; } void set(const T* p) { ptr_ = const_cast<T*>(p); } private: T* ptr_ = nullptr; };
template <typename T> struct Mat final { ConstCheckingPtr<T> data; MatLayout layout; T zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
inline MatLayout ToInternal(const Layout& s) { MatLayout r; r.rows = s.rows(); r.cols = s.cols(); r.stride = s.stride(); r.order = s.order(); return r; }
template <typename T> inline Mat<T> ToInternal(const Matrix<T>& s) { Mat<T> r; r.data.set(s.data()); r.layout = ToInternal(s.layout()); r.zero_point = s.zero_point(); r.cache_policy = s.cache_policy(); return r; }
template <typename T> inline Mat<T> ToInternal(Matrix<T>& s) { Mat<T> r; r.data.set(s.data()); r.layout = ToInternal(s.layout()); r.zero_point = s.zero_point(); r.cache_policy = s.cache_policy(); return r; }
struct KernelLayout final { Order order = Order::kColMajor; uint8_t rows = 1, cols = 1; };
struct PMatLayout final { int32_t rows = 0, cols = 0, stride = 0; Order order = Order::kColMajor; KernelLayout kernel; };
template <typename T> struct PMat final { T* data = nullptr; int32_t* sums = nullptr; PMatLayout layout; int32_t zero_point = 0; };
struct Type final { uint8_t size = 0; template <typename T> static Type Create() { Type t; t.size = sizeof(T); return t; } template <typename T> void AssertIs() const { RUY_DCHECK_EQ(size, sizeof(T)); } };
struct EMat final { Type data_type; void* data = nullptr; MatLayout layout; int32_t zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
struct PEMat final { Type data_type; Type sums_type; void* data = nullptr; void* sums = nullptr; PMatLayout layout; int32_t zero_point = 0; };
template <typename T> EMat EraseType(const Mat<T>& m) { EMat r; r.data_type = Type::Create<T>(); r.data = const_cast<void*>(static_cast<const void*>(m.data.get())); r.layout = m.layout; r.zero_point = (int32_t)m.zero_point; r.cache_policy = m.cache_policy; return r; }
template <typename T> Mat<T> UneraseType(const EMat& m) { m.data_type.AssertIs<T>(); Mat<T> r; r.data.set(static_cast<T*>(m.data)); r.layout = m.layout; r.zero_point = (T)m.zero_point; r.cache_policy = m.cache_policy; return r; }
template <typename T> PMat<T> UneraseType(const PEMat& m) { m.data_type.AssertIs<T>(); PMat<T> r; r.data = static_cast<T*>(m.data); r.sums = static_cast<int32_t*>(m.sums); r.layout = m.layout; r.zero_point = m.zero_point; return r; }
template <Order tOrder, int tRows, int tCols> struct FixedKernelLayout { static constexpr Order kOrder = tOrder; static constexpr int kRows = tRows; static constexpr int kCols = tCols; };
template <typename L> KernelLayout ToKernelLayout() { KernelLayout r; r.order = L::kOrder; r.rows = L::kRows; r.cols = L::kCols; return r; }
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const MatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsPacked(const MatLayout& l) { return l.stride == (l.order == Order::kColMajor ? l.rows : l.cols); }
inline int FlatSize(const PMatLayout& l) { return l.stride * (l.order == Order::kColMajor ? l.cols : l.rows); }
inline int Offset(const MatLayout& l, int row, int col) { int rs = l.order == Order::kColMajor ? 1 : l.stride; int cs = l.order == Order::kRowMajor ? 1 : l.stride; return row * rs + col * cs; }
inline int Offset(const PMatLayout& l, int row, int col) { int ro = row & ~(l.kernel.rows - 1), co = col & ~(l.kernel.cols - 1); int rso, cso; if (l.order == Order::kColMajor) { rso = l.kernel.cols; cso = l.stride; } else { rso = l.stride; cso = l.kernel.rows; } int oo = ro * rso + co * cso; int ri = row - ro, ci = col - co; int rsi = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols; int csi = l.kernel.order == Order::kColMajor ? l.kernel.rows : 1; return oo + ri * rsi + ci * csi; }
template <typename T> const T* ElementPtr(const Mat<T>& m, int r, int c) { return m.data.get() + Offset(m.layout, r, c); }
template <typename T> T* ElementPtr(Mat<T>* m, int r, int c) { return m->data.get() + Offset(m->layout, r, c); }
template <typename T> T Element(const Mat<T>& m, int r, int c) { return *ElementPtr(m, r, c); }
template <typename T> const T* ElementPtr(const PMat<T>& m, int r, int c) { return m.data + Offset(m.layout, r, c); }
template <typename T> T* ElementPtr(PMat<T>* m, int r, int c) { return m->data + Offset(m->layout, r, c); }
template <typename T> T Element(const PMat<T>& m, int r, int c) { return *ElementPtr(m, r, c); }
inline void Transpose(Order* o) { *o = *o == Order::kColMajor ? Order::kRowMajor : Order::kColMajor; }
inline void Transpose(MatLayout* l) { Transpose(&l->order); int t = l->rows; l->rows = l->cols; l->cols = t; }
template <typename T> inline Mat<T> Transpose(const Mat<T>& m) { Mat<T> r(m); Transpose(&r.layout); return r; }
inline constexpr int round_up_pot(int v, int m) { return (v + m - 1) & ~(m - 1); }

using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*, const SidePair<int>&, const SidePair<int>&, EMat*);
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
struct TrMulParams { TrMulParams() : run_pack{nullptr, nullptr}, is_prepacked{false, false} {} int local_data_cache_size = 32768, last_level_cache_size = 1 << 20; Path path = Path::kNone; SidePair<RunPackFn*> run_pack; RunKernelFn* run_kernel = nullptr; SidePair<EMat> src; EMat dst; SidePair<PEMat> packed_matrix; SidePair<bool> is_prepacked; alignas(kMaxMulParamsAlignment) char mul_params_bytes[kMaxMulParamsSize]; };

template <Path P, typename L, typename Scalar, typename PackedScalar, typename Sums, Order SrcOrder> struct PackImpl {
  static void Run(Tuning, const Mat<Scalar>& src, PMat<PackedScalar>* packed, int start_col, int end_col) {
    for (int c = start_col; c < end_col; c++) for (int r = 0; r < packed->layout.rows; r++) { PackedScalar v; if (c < src.layout.cols && r < src.layout.rows) v = Element(src, r, c); else v = (PackedScalar)packed->zero_point; *ElementPtr(packed, r, c) = v; } } };

class Allocator { public: std::vector<void*> blocks; void* Alloc(size_t n) { void* p = std::malloc(n); blocks.push_back(p); return p; } void FreeAll() { for (void* p : blocks) std::free(p); blocks.clear(); } ~Allocator() { FreeAll(); } };
struct PrepackedEntry { const void* src; MatLayout layout; PMatLayout playout; void* data; };
class Ctx { public: Allocator alloc; std::vector<PrepackedEntry> cache; Allocator* GetMainAllocator() { return &alloc; } int schedule = 0; int max_threads = 1; ~Ctx() { for (auto& e : cache) std::free(e.data); } };
class Context { public: Context() {} void set_max_num_threads(int n) { c_.max_threads = n; } int max_num_threads() const { return c_.max_threads; } void ClearPrepackedCache() { for (auto& e : c_.cache) std::free(e.data); c_.cache.clear(); } Ctx c_; };
inline Ctx* get_ctx(Context* c) { return &c->c_; }
inline const Ctx& get_ctx(const Context& c) { return c.c_; }

namespace detail {
template <typename Scalar, typename PackedScalar> void CreatePackedMatrix(Side side, const KernelLayout& k, TrMulParams* p) {
  const EMat& src = p->src[side]; PEMat* m = &p->packed_matrix[side]; m->data_type = Type::Create<PackedScalar>(); m->sums_type = Type::Create<int32_t>();
  m->layout.order = Order::kColMajor; m->layout.rows = round_up_pot(src.layout.rows, k.rows); m->layout.cols = round_up_pot(src.layout.cols, k.cols); m->layout.stride = m->layout.rows; m->layout.kernel = k; m->zero_point = src.zero_point; }
}  // namespace detail
inline bool LceSameLayout(const MatLayout& a, const MatLayout& b) { return a.rows == b.rows && a.cols == b.cols && a.stride == b.stride && a.order == b.order; }
inline bool ShouldCache(const TrMulParams& p, Side s) { const Side o = OtherSide(s); int ow = p.src[o].layout.cols, okw = p.packed_matrix[o].layout.kernel.cols; switch (p.src[s].cache_policy) { case CachePolicy::kNeverCache: return false; case CachePolicy::kAlwaysCache: return true; case CachePolicy::kCacheIfLargeSpeedup: return ow <= okw; case CachePolicy::kCacheIfSignificantSpeedup: return ow <= 4 * okw; } return false; }
inline void PreparePackedMatrices(Ctx* ctx, TrMulParams* p) {
  for (Side side : {Side::kLhs, Side::kRhs}) { PEMat& m = p->packed_matrix[side]; if (!ShouldCache(*p, side)) continue;
    const EMat& src = p->src[side]; bool hit = false; for (auto& e : ctx->cache) if (e.src == src.data && LceSameLayout(e.layout, src.layout) && e.playout.kernel.rows == m.layout.kernel.rows && e.playout.kernel.cols == m.layout.kernel.cols) { m.data = e.data; hit = true; }
    if (!hit) { m.data = std::malloc((size_t)FlatSize(m.layout) * m.data_type.size + 1); p->run_pack[side](Tuning::kAuto, src, &m, 0, m.layout.cols); ctx->cache.push_back(PrepackedEntry{src.data, src.layout, m.layout, m.data}); }
    p->is_prepacked[side] = true; } }
// Block-wise TrMul.  ctx->schedule selects the partition:  0 = one block (single thread); 1 = every kernel-sized block on its own,
// in an order chosen symbolically by the harness; 2 = as 1, in reverse order.
inline void TrMul(Ctx* ctx, TrMulParams* p) {
  for (Side side : {Side::kLhs, Side::kRhs}) { PEMat& m = p->packed_matrix[side]; if (p->is_prepacked[side]) continue; m.data = ctx->GetMainAllocator()->Alloc((size_t)FlatSize(m.layout) * m.data_type.size + 1); }
  int rows = p->packed_matrix[Side::kLhs].layout.cols, cols = p->packed_matrix[Side::kRhs].layout.cols; int rk = p->packed_matrix[Side::kLhs].layout.kernel.cols, ck = p->packed_matrix[Side::kRhs].layout.kernel.cols;
  if (ctx->schedule == 0) { for (Side side : {Side::kLhs, Side::kRhs}) if (!p->is_prepacked[side]) p->run_pack[side](Tuning::kAuto, p->src[side], &p->packed_matrix[side], 0, p->packed_matrix[side].layout.cols);
    p->run_kernel(Tuning::kAuto, p->packed_matrix, p->mul_params_bytes, SidePair<int>(0, 0), SidePair<int>(rows, cols), &p->dst); return; }
  struct B { int r0, r1, c0, c1; }; std::vector<B> blocks; int br = rk, bc = ck; int nr = (rows + br - 1) / br, nc = (cols + bc - 1) / bc;
  // block sizes are chosen multiples of the kernel sizes
  if (ctx->schedule == 1) { br = rk * (int)lce_choose("block_rows", 1, nr < 2 ? 1 : 2); bc = ck * (int)lce_choose("block_cols", 1, nc < 3 ? (nc < 1 ? 1 : nc) : 3); }
  for (int r = 0; r < rows; r += br) for (int c = 0; c < cols; c += bc) blocks.push_back(B{r, r + br < rows ? r + br : rows, c, c + bc < cols ? c + bc : cols});
  std::vector<char> lp(nr, 0), rp(nc, 0); int n = (int)blocks.size();
  for (int i = 0; i < n; i++) { int k = ctx->schedule == 2 ? n - 1 - i : i; if (ctx->schedule == 1 && n - i > 1 && i < (lce_tier() ? 3 : 1)) { int pick = (int)lce_choose("next_block", i, n - 1); B t = blocks[i]; blocks[i] = blocks[pick]; blocks[pick] = t; }
    B b = blocks[k];
    if (!p->is_prepacked[Side::kLhs]) for (int r = b.r0; r < b.r1; r += rk) if (!lp[r / rk]) { p->run_pack[Side::kLhs](Tuning::kAuto, p->src[Side::kLhs], &p->packed_matrix[Side::kLhs], r, r + rk); lp[r / rk] = 1; }
    if (!p->is_prepacked[Side::kRhs]) for (int c = b.c0; c < b.c1; c += ck) if (!rp[c / ck]) { p->run_pack[Side::kRhs](Tuning::kAuto, p->src[Side::kRhs], &p->packed_matrix[Side::kRhs], c, c + ck); rp[c / ck] = 1; }
    p->run_kernel(Tuning::kAuto, p->packed_matrix, p->mul_params_bytes, SidePair<int>(b.r0, b.c0), SidePair<int>(b.r1, b.c1), &p->dst); } }
}  // namespace ruy
#endif
