// P16: the binary matrix product is exact for every block partition, block order, caching policy and packing layout.
#include "tfl_env.h"
#include "larq_compute_engine/core/bconv2d/optimized_bgemm.h"
using namespace compute_engine::core; using compute_engine::core::TBitpacked; namespace bg = compute_engine::core::bgemm; namespace cbg = tflite::cpu_backend_gemm;
using bconv2d::OutputTransform;
static const float kMu[] = {0.5f, -1.25f, 2.0f, -0.75f, 1.0f}; static const float kBi[] = {0.125f, -3.5f, 7.0f};
template <class D> struct Mk;
template <> struct Mk<float> { float *m, *b; int lo, hi; OutputTransform<float> t; void make(int n) { m = lce_new<float>(n, "mul"); b = lce_new<float>(n, "bias"); for (int i = 0; i < n; i++) { m[i] = kMu[i % 5]; b[i] = kBi[i % 3]; } t.clamp_min = lo = 8; t.clamp_max = hi = 96; t.multiplier = m; t.bias = b; lce_protect(m); lce_protect(b); } float want(int acc, int i) { int x = 2 * acc; x = x < hi ? x : hi; x = x > lo ? x : lo; return (float)x * m[i] + b[i]; } };
template <> struct Mk<int8_t> { float *m, *b; OutputTransform<int8_t> t; void make(int n) { m = lce_new<float>(n, "mul"); b = lce_new<float>(n, "bias"); for (int i = 0; i < n; i++) { m[i] = kMu[i % 5]; b[i] = kBi[i % 3] + 0.0625f; } t.clamp_min = 8; t.clamp_max = 96; t.multiplier = m; t.bias = b; } int8_t want(int acc, int i) { int x = 2 * acc; x = x < 96 ? x : 96; x = x > 8 ? x : 8; int r = (int)std::round((float)x * m[i] + b[i]); r = r < 127 ? r : 127; return (int8_t)(r > -128 ? r : -128); } };
template <> struct Mk<TBitpacked> { int32_t* th; OutputTransform<TBitpacked> t; void make(int n) { th = lce_sym<int32_t>(n, "thresholds"); t.thresholds = th; lce_protect(th); } bool want(int acc, int i) { return acc > th[i]; } };
template <class D> static D* Dst(int words) { D* d = lce_new<D>(words, "dst"); for (int i = 0; i < words; i++) d[i] = (D)(-77 - i % 3); return d; }
template <class D> static void CheckAll(Mk<D>& k, const TBitpacked* l, const TBitpacked* r, const D* d, int n, int m, int kk, int r0, int r1, int c0, int c1) {
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) { bool mine = i >= r0 && i < r1 && j >= c0 && j < c1; D v = d[j * n + i]; if (!mine) { lce_assert(v == (D)(-77 - (j * n + i) % 3), "nothing outside the block is written"); continue; }
    int acc = 0; for (int x = 0; x < kk; x++) acc += __builtin_popcount(l[i * kk + x] ^ r[j * kk + x]); lce_observe(lce_bits(v)); lce_assert(v == (D)k.want(acc, i), "element = transformed xor-popcount sum"); } }
template <> void CheckAll<TBitpacked>(Mk<TBitpacked>& k, const TBitpacked* l, const TBitpacked* r, const TBitpacked* d, int n, int m, int kk, int r0, int r1, int c0, int c1) {
  int w = cdiv(n, 32); for (int j = 0; j < m; j++) for (int wi = 0; wi < w; wi++) { TBitpacked v = d[j * w + wi]; bool mine = wi * 32 >= r0 && wi * 32 < r1 && j >= c0 && j < c1; if (!mine) { lce_assert(v == (TBitpacked)(-77 - (j * w + wi) % 3), "nothing outside the block is written"); continue; }
    uint32_t want = 0; for (int i = wi * 32; i < n && i < wi * 32 + 32; i++) { int acc = 0; for (int x = 0; x < kk; x++) acc += __builtin_popcount(l[i * kk + x] ^ r[j * kk + x]); want |= (uint32_t)k.want(acc, i) << (i % 32); } lce_observe(v); lce_assert((uint32_t)v == want, "element = transformed xor-popcount sum"); } }
struct Sz { int n, m, k; }; static const Sz kS[] = {{1, 1, 1}, {3, 2, 2}, {2, 5, 3}, {5, 4, 1}, {4, 3, 5}, {1, 7, 4}, {2, 3, 17}, {11, 1, 9}, {1, 13, 2}, {3, 1, 40}}; static const Sz kSb[] = {{1, 1, 1}, {32, 2, 1}, {33, 3, 1}, {40, 2, 2}, {64, 2, 1}, {33, 1, 9}, {70, 3, 1}, {130, 1, 1}};
template <class D, class A> static void Full() {
  const bool bit = std::is_same<D, TBitpacked>::value; Sz s = bit ? kSb[lce_choose("size", 0, lce_tier() ? 7 : 5)] : kS[lce_choose("size", 0, 9)]; int sched = (int)lce_choose("schedule", 0, 2), pol = (int)lce_choose("cache policy", 0, 2), calls = (int)lce_choose("calls", 1, 2); if (!lce_tier() && calls == 2 && sched == 1) lce_prune();
  lce_go(); TBitpacked *l = lce_sym<TBitpacked>((size_t)s.n * s.k, "lhs"), *r = lce_sym<TBitpacked>((size_t)s.m * s.k, "rhs"); lce_protect(l); lce_protect(r); Mk<D> k; k.make(s.n); tflite::CpuBackendContext ctx; ctx.ruy_context()->c_.schedule = sched;
  cbg::MatrixParams<TBitpacked> lp, rp; cbg::MatrixParams<D> dp; lp.order = cbg::Order::kRowMajor; lp.rows = s.n; lp.cols = s.k; lp.cache_policy = (cbg::CachePolicy)pol; rp.order = cbg::Order::kColMajor; rp.rows = s.k; rp.cols = s.m; dp.order = cbg::Order::kColMajor; dp.rows = s.n; dp.cols = s.m;
  for (int c = 0; c < calls; c++) { if (c) { r = lce_sym<TBitpacked>((size_t)s.m * s.k, "rhs2"); lce_cover("cached operand reused"); } D* d = Dst<D>(bit ? s.m * cdiv(s.n, 32) : s.m * s.n); bg::BGemm<A>(lp, l, rp, r, dp, d, k.t, &ctx); CheckAll<D>(k, l, r, d, s.n, s.m, s.k, 0, s.n, 0, s.m); }
  lce_cover("product"); }
// One block of the destination, with end coordinates rounded up past the matrix as ruy passes them.
template <class D, class A> static void Block() {
  const bool bit = std::is_same<D, TBitpacked>::value; Sz s = bit ? Sz{70, 3, 1} : Sz{5, 4, 2}; int rk = bit ? 32 : 1, nr = cdiv(s.n, rk); int b0 = (int)lce_choose("row block", 0, nr - 1), b1 = (int)lce_choose("row block end", b0 + 1, nr), c0 = (int)lce_choose("col", 0, s.m - 1), c1 = (int)lce_choose("col end", c0 + 1, s.m);
  lce_go(); TBitpacked *l = lce_sym<TBitpacked>((size_t)s.n * s.k, "lhs"), *r = lce_sym<TBitpacked>((size_t)s.m * s.k, "rhs"); Mk<D> k; k.make(s.n); D* d = Dst<D>(bit ? s.m * cdiv(s.n, 32) : s.m * s.n);
  ruy::Matrix<TBitpacked> lm, rm; ruy::Matrix<D> dm; ruy::MakeSimpleLayout(s.n, s.k, ruy::Order::kRowMajor, lm.mutable_layout()); lm.set_data(l); ruy::MakeSimpleLayout(s.k, s.m, ruy::Order::kColMajor, rm.mutable_layout()); rm.set_data(r); ruy::MakeSimpleLayout(s.n, s.m, ruy::Order::kColMajor, dm.mutable_layout()); dm.set_data(d);
  bg::BinaryMulParams<A, D> mp; mp.output_transform = k.t; ruy::TrMulParams p; ruy::Mat<D> md = ruy::ToInternal(dm); bg::PopulateBGemmTrMulParams<ruy::Path::kStandardCpp>(ruy::Transpose(ruy::ToInternal((const ruy::Matrix<TBitpacked>)lm)), ruy::ToInternal((const ruy::Matrix<TBitpacked>)rm), md, mp, &p);
  for (ruy::Side sd : {ruy::Side::kLhs, ruy::Side::kRhs}) { ruy::PEMat& m = p.packed_matrix[sd]; m.data = lce_alloc((size_t)ruy::FlatSize(m.layout) * 4, 0, "packed"); p.run_pack[sd](ruy::Tuning::kAuto, p.src[sd], &m, 0, m.layout.cols); }
  p.run_kernel(ruy::Tuning::kAuto, p.packed_matrix, p.mul_params_bytes, ruy::SidePair<int>(b0 * rk, c0), ruy::SidePair<int>(b1 * rk, c1), &p.dst); CheckAll<D>(k, l, r, d, s.n, s.m, s.k, b0 * rk, b1 * rk, c0, c1); lce_cover("single block"); }
// Packing: every word preserved, padding zero, nothing outside the requested columns written.
template <class L> static void PackL(ruy::Order o, int rows, int cols, int b0, int b1) {
  TBitpacked* s = lce_sym<TBitpacked>((size_t)rows * cols, "src", 0); lce_protect(s); ruy::Mat<TBitpacked> m; m.data.set(s); m.layout.rows = rows; m.layout.cols = cols; m.layout.order = o; m.layout.stride = o == ruy::Order::kColMajor ? rows : cols; ruy::PEMat pm; ruy::TrMulParams p; p.src[ruy::Side::kLhs] = ruy::EraseType(m); ruy::detail::CreatePackedMatrix<TBitpacked, TBitpacked>(ruy::Side::kLhs, ruy::ToKernelLayout<L>(), &p); pm = p.packed_matrix[ruy::Side::kLhs];
  int n = ruy::FlatSize(pm.layout); TBitpacked* d = Dst<TBitpacked>(n); pm.data = d; int c0 = b0 * L::kCols, c1 = std::min(b1 * (int)L::kCols, pm.layout.cols); bg::RunRuyPack<ruy::Path::kNeon, L>(ruy::Tuning::kAuto, p.src[ruy::Side::kLhs], &pm, c0, c1);
  for (int c = 0; c < pm.layout.cols; c++) for (int r = 0; r < pm.layout.rows; r++) { int off = ruy::Offset(pm.layout, r, c); TBitpacked v = d[off]; lce_observe(v); if (c < c0 || c >= c1) lce_assert(v == (TBitpacked)(-77 - off % 3), "other columns untouched"); else if (r < rows && c < cols) lce_assert(v == s[o == ruy::Order::kColMajor ? c * rows + r : r * cols + c], "packed word = source word"); else lce_assert(v == 0, "padding is zero"); }
  lce_cover("packed"); if (rows % 4 || cols % 4) lce_cover("packed with padding"); }
static void Pack() {
  int lay = (int)lce_choose("layout", 0, 3), rows = (int)lce_choose("rows", 1, lce_tier() ? 13 : 9), cols = (int)lce_choose("cols", 1, lce_tier() ? 13 : 9), ord = lay == 0 ? 0 : (int)lce_choose("order", 0, 1); int kc = lay == 0 ? 4 : lay == 1 ? 8 : lay == 2 ? 1 : 32, nb = cdiv(cols, kc); int b0 = (int)lce_choose("first block", 0, nb - 1), b1 = (int)lce_choose("last block", b0 + 1, nb); if (!lce_tier() && nb > 4 && b0 > 1 && b1 < nb) lce_prune();
  lce_go(); ruy::Order o = ord ? ruy::Order::kRowMajor : ruy::Order::kColMajor; const auto C = ruy::Order::kColMajor;
  if (lay == 0) PackL<ruy::FixedKernelLayout<C, 4, 4>>(o, rows, cols, b0, b1); else if (lay == 1) PackL<ruy::FixedKernelLayout<C, 4, 8>>(o, rows, cols, b0, b1); else if (lay == 2) PackL<ruy::FixedKernelLayout<C, 1, 1>>(o, rows, cols, b0, b1); else PackL<ruy::FixedKernelLayout<C, 1, 32>>(o, rows, cols, b0, b1); }
int harness_main() {
  int what = (int)lce_choose("what", 0, 2); if (what == 0) { Pack(); return 0; } int ty = (int)lce_choose("dst", 0, 2), acc = (int)lce_choose("acc16", 0, 1);
  if (what == 1) { if (ty == 0) { if (acc) Full<float, int16_t>(); else Full<float, int32_t>(); } else if (ty == 1) { if (acc) Full<int8_t, int16_t>(); else Full<int8_t, int32_t>(); } else { if (acc) Full<TBitpacked, int16_t>(); else Full<TBitpacked, int32_t>(); } }
  else { if (ty == 0) { if (acc) Block<float, int16_t>(); else Block<float, int32_t>(); } else if (ty == 1) { if (acc) Block<int8_t, int16_t>(); else Block<int8_t, int32_t>(); } else { if (acc) Block<TBitpacked, int16_t>(); else Block<TBitpacked, int32_t>(); } }
  return 0; }
