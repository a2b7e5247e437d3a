// P13: after any sequence of data changes, resizes, reallocations and preparations every evaluation equals the one of a fresh node (= the mathematical result), and nodes do not influence each other.
#include "conv_env.h"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#ifndef KERNEL
#define KERNEL 0
#endif
struct G { int n, ih, iw; }; static const G kG[] = {{1, 3, 3}, {1, 5, 2}, {2, 2, 3}, {1, 3, 5}};
struct Cf { int cin, cout, groups, f, s, d, pad, act, out; };
static const Cf kC[] = {{32, 2, 1, 3, 1, 1, PAD_ONE, 0, O_FLOAT}, {40, 3, 1, 2, 2, 1, PAD_ONE, 1, O_FLOAT}, {4, 2, 1, 1, 1, 1, PAD_VALID, 0, O_INT8}, {33, 5, 1, 2, 1, 1, PAD_VALID, 0, O_BIT}, {32, 3, 1, 3, 1, 1, PAD_ZERO, 0, O_FLOAT}, {32, 2, 1, 1, 2, 1, PAD_ONE, 0, O_BIT}, {64, 4, 2, 2, 1, 1, PAD_ONE, 0, O_FLOAT}};
struct Node : ConvRun {
  void Make(const Cf& f, const G& g) { skip_both_edges = true; Conv k; k.kernel = KERNEL; k.n = g.n; k.ih = g.ih; k.iw = g.iw; k.cin = f.cin; k.cout = f.cout; k.groups = f.groups; k.fh = k.fw = f.f; k.sh = k.sw = f.s; k.dh = k.dw = f.d; k.pad = f.pad; k.act = f.act; k.out = f.out; Build(k); }
  void Feed(bool move) { lce_unprotect(in); if (move) { std::memset(in, 0x5a, (size_t)c.n * c.ih * c.iw * c.wi() * 4); std::free(in); in = Packed(c.n * c.ih * c.iw, c.cin, "input"); e.t[ti].data.data = in; } else { int px = c.n * c.ih * c.iw; lce_sym_array(in, 4, (size_t)px * c.wi(), "input"); if (c.cin % 32) for (int i = 0; i < px; i++) in[i * c.wi() + c.wi() - 1] &= LastMask(c.cin); } lce_protect(in); }
  void Resize(const G& g) { lce_unprotect(in); std::free(in); c.n = g.n; c.ih = g.ih; c.iw = g.iw; e.SetDims(ti, {c.n, c.ih, c.iw, c.wi()}); in = Packed(c.n * c.ih * c.iw, c.cin, "input"); e.t[ti].data.data = in; lce_protect(in); }
  void Prep() { lce_assert(e.Prepare() == kTfLiteOk, "prepare accepts"); lce_assert(ShapeOk(), "output shape"); e.Allocate(); }
  void Run(const char* lab) { lce_assert(e.Invoke() == kTfLiteOk, "invoke ok"); CheckOutput(lab); }
};
static void Conv_() {
  static Node a, b; Cf f = kC[lce_choose("conv", 0, KERNEL == K_BGEMM ? 5 : 6)]; int g0 = (int)lce_choose("size", 0, lce_tier() ? 3 : 1), steps = lce_tier() ? 3 : 2, ev[3], arg[3]; bool two = lce_choose("second node", 0, 1); Cf f2 = kC[(lce_tier() ? lce_choose("conv2", 0, 4) : (f.cin * 7 + f.cout + f.out) % 5)];
  if (f.pad == PAD_VALID && f.f > 2) lce_prune();
  for (int i = 0; i < steps; i++) { static const char* N[] = {"event1", "event2", "event3"}; static const char* M[] = {"size1", "size2", "size3"}; ev[i] = (int)lce_choose(N[i], 0, 4); arg[i] = ev[i] == 3 ? (int)lce_choose(M[i], 0, lce_tier() ? 3 : 2) : 0; }
  if (two && !lce_tier() && (ev[0] == 1 || ev[0] == 4 || (ev[1] != 0 && ev[1] != 3))) lce_prune(); if (!lce_tier() && ev[0] == 3 && arg[0] == g0) lce_prune(); if (!lce_tier() && two && g0 > 1) lce_prune(); if (lce_tier() && two && ev[0] != 3 && ev[1] != 3) lce_prune();
  lce_go();
  a.Make(f, kG[g0]); if (two) b.Make(f2, kG[(g0 + 1) % 4]); a.Prep(); if (two) b.Prep(); a.Run("first evaluation = fresh node"); if (two) b.Run("second node unaffected");
  const char* lab = "later evaluation = fresh node"; bool fail = false;
  for (int i = 0; i < steps; i++) { switch (ev[i]) {
      case 0: a.Feed(false); break;                                        // new data in the same buffer
      case 1: a.Prep(); lce_cover("prepared again"); break;                // prepared again, outputs and scratch elsewhere
      case 2: a.Feed(true); a.Prep(); lce_cover("input moved"); break;
      case 3: a.Resize(kG[arg[i]]); a.Prep(); lce_cover("input resized"); break;
      case 4: a.e.fail_resize = true; lce_assert(a.e.Prepare() != kTfLiteOk, "failing resize is reported"); a.e.fail_resize = false; a.Prep(); break; }
    a.Run(lab); if (two) { if (i == 0) b.Feed(false); b.Run("second node unaffected"); } }
  a.e.Free(); if (two) b.e.Free(); lce_cover("history"); (void)fail; }
static void Pool() {
  Env e; int same = (int)lce_choose("same", 0, 1), s = (int)lce_choose("stride", 1, 2), f = (int)lce_choose("filter", 2, 3), g[3]; static const char* N[] = {"size0", "size1", "size2"}; for (int i = 0; i < 3; i++) g[i] = (int)lce_choose(N[i], 0, 3); if (!same && f > 2) lce_prune();
  lce_go(); flexbuffers::Builder b; b.Map([&]() { b.Int("filter_height", f); b.Int("filter_width", f); b.Int("stride_height", s); b.Int("stride_width", s); b.Int("padding", same ? 0 : 1); }); b.Finish(); std::vector<uint8_t> o = b.GetBuffer();
  int ti = e.Tensor(kTfLiteInt32, {1, 1, 1, 2}, kTfLiteCustom), to = e.Tensor(kTfLiteInt32, {1, 1, 1, 1}); e.Io({ti}, {to}); e.Init(compute_engine::tflite::Register_BMAXPOOL_2D(), o.data(), o.size());
  for (int k = 0; k < 3; k++) { const G& q = kG[g[k]]; uint32_t* in = lce_sym<uint32_t>((size_t)q.n * q.ih * q.iw * 2, "input"); e.SetDims(ti, {q.n, q.ih, q.iw, 2}); e.t[ti].data.data = in; lce_assert(e.Prepare() == kTfLiteOk, "prepare accepts"); e.Allocate(); lce_assert(e.Invoke() == kTfLiteOk, "invoke ok");
    int oh = same ? cdiv(q.ih, s) : (q.ih - f) / s + 1, ow = same ? cdiv(q.iw, s) : (q.iw - f) / s + 1, ph = std::max(0, (oh - 1) * s + f - q.ih) / 2, pw = std::max(0, (ow - 1) * s + f - q.iw) / 2; if (!same) ph = pw = 0; lce_assert(e.DimsEq(to, {q.n, oh, ow, 2}), "output shape");
    for (int n = 0; n < q.n; n++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int c = 0; c < 2; c++) { uint32_t all = ~0u; for (int fy = 0; fy < f; fy++) for (int fx = 0; fx < f; fx++) { int iy = y * s + fy - ph, ix = x * s + fx - pw; if (iy >= 0 && iy < q.ih && ix >= 0 && ix < q.iw) all &= in[((n * q.ih + iy) * q.iw + ix) * 2 + c]; } uint32_t v = e.data<uint32_t>(to)[((n * oh + y) * ow + x) * 2 + c]; lce_observe(v); lce_assert(v == all, "later evaluation = fresh node"); } }
  e.Free(); lce_cover("pool history"); }
static void Quant() {
  Env e; int ty = (int)lce_choose("type", 0, 2), g[3]; static const char* N[] = {"size0", "size1", "size2"}; static const int R[] = {1, 2, 3}, C[] = {5, 33, 32, 70}; for (int i = 0; i < 3; i++) g[i] = (int)lce_choose(N[i], 0, 3);
  lce_go(); TfLiteType T = ty == 0 ? kTfLiteFloat32 : ty == 1 ? kTfLiteInt8 : kTfLiteBool; int ti = e.Tensor(T, {1, 1}, kTfLiteCustom), to = e.Tensor(kTfLiteInt32, {1, 1}); e.Io({ti}, {to}); if (ty == 1) e.Quant(ti, 0.5f, 3); e.Init(compute_engine::tflite::Register_QUANTIZE());
  for (int k = 0; k < 3; k++) { int r = R[(g[k] + k) % 3], c = C[g[k]], w = cdiv(c, 32); e.SetDims(ti, {r, c}); void* p = lce_alloc((size_t)r * c * type_size(T), 16, "input"); lce_sym_array(p, type_size(T), (size_t)r * c, "input"); if (ty == 2) for (int i = 0; i < r * c; i++) ((uint8_t*)p)[i] &= 1; e.t[ti].data.data = p; lce_assert(e.Prepare() == kTfLiteOk, "prepare accepts"); e.Allocate(); lce_assert(e.Invoke() == kTfLiteOk, "invoke ok"); lce_assert(e.DimsEq(to, {r, w}), "output shape");
    for (int i = 0; i < r; i++) for (int j = 0; j < w; j++) { uint32_t want = 0; for (int b = 0; b < 32 && j * 32 + b < c; b++) { int x = i * c + j * 32 + b; bool neg = ty == 0 ? ((float*)p)[x] < 0.0f : ty == 1 ? ((int8_t*)p)[x] < 3 : ((uint8_t*)p)[x] == 0; want |= (uint32_t)neg << b; } uint32_t v = e.data<uint32_t>(to)[i * w + j]; lce_observe(v); lce_assert(v == want, "later evaluation = fresh node"); } }
  lce_cover("quantize history"); }
int harness_main() {
#ifdef OTHER
  if (lce_choose("op", 0, 1)) Pool(); else Quant();
#else
  Conv_();
#endif
  return 0; }
