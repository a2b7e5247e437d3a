// P19: a float filter becomes a binary one only if all weights of each channel are +s or -s (0.5 % tolerance); the scale, the signs and the group structure are those of the float filter.
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
using namespace mlir;
static const int kF[][4] = {{1, 1, 1, 1}, {1, 1, 2, 2}, {2, 1, 1, 3}, {1, 2, 3, 2}, {2, 2, 2, 1}, {1, 1, 2, 7}, {5, 1, 1, 2}, {1, 6, 1, 2}, {3, 3, 1, 2}, {1, 1, 33, 2}, {6, 1, 1, 3}, {1, 1, 1, 18}, {2, 1, 9, 1}};
static const float kS[] = {1.0f, 0.25f, 3.7f, 1e-6f, 57000.0f, 0.001f};
static Tensor evalC(Value v, Eval& e) { Operation* d = v.getDefiningOp(); lce_assert(d != nullptr, "constants do not depend on inputs"); if (d->name == "arith.constant" || d->name == "tf.Const") return Eval::fromAttr(d->getAttr("value")); for (auto* o : d->operands) e.set(Value(o), evalC(Value(o), e)); e.step(d); return e.get(v); }
static uint32_t lce_bits_of(float x) { uint32_t r; std::memcpy(&r, &x, 4); return r; }
static float lce_float_of(uint32_t x) { float r; std::memcpy(&r, &x, 4); return r; }
static float ab(float x) { return lce_float_of(lce_bits_of(x) & 0x7fffffffu); }
int harness_main() {
  int part = (int)lce_choose("part", 0, 2), pad = (int)lce_choose("padded", 0, 1), fi = 0, pos = 0, si = 0, fc = 1, tgt = pad; static const int kC[] = {1, 2, 16, 31, 32, 33, 64, 96}; int pattern = (int)lce_choose("signs", 0, part == 2 ? 0 : part ? 3 : 1);
  if (part < 2) { fi = (int)lce_choose("filter", 0, lce_tier() ? 12 : 7); int n = kF[fi][0] * kF[fi][1] * kF[fi][2] * kF[fi][3]; if (part == 0) { pos = (int)lce_choose("position", 0, 17); si = (int)lce_choose("scale", 0, lce_tier() ? 5 : 2); if (n > 18 ? 0 : pos >= n) lce_prune(); if (n > 18 && pos > 3) pos = (pos * 7919) % n; } if (pad && fi > 1) lce_prune(); } else { fc = kC[lce_choose("filter channels", 0, 7)]; }
  lce_go(); static lq::LarqDialect ld(lce_ctx()); static TF::TensorFlowDialect td; Fn f;
  int fh = part < 2 ? kF[fi][0] : 1, fw = part < 2 ? kF[fi][1] : 1, ci = part < 2 ? kF[fi][2] : fc, O = part < 2 ? kF[fi][3] : 2; int n = fh * fw * ci * O; std::vector<float> w((size_t)n); int64_t cin = ci; if (part == 2) cin = lce_int("input channels", 1, 400);
  auto sign = [&](int i) { int b = pattern == 0 ? (i * 5 + i / O) % 3 == 0 : pattern == 1 ? (i / O) % 2 == 0 : pattern == 2 ? 0 : 1; return b ? -1.0f : 1.0f; };
  float s = lce_symf("value"); for (int i = 0; i < n; i++) w[i] = sign(i) * kS[(si + i % O) % 6]; if (part == 0) w[pos] = s; else if (part == 1) for (int i = 0; i < n; i += O) w[i] = sign(i) < 0 ? -s : s;
  int in = fh > 4 || fw > 4 ? 6 : 4, oh = pad ? in : in - fh + 1, ow = pad ? in : in - fw + 1; Value x = f.arg(ten({1, in, in, part == 2 ? (cin + 31) / 32 : cdivE(ci, 32)}, i32())), y = f.v("lq.Dequantize", {x}, ten({1, in, in, cin}, f32())); if (pad) { int ph = (fh - 1) / 2, qh = fh - 1 - ph, pw = (fw - 1) / 2, qw = fw - 1 - pw; Value p = f.cst<int32_t>({4, 2}, i32(), {0, 0, ph, qh, pw, qw, 0, 0}), c = f.cst(1.0f); y = f.v("tf.PadV2", {y, p, c}, ten({1, in + fh - 1, in + fw - 1, cin}, f32())); }
  Value fv = f.cst<float>({fh, fw, ci, O}, f32(), w); Value c = f.v("tf.Conv2D", {y, fv}, ten({1, oh, ow, O}, f32()), {{"strides", L({1, 1, 1, 1})}, {"use_cudnn_on_gpu", B(true)}, {"padding", S("VALID")}, {"explicit_paddings", L({})}, {"data_format", S("NHWC")}, {"dilations", L({1, 1, 1, 1})}}); f.ret({c});
  lce_assert(f.run(TFL::CreatePrepareLCEPass(tgt ? LCETarget::XCORE : LCETarget::ARM)) && f.wellFormed() && lce_stats().converged, "the pass succeeds"); Operation* r = f.result(0).getDefiningOp(); bool bin = r->name == "lq.Bconv2d";
  if (part == 2) { bool ok = cin % fc == 0; if (ok) ok = (cin == fc) | (fc % 32 == 0); if (!bin) { lce_assert(!ok, "a convolution with valid groups is binarised"); lce_assert(r->name == "tf.Conv2D" && r->getOperand(1) == fv && !c.getDefiningOp()->erased, "anything else is left as a float convolution"); lce_cover("groups rejected"); return 0; } lce_assert(ok, "groups are equal and of whole words"); lce_assert(num(r, "channels_in") == cin, "the number of input channels is carried over"); lce_observe((uint32_t)num(r, "channels_in")); lce_cover("groups accepted"); return 0; }
  // distance of every weight from its channel's scale (the property's own terms, in double precision)
  bool close = true, exact = true; for (int i = 0; i < n; i++) { float sc = ab(w[i % O]); if (i < O) { close &= (sc > 1e-30f) & (sc <= 3.4028234664e38f); exact &= (sc > 1.3e-7f) & (sc < 1e38f); continue; } float v = ab(w[i]); bool same = lce_bits_of(v) == lce_bits_of(sc); close &= same | (((double)v <= 1.0050001 * (double)sc) & ((double)v >= 0.9949999 * (double)sc)); exact &= same; }
  if (!bin) { lce_assert(!exact, "a filter of exactly +s and -s is binarised"); lce_assert(r->name == "tf.Conv2D" && r->getOperand(1) == fv && Eval::fromAttr(fv.getDefiningOp()->getAttr("value")).f.size() == (size_t)n, "any other filter stays a float filter"); lce_observe(0); lce_cover("left"); return 0; }
  lce_assert(close, "every weight of a binarised filter is +s or -s");
  Eval e; Tensor nw = evalC(r->getOperand(1), e), m = evalC(r->getOperand(2), e), b = evalC(r->getOperand(3), e); lce_assert(nw.k == kF32 && nw.s == (Shape{O, fh, fw, ci}) && m.k == kF32 && m.s == (Shape{O}) && b.k == kF32 && b.s == (Shape{O}), "binary filter, scale and bias have the right shapes");
  for (int o = 0; o < O; o++) { lce_assert((lce_bits_of(ab(m.f[o])) == lce_bits_of(ab(w[o]))) & (b.f[o] == 0.0f), "the scale is the channel's"); bool ms = m.f[o] < 0; for (int p = 0; p < fh * fw; p++) for (int i = 0; i < ci; i++) { float v = nw.f[(o * fh * fw + p) * ci + i], u = w[(p * ci + i) * O + o]; lce_assert((((v < 0) != ms) == (u < 0)) & (v == v) & (u == u), "sign times scale is the original weight"); } }
  lce_observe((uint32_t)(nw.f[0] < 0)); lce_cover("binarised"); return 0; }
