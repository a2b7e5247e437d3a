// P09: the thresholds (and filter signs) of a bitpacked-output convolution write a 1 exactly when clamp(d) * multiplier + bias is negative.
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/optimize.cc"
using namespace mlir;
static const int kF[][3] = {{1, 1, 1}, {3, 3, 1}, {1, 2, 2}, {3, 3, 33}, {2, 1, 32}, {1, 1, 3}, {3, 2, 1}, {5, 5, 3}, {3, 3, 64}, {3, 3, 256}, {1, 1, 7}, {1, 1, 2}};
static const float kM[] = {1.0f, -1.0f, 0.5f, -0.25f, 0.0f, 0.1f, -0.1f, 3.0f, -0.7f, 1e-3f, -1e-3f, 1.0000001f, -0.99999994f, 1e-30f, 1e20f, -0.0f, 0.0123f, -57.3f, 1e-38f, 7.0f};
static const float kB[] = {0.0f, 1.0f, -1.0f, 0.5f, -2.25f, 0.1f, -7.3f, 100.0f, -0.0f, 1e-30f, -3e-41f, 1e30f, -0.0123f, 3.0000002f};
int harness_main() {
  // each case has one constant of the channel fixed and the other one arbitrary
  int sym = (int)lce_choose("symbolic multiplier", 0, 1);
  int fi = (int)lce_choose("filter", 0, lce_tier() ? 11 : 6), act = (int)lce_choose("activation", 0, 3), pad = (int)lce_choose("padding", 0, 1), mi = (int)lce_choose("constant", 0, sym ? 13 : 19); LCETarget target = pad ? LCETarget::XCORE : LCETarget::ARM; int fh = kF[fi][0], fw = kF[fi][1], ci = kF[fi][2], a = fh * fw * ci; if (pad && (fi > 1 || mi > 5)) lce_prune();
  int lo = act == 1 || act == 3 ? 0 : act == 2 ? -1 : -a, hi = act == 2 ? 1 : act == 3 ? 6 : a;
  lce_go(); static lq::LarqDialect ld(lce_ctx()); static TFL::TensorFlowLiteDialect td; lce_other_folds() = lce_eval_fold; Fn f; static const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
  const int O = 2; std::vector<float> w((size_t)O * a); for (int i = 0; i < O * a; i++) w[i] = (i * 7 + i / 3) % 4 < 2 ? 1.0f : -1.0f;
  // channel 0 is fixed, channel 1 has the multiplier of this case and an arbitrary bias
  float v = lce_symf("value"), m[O] = {-2.0f, sym ? v : kM[mi]}, b[O] = {0.5f, sym ? kB[mi] : v}; lce_assume((v == v) & (v <= 3e38f) & (v >= -3e38f));
  int ow = 3 - (pad ? 0 : fw > 3 ? 2 : fw - 1), in = fw > 3 ? fw : 3, inh = fh > 2 ? fh : 2; ow = pad ? in : in - fw + 1; int oh = pad ? inh : inh - fh + 1;
  Value x = f.arg(ten({1, inh, in, cdivE(ci, 32)}, i32())), wv = f.cst<float>({O, fh, fw, ci}, f32(), w), mv = f.cst<float>({O}, f32(), std::vector<float>(m, m + O)), bv = f.cst<float>({O}, f32(), std::vector<float>(b, b + O));
  Value c = f.v("lq.Bconv2d", {x, wv, mv, bv, f.none()}, ten({1, oh, ow, O}, f32()), {{"channels_in", I(ci)}, {"dilation_height_factor", I(1)}, {"dilation_width_factor", I(1)}, {"fused_activation_function", S(kAct[act])}, {"pad_values", I(pad)}, {"padding", S(pad ? "SAME" : "VALID")}, {"stride_height", I(1)}, {"stride_width", I(1)}}); Value q = f.v("lq.Quantize", {c}, ten({1, oh, ow, 1}, i32())); f.ret({q});
  lce_assert(f.run(TFL::CreateOptimizeLCEPass(target)) && f.wellFormed() && lce_stats().converged, "the pass succeeds");
  Operation* r = f.result(0).getDefiningOp(); if (r->name != "lq.Bconv2d") { lce_cover("left"); return 0; }
  auto cst = [&](unsigned i) { Operation* d = r->getOperand(i).getDefiningOp(); lce_assert(d && d->name == "arith.constant", "the operand is constant"); return Eval::fromAttr(d->getAttr("value")); };
  Tensor nw, th = cst(4); { Operation* d = r->getOperand(1).getDefiningOp(); if (d->name == "arith.constant") nw = cst(1); else { Eval e; for (auto* v : d->operands) e.set(Value(v), Eval::fromAttr(v->def->getAttr("value"))); e.step(d); nw = e.get(d->getResult(0)); } }
  lce_assert(th.k == kI32 && th.n() == (size_t)O && nw.k == kF32 && nw.n() == (size_t)O * a, "a threshold per channel and a filter of the old shape");
  for (int o = 0; o < O; o++) { bool neg = (nw.f[o * a] < 0) != (w[o * a] < 0); for (int i = 0; i < a; i++) lce_assert(nw.f[o * a + i] == (neg ? -w[o * a + i] : w[o * a + i]), "all weights of a channel keep or all flip their sign");
    double am = m[o] < 0 ? -(double)m[o] : (double)m[o], tol = (double)a * am * 4.76837158203125e-07;
    for (int pop = 0; pop <= a; pop += a > 40 ? a / 24 : 1) { int now = neg ? a - pop : pop, d = a - 2 * pop; int bit = now > th.i[o]; // what the run-time operator writes (P04-P06)
      int cl = d < lo ? lo : d; cl = cl > hi ? hi : cl; double c = -((double)cl * (double)m[o]); double bo = (double)b[o]; if (pop < 3) lce_observe(bit); // exact: negative iff bias < -clamp(d) * multiplier
      lce_assert((bit == (int)(bo < c)) | ((tol > 0) & (bo >= c - tol) & (bo <= c + tol) & (bo != c)), "a 1 is written exactly for negative values"); } }
  lce_cover("thresholds"); return 0; }
