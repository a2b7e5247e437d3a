// P20: a float convolution of binarised values and the binary convolution it is converted to compute the same values, through every later pass.
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
#define pass pass_2
#include "larq_compute_engine/mlir/transforms/optimize.cc"
#undef pass
#define pass pass_3
#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
using namespace mlir;
int harness_main() {
  LCETarget target = lce_choose("target", 0, 1) ? LCETarget::XCORE : LCETarget::ARM; int fam = (int)lce_choose("family", 0, 3), fold = (int)lce_choose("fold", 0, 1), thor = lce_tier();
  static const int kF[][2] = {{2, 2}, {1, 1}, {3, 1}, {1, 3}, {3, 3}, {2, 3}}; static const int kS[][4] = {{1, 1, 1, 1}, {2, 1, 1, 1}, {1, 2, 1, 2}, {3, 2, 1, 1}, {1, 1, 2, 1}, {1, 1, 2, 2}}; static const int kIn[][2] = {{3, 3}, {2, 4}, {4, 3}, {1, 3}};
  int fi = (int)lce_choose("filter", 0, thor ? 5 : 4), st = 0, in_ = (int)lce_choose("input", 0, thor ? 3 : 2), same = 0, pads = 0, C = 2, O = 2, dev = 0, sc = 1, groups = 1, use = 0, quant = 0;
  if (fam == 0) { st = (int)lce_choose("stride and dilation", 0, 5); same = (int)lce_choose("same", 0, 1); }
  else if (fam == 1) { pads = (int)lce_choose("explicit padding", 1, 8); st = 4 * (int)lce_choose("dilation", 0, 1); use = (int)lce_choose("other use", 0, 2); }
  else if (fam == 2) { static const int kc[] = {1, 3, 33}; C = kc[lce_choose("channels", 0, 2)]; O = (int)lce_choose("output channels", 1, 3); sc = (int)lce_choose("scales", 0, 2); same = (int)lce_choose("same", 0, 1); quant = (int)lce_choose("quantized result", 0, 1); if (in_ || (C == 33 && fi != 1 && fi != 2)) lce_prune(); }
  else { dev = (int)lce_choose("deviation", 1, 8); same = (int)lce_choose("same", 0, 1); if (fi > 1 || in_) lce_prune(); }
  if (!thor && fold && fam != 2 && (fi + in_ + st) % 2) lce_prune(); lce_go();
  static lq::LarqDialect ld(lce_ctx()); static TF::TensorFlowDialect td; static TFL::TensorFlowLiteDialect tl; lce_other_folds() = fold ? lce_eval_fold : nullptr;
  if (dev == 7) { groups = 2; C = 64; O = 2; } Fn f; int H = kIn[in_][0], W = kIn[in_][1], fh = kF[fi][0], fw = kF[fi][1], sh = kS[st][0], sw = kS[st][1], dh = kS[st][2], dw = kS[st][3], eh = (fh - 1) * dh + 1, ew = (fw - 1) * dw + 1, Ci = C / groups; if (dev == 7) { H = W = 2; fh = fw = 1; eh = ew = 1; }
  Shape xs = {1, H, W, cdivE(C, 32)}; std::vector<Tensor> args; Value x = f.arg(ten(xs, i32())); args.push_back(symPacked(xs, C, "x")); Value d = f.v("lq.Dequantize", {x}, ten({1, H, W, C}, f32())); Value in = d; int ph = H, pw = W; bool skip = false;
  if (pads) {  // 1: what SAME would add; otherwise something else
    int th = eh - 1, tw = ew - 1, p[4] = {th / 2, th - th / 2, tw / 2, tw - tw / 2}; float v = 1.0f; if (pads == 2) p[0]++; if (pads == 3) p[3]++; if (pads == 4) { std::swap(p[0], p[1]); if (th % 2 == 0) { p[0]++; p[1]++; } } if (pads == 5) v = 0.0f; if (pads == 6) v = -1.0f; if (pads == 7) p[0] = p[1] = 0; if (pads == 8) v = 1.5f; ph = H + p[0] + p[1]; pw = W + p[2] + p[3]; in = f.v("tf.PadV2", {d, f.cst<int32_t>({4, 2}, i32(), {0, 0, p[0], p[1], p[2], p[3], 0, 0}), f.cst(v)}, ten({1, ph, pw, C}, f32())); }
  if (ph < eh || pw < ew) { if (!same) return 0; }
  std::vector<float> w; static const float kSc[] = {1.0f, 0.5f, 2.0f, 0.25f}; uint32_t r = 12345; for (int i = 0; i < fh * fw * Ci; i++) for (int o = 0; o < O; o++) { r = r * 1103515245u + 12345u; float s = sc == 0 ? 1.0f : kSc[(o + sc) % 4]; if (dev == 1 && i == 0 && o == O - 1) s *= 1.5f; if (dev == 2 && i == fh * fw * Ci - 1) s = 0.0f; w.push_back((r >> 16) & 1 ? s : -s); }
  PadE gh(same ? "SAME" : "VALID", ph, fh, sh, dh), gw(same ? "SAME" : "VALID", pw, fw, sw, dw); Shape out = {1, gh.out, gw.out, O}; Value wv; if (dev == 3) { wv = f.arg(ten({fh, fw, Ci, O}, f32())); Tensor t = Tensor::of(wv.getType()); t.f = w; args.push_back(t); } else wv = f.cst<float>({fh, fw, Ci, O}, f32(), w);
  if (dev == 4) in = f.v("tf.Identity", {in}, in.getType()); if (dev == 5) { in = f.arg(ten({1, H, W, C}, f32())); args.push_back(symTensor(in.getType(), "y", -2, 2)); }
  Value c = f.v("tf.Conv2D", {in, wv}, ten(out, f32()), {{"strides", L({1, sh, sw, 1})}, {"use_cudnn_on_gpu", B(true)}, {"padding", S(same ? "SAME" : "VALID")}, {"explicit_paddings", L({})}, {"data_format", S(dev == 6 ? "NCHW" : "NHWC")}, {"dilations", L({1, dh, dw, 1})}}); if (dev == 6) skip = true;
  std::vector<Value> res; if (quant) res.push_back(f.v("lq.Quantize", {c}, ten({1, gh.out, gw.out, cdivE(O, 32)}, i32()))); else res.push_back(c); if (use == 1) res.push_back(d); if (use == 2) res.push_back(in); if (dev == 8) res.push_back(wv);
  if (res.size() == 1) f.ret({res[0]}); else f.ret({res[0], res[1]}); Eval e; std::vector<Tensor> before; std::vector<Type> types; for (auto v : res) types.push_back(v.getType()); if (!skip) before = e.run(f, args);
  for (int step = 0; step < 3; step++) { bool ok = step == 0 ? f.run(TFL::CreatePrepareLCEPass(target)) : step == 1 ? f.run(TFL::CreateOptimizeLCEPass(target)) : f.run(TFL::CreateBitpackWeightsLCEPass()); lce_assert(ok, "the pass succeeds"); lce_assert(f.wellFormed() && lce_stats().converged, "the function stays well formed and the rewrites terminate");
    if (skip) { lce_assert(f.count("tf.Conv2D") == 1, "only NHWC convolutions are converted"); continue; }
    if (step == 0) { bool left = f.count("tf.Conv2D"); lce_cover(left ? "left" : "rewritten"); if (dev == 1 || dev == 2 || dev == 3 || dev == 5) lce_assert(left, "convolutions that are not binary are left"); }
    auto after = e.run(f, args); lce_assert(before.size() == after.size(), "the function has as many results as before");
    for (unsigned i = 0; i < before.size(); i++) { lce_assert(f.result(i).getType() == types[i], "result types unchanged"); lce_assert(sameTensor(before[i], after[i]), "the rewritten function computes the same values"); } }
  return 0; }
