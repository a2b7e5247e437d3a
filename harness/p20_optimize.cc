// P20: the optimize rewrites (comparisons, fusions into binary convolutions, bitpacked output, pooling) leave the computed function unchanged.
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/optimize.cc"
using namespace mlir;
#ifndef PART
#define PART 0
#endif
static int64_t elems(const Shape& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
static std::vector<float> mix(int64_t n, std::initializer_list<float> v) { std::vector<float> r; for (int64_t i = 0; i < n; i++) r.push_back(v.begin()[(i * 5 + i / 3) % v.size()]); return r; }
static Value quantize(Fn& f, Value x) { auto s = x.getType().cast<ShapedType>().getShape(); Shape q(s.begin(), s.end()); q.back() = cdivE(q.back(), 32); return f.v("lq.Quantize", {x}, ten(q, i32())); }
static Shape shapeOf(Value x) { auto s = x.getType().cast<ShapedType>().getShape(); return Shape(s.begin(), s.end()); }
int harness_main() {
  LCETarget target = lce_choose("target", 0, 1) ? LCETarget::XCORE : LCETarget::ARM; int fold = (int)lce_choose("fold", 0, 1);
  static lq::LarqDialect ld(lce_ctx()); static TFL::TensorFlowLiteDialect td; lce_other_folds() = fold ? lce_eval_fold : nullptr;
  Fn f; std::vector<Tensor> args; std::vector<Value> res; const char* gone = nullptr; int thor = lce_tier();
  auto arg = [&](const Shape& s, int lo = -4, int hi = 4) { Value v = f.arg(ten(s, f32())); args.push_back(symTensor(v.getType(), "x", lo, hi)); return v; };
#if PART == 0  // Quantize(x <> t)
  static const int kC[] = {3, 2, 33, 65}; int C = kC[lce_choose("channels", 0, thor ? 3 : 2)]; static const char* kCmp[] = {"tfl.greater_equal", "tfl.less_equal", "tfl.greater", "tfl.less"}; int cmp = (int)lce_choose("comparison", 0, 3), xs = (int)lce_choose("x shape", 0, 3), ts = (int)lce_choose("t shape", 0, 3), tv = (int)lce_choose("t", 0, 4), swap = (int)lce_choose("swap", 0, 1), uses = (int)lce_choose("other use", 0, 1);
  if (fold || (xs && C > 3 && !thor) || (tv == 3 && (xs || C != 2))) lce_prune(); lce_go();
  Shape R = {2, C}; Shape sh[4] = {R, {C}, {}, {2, 1}}; auto bc = lce_bcast(ArrayRef<int64_t>(sh[xs].data(), sh[xs].size()), ArrayRef<int64_t>(sh[ts].data(), sh[ts].size())); if (bc.empty()) return 0; Shape O(bc.begin(), bc.end());
  Value x = arg(sh[xs]), t; int64_t n = elems(sh[ts]); if (tv == 0) t = f.cst<float>(sh[ts], f32(), std::vector<float>((size_t)n, 0.0f)); else if (tv == 1) t = f.cst<float>(sh[ts], f32(), mix(n, {0.5f, -1.0f, 0.0f})); else if (tv == 2) t = f.cst<float>(sh[ts], f32(), std::vector<float>((size_t)n, 1.5f)); else if (tv == 3) t = f.cst<float>(sh[ts], f32(), std::vector<float>((size_t)n, -0.0f)); else t = arg(sh[ts]);
  Value c = swap ? f.v(kCmp[cmp], {t, x}, ten(O, i1())) : f.v(kCmp[cmp], {x, t}, ten(O, i1())); res.push_back(quantize(f, c)); if (uses) res.push_back(c); gone = kCmp[cmp];
#elif PART == 1  // binary convolution, up to two elementwise operations, perhaps quantized
  static const char* kOps[] = {"", "tfl.add", "tfl.sub", "tfl.mul", "tfl.div", "tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1"}; int fam = (int)lce_choose("family", 0, 5); if (target == LCETarget::XCORE && fam != 4 && !thor) lce_prune();
  int o1 = 0, o2 = 0, q = (int)lce_choose("quantize", 0, 1), pad = 1, mb = 2, act = 0, vs = 0, dev = 0, och = 0;
  if (fam == 0) { o1 = (int)lce_choose("first", 1, 4); pad = (int)lce_choose("padding", 0, 3); mb = (int)lce_choose("multiplier and bias", thor ? 0 : 1, 3); act = (int)lce_choose("activation", 0, 3); vs = (int)lce_choose("value shape", 0, 2); if (!thor && fold && (pad > 1 || act > 1)) lce_prune(); if (vs && pad % 3) lce_prune(); }
  else if (fam == 1) { o1 = (int)lce_choose("first", 1, 4); vs = (int)lce_choose("value shape", 3, 7); pad = (int)lce_choose("padding", 0, thor ? 3 : 1); och = (int)lce_choose("output channels", 0, thor ? 2 : 1); mb = (int)lce_choose("multiplier and bias", thor ? 0 : 1, thor ? 3 : 2); o2 = (int)lce_choose("second", 0, thor ? 7 : 3); }
  else if (fam == 2) { o1 = (int)lce_choose("first", 1, 7); o2 = (int)lce_choose("second", 1, 7); mb = (int)lce_choose("multiplier and bias", 0, 3); pad = lce_choose("padding", 0, 1) ? 3 : 0; och = (int)lce_choose("output channels", 0, thor ? 2 : 0); act = (int)lce_choose("activation", 0, thor ? 3 : 0); vs = (int)lce_choose("value shape", 0, thor ? 1 : 0); if (!thor && pad && mb > 1) lce_prune(); }
  else if (fam == 3) { o1 = (int)lce_choose("first", 5, 7); mb = (int)lce_choose("multiplier and bias", 0, 3); pad = (int)lce_choose("padding", 0, 3); act = (int)lce_choose("activation", 0, 3); dev = lce_choose("deviation", 0, 1) ? 2 : 0; if (!thor && fold) lce_prune(); }
  else if (fam == 4) { if (!q) lce_prune(); mb = (int)lce_choose("multiplier and bias", 0, 3); pad = (int)lce_choose("padding", 0, 3); act = (int)lce_choose("activation", 0, 3); och = (int)lce_choose("output channels", 0, 2); static const int kD[] = {0, 2, 3, 4, 5}; dev = kD[lce_choose("deviation", 0, 4)]; if (dev && (och || (!thor && (act > 1 || pad > 1)))) lce_prune(); if (och == 2 && (mb < 2 || act > 1)) lce_prune(); }
  else { o1 = (int)lce_choose("first", 1, 4); dev = (int)lce_choose("deviation", 1, 6); mb = (int)lce_choose("multiplier and bias", 1, 3); pad = (int)lce_choose("padding", 0, thor ? 3 : 1); o2 = (int)lce_choose("second", 0, thor ? 7 : 0); }
  if ((fam == 1 || fam == 2) && och == 2 && mb == 3) lce_prune();
  lce_go();
  static const int kO[] = {2, 1, 33}; int O = kO[och]; Shape in = {1, 2, 3, 1}; int C = 3; int fh = O == 33 ? 1 : 2, fw = O == 33 ? 1 : 2; int sw = pad == 1 ? 2 : 1; bool same = pad >= 2; int pv = pad == 1 || pad == 3; if (dev == 6) pv = 0;
  PadE ph(same ? "SAME" : "VALID", 2, fh, 1, 1), pw(same ? "SAME" : "VALID", 3, fw, sw, 1); Shape out = {1, ph.out, pw.out, O};
  Value x = f.arg(ten(in, i32())); args.push_back(symPacked(in, C, "x")); Shape fs = {O, fh, fw, C}; Value w; if (dev == 5) { w = f.arg(ten(fs, f32())); Tensor t = Tensor::of(w.getType()); auto d = mix(elems(fs), {1, -1, -1, 1, 1, 1, -1}); for (size_t i = 0; i < d.size(); i++) t.f[i] = d[i]; args.push_back(t); } else w = f.cst<float>(fs, f32(), mix(elems(fs), {1, -1, -1, 1, 1, 1, -1}));
  std::vector<float> m, b; if (mb == 0) { m.assign(O, 1.0f); b.assign(O, 0.0f); } else if (mb == 1) { m = mix(O, {1.0f, 0.5f}); b = mix(O, {0.0f, 0.0f}); } else if (mb == 2) { m = mix(O, {0.5f, -2.0f, 1.0f, 0.25f}); b = mix(O, {-1.5f, 3.0f, 0.5f, -4.0f, 11.0f}); } else { m = mix(O, {-1.0f, 0.0f, 1.0f}); b = mix(O, {1.0f, -0.5f, 0.0f, -0.0f}); }
  if (O > 2 && mb == 2) for (int i = 0; i < O; i++) { if ((i * 11 + i / 4) % 5 > 2) m[i] = -m[i]; if (i % 2) b[i] *= 0.125f; }
  Value mv, bv; if (dev == 3) { mv = f.arg(ten({O}, f32())); Tensor t = Tensor::of(mv.getType()); t.f = m; args.push_back(t); } else mv = f.cst<float>({O}, f32(), m); if (dev == 4) { bv = f.arg(ten({O}, f32())); Tensor t = Tensor::of(bv.getType()); t.f = b; args.push_back(t); } else bv = f.cst<float>({O}, f32(), b);
  static const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
  Value c = f.v("lq.Bconv2d", {x, w, mv, bv, f.none()}, ten(out, f32()), {{"channels_in", I(C)}, {"dilation_height_factor", I(1)}, {"dilation_width_factor", I(1)}, {"fused_activation_function", S(kAct[act])}, {"pad_values", I(pv)}, {"padding", S(same ? "SAME" : "VALID")}, {"stride_height", I(1)}, {"stride_width", I(sw)}}); Value conv = c;
  auto op = [&](int o, Value v, int k) { if (!o) return v; Shape s = shapeOf(v); if (o >= 5) return f.v(kOps[o], {v}, ten(s, f32())); int oc = (int)s.back(); Shape vsh[8] = {{oc}, {}, {1}, {1, 1, 1, oc}, {1, out[1], 1, 1}, {1, out[1], out[2], oc}, oc == 1 ? Shape{3} : Shape{2, 1, 1, 1}, {oc, 1}}; Shape sh = vsh[k ? (vs == 6 ? 6 : vs ? 1 : 0) : vs]; std::initializer_list<float> vals = o == 4 ? std::initializer_list<float>{2.0f, -4.0f, 0.5f} : o == 3 ? o2 ? std::initializer_list<float>{-2.0f, 0.5f, 4.0f} : std::initializer_list<float>{-2.0f, 0.5f, 0.0f, 4.0f} : std::initializer_list<float>{2.5f, -1.0f, 0.0f}; auto data = mix(elems(sh), vals); if (o == 3 && elems(sh) == 1) data[0] = k ? 0.5f : -2.0f;
    Value u; if (dev == 1) { u = f.arg(ten(sh, f32())); Tensor t = Tensor::of(u.getType()); t.f = data; args.push_back(t); } else u = f.cst<float>(sh, f32(), data); auto bc = lce_bcast(ArrayRef<int64_t>(s.data(), s.size()), ArrayRef<int64_t>(sh.data(), sh.size())); if (bc.empty()) lce_prune(); Shape r(bc.begin(), bc.end()); bool swp = dev == 6 && k == 0; return f.v(kOps[o], {swp ? u : v, swp ? v : u}, ten(r, f32()), {{"fused_activation_function", S(dev == 6 ? "NONE" : k == 0 && dev == 0 && vs == 2 ? "RELU6" : "NONE")}}); };
  if (dev == 6 && (o1 == 4 || o2 == 4)) return 0;
  Value r1 = op(o1, c, 0), r2 = op(o2, r1, 1); if (q) res.push_back(quantize(f, r2)); else res.push_back(r2); if (dev == 2) res.push_back(o2 ? r1 : conv);
#else  // Quantize(MaxPool(x))
  static const int kG[][6] = {{2, 3, 2, 2, 1, 1}, {3, 3, 2, 2, 2, 2}, {3, 4, 3, 2, 1, 2}, {2, 2, 1, 1, 2, 1}, {4, 3, 2, 3, 3, 1}}; int g = (int)lce_choose("geometry", 0, thor ? 4 : 3), same = (int)lce_choose("same", 0, 1), act = (int)lce_choose("activation", 0, 3), uses = (int)lce_choose("other use", 0, 1), C = (int)lce_choose("channels", 0, 2); if (fold) lce_prune(); C = C == 0 ? 2 : C == 1 ? 1 : 33; if (C == 33 && (g || act)) lce_prune(); lce_go();
  PadE ph(same ? "SAME" : "VALID", kG[g][0], kG[g][2], kG[g][4], 1), pw(same ? "SAME" : "VALID", kG[g][1], kG[g][3], kG[g][5], 1); static const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
  Value x = arg({1, kG[g][0], kG[g][1], C}); Value p = f.v("tfl.max_pool_2d", {x}, ten({1, ph.out, pw.out, C}, f32()), {{"padding", S(same ? "SAME" : "VALID")}, {"stride_w", I(kG[g][5])}, {"stride_h", I(kG[g][4])}, {"filter_width", I(kG[g][3])}, {"filter_height", I(kG[g][2])}, {"fused_activation_function", S(kAct[act])}}); res.push_back(quantize(f, p)); if (uses) res.push_back(p); gone = "tfl.max_pool_2d";
#endif
  if (res.size() == 1) f.ret({res[0]}); else f.ret({res[0], res[1]});
  Eval e; auto before = e.run(f, args); std::vector<Type> types; for (auto v : res) types.push_back(v.getType());
  lce_assert(f.run(TFL::CreateOptimizeLCEPass(target)), "the pass succeeds"); lce_assert(f.wellFormed() && lce_stats().converged, "the function stays well formed and the rewrites terminate");
  if (gone) lce_cover(f.count(gone) ? "left" : "rewritten"); else lce_cover(lce_stats().rewrites ? "rewritten" : "left");
  auto after = e.run(f, args); lce_assert(before.size() == after.size(), "the function has as many results as before");
  for (unsigned i = 0; i < before.size(); i++) { lce_assert(f.result(i).getType() == types[i], "result types unchanged"); lce_assert(sameTensor(before[i], after[i]), "the rewritten function computes the same values"); }
  return 0; }
