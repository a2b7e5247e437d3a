// P18: explicit padding in front of a convolution is folded into SAME padding only when the padded window and the output size are unchanged.
#include "mlir_env.h"
#ifdef PREPARE
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
#else
#include "larq_compute_engine/mlir/transforms/fuse_padding.cc"
#endif
using namespace mlir;
// one spatial dimension: sizes symbolic, output size as VALID convolution of the padded input computes it
struct Dim { int64_t in, before, after, filter, out, eff; int stride, dil;
  Dim(int s, int d, int64_t maxin, int64_t f = 0) : stride(s), dil(d) { in = lce_int("input size", 1, maxin); before = lce_int("pad before", 0, 8); after = lce_int("pad after", 0, 8); filter = f ? f : lce_int("filter size", 1, 7); eff = (filter - 1) * d + 1; out = lce_int("output size", 1, maxin + 16);
    int64_t room = in + before + after - eff; lce_assume((room >= (out - 1) * stride) & (room < out * stride)); }
  // what SAME padding of the unpadded input computes (TFLite's ComputePaddingHeightWidth and ComputeOutSize)
  int64_t sameOut() const { return (in + stride - 1) / stride; }
  int64_t sameTotal() const { int64_t t = (sameOut() - 1) * stride + eff - in; return t > 0 ? t : 0; }
  bool same() const { return (out == sameOut()) & (before == sameTotal() / 2); } };
int harness_main() {
  static const int kSD[][2] = {{1, 1}, {2, 1}, {3, 1}, {1, 2}, {2, 2}, {1, 3}, {4, 1}, {3, 2}}; int nsd = lce_tier() ? 8 : 5;
  int kind = (int)lce_choose("convolution", 0, 1), sh = (int)lce_choose("geometry h", 0, nsd - 1), sw = (int)lce_choose("geometry w", 0, nsd - 1), dev = (int)lce_choose("deviation", 0, 8);
  if (dev && (sh != 0 || sw != 1)) lce_prune();
#ifdef PREPARE
  if (kind) lce_prune();
  int fh = lce_choose("filter h", 1, lce_tier() ? 5 : 3), fw = lce_choose("filter w", 1, lce_tier() ? 5 : 3); LCETarget target = lce_choose("target", 0, 1) ? LCETarget::XCORE : LCETarget::ARM; if (!lce_tier() && dev && fh != fw) lce_prune();
  int padv2 = 1; float good = 1.0f;
#else
  int padv2 = (int)lce_choose("padv2", 0, 1); float good = 0.0f;
#endif
  if (!padv2 && (dev == 1 || dev == 2)) lce_prune();
  lce_go();
  int64_t maxin = lce_tier() ? 24 : 12; 
#ifdef PREPARE
  Dim h(kSD[sh][0], kSD[sh][1], maxin, fh), w(kSD[sw][0], kSD[sw][1], maxin, fw);
#else
  Dim h(kSD[sh][0], kSD[sh][1], maxin), w(kSD[sw][0], kSD[sw][1], maxin);
#endif

  bool valid = dev != 3; 
#ifdef PREPARE
  int64_t C = dev == 4 ? 64 : 2, O = dev == 4 ? 4 : 1, FC = dev == 4 ? 32 : C;  // behind a channel pad: a grouped convolution, which the unpadded input would fit as well
#else
  int64_t C = 5, O = 6;
#endif
  int64_t pc0 = 0, pc1 = 0, pb0 = 0, pb1 = 0; if (dev == 4) { pc0 = lce_int("channel pad", 0, 2); pc1 = lce_int("channel pad", 0, 2);
#ifdef PREPARE
    pc0 *= 32; pc1 *= 32; lce_assume((pc0 + pc1 == 32) | (pc0 + pc1 == 64));
#endif
  } if (dev == 5) { pb0 = lce_int("batch pad", 0, 2); pb1 = lce_int("batch pad", 0, 2); }
  int64_t oh = h.out, ow = w.out; if (!valid) { oh = (h.in + h.before + h.after + h.stride - 1) / h.stride; ow = (w.in + w.before + w.after + w.stride - 1) / w.stride; }
  Fn f; std::vector<int32_t> pads = {(int32_t)pb0, (int32_t)pb1, (int32_t)h.before, (int32_t)h.after, (int32_t)w.before, (int32_t)w.after, (int32_t)pc0, (int32_t)pc1};
  Shape inS = {2, h.in, w.in, C}, padS = {2 + pb0 + pb1, h.in + h.before + h.after, w.in + w.before + w.after, C + pc0 + pc1}, outS = {2 + pb0 + pb1, oh, ow, O};
  float pv = good; if (dev == 1) pv = lce_symf("pad value"); if (dev == 2) pv = -1.0f;
  std::vector<float> bias(O, 0.5f);
#ifdef PREPARE
  static lq::LarqDialect ld(lce_ctx()); static TF::TensorFlowDialect td;
  int64_t CH = C; Value in = f.arg(ten({2, h.in, w.in, (C + 31) / 32}, i32())); Value dq = f.v("lq.Dequantize", {in}, ten(inS, f32())); Value pd = f.cst<int32_t>({4, 2}, i32(), pads); Value pvv = f.cst<float>(dev == 6 ? Shape{1} : Shape{}, f32(), {pv}); Value pad = f.v("tf.PadV2", {dq, pd, pvv}, ten(padS, f32()));
  std::vector<float> fd((size_t)(h.filter * w.filter * FC * O), 1.0f);
  Value flt = f.cst<float>({h.filter, w.filter, FC, O}, f32(), fd); Value conv = f.v("tf.Conv2D", {pad, flt}, ten(outS, f32()), {{"strides", L({1, h.stride, w.stride, 1})}, {"use_cudnn_on_gpu", B(true)}, {"padding", S(valid ? "VALID" : "SAME")}, {"explicit_paddings", L({})}, {"data_format", S(dev == 7 ? "NCHW" : "NHWC")}, {"dilations", L({1, h.dil, w.dil, 1})}});
#else
  static TFL::TensorFlowLiteDialect td;
  Value in = f.arg(ten(inS, f32())), pd = f.cst<int32_t>(dev == 6 ? Shape{8} : Shape{4, 2}, i32(), pads); Value pad = padv2 ? f.v("tfl.padv2", {in, pd, f.cst(pv)}, ten(padS, f32())) : f.v("tfl.pad", {in, pd}, ten(padS, f32()));
  Value flt = f.arg(ten(kind ? Shape{1, h.filter, w.filter, C + pc0 + pc1} : Shape{O, h.filter, w.filter, C + pc0 + pc1}, f32())), bs = f.cst<float>({O}, f32(), bias);
  std::vector<std::pair<const char*, Attribute>> at = {{"dilation_h_factor", I(h.dil)}, {"dilation_w_factor", I(w.dil)}, {"fused_activation_function", S(dev == 7 ? "RELU6" : "NONE")}, {"padding", S(valid ? "VALID" : "SAME")}, {"stride_h", I(h.stride)}, {"stride_w", I(w.stride)}}; if (kind) at.push_back({"depth_multiplier", I(3)});
  Operation* co; { OperationState st(Location(), kind ? "tfl.depthwise_conv_2d" : "tfl.conv_2d"); st.addOperands(in); st.operands[0] = pad; st.addOperands(flt); st.addOperands(bs); st.addTypes(Type(ten(outS, f32()))); for (auto& a : at) st.addAttribute(a.first, a.second); co = f.b.create(st); } Value conv = co->getResult(0);
#endif
  if (dev == 8) f.ret({conv, pad}); else f.ret({conv});
#ifdef PREPARE
  lce_assert(f.run(TFL::CreatePrepareLCEPass(target)), "the pass succeeds");
#else
  lce_assert(f.run(TFL::CreateFusePaddingPass()), "the pass succeeds");
#endif
  Operation* r = f.result(0).getDefiningOp(); lce_assert(f.wellFormed() && r, "the function stays well formed"); lce_assert(f.result(0).getType() == Type(ten(outS, f32())), "result type unchanged");
  bool fused = r->getOperand(0) == in;
  lce_observe(fused);
  if (!fused) { lce_cover("pad kept"); Operation* p = r->getOperand(0).getDefiningOp(); lce_assert(p && (p->name == "tfl.pad" || p->name == "tfl.padv2" || p->name == "tf.PadV2") && str(r, "padding") == (valid ? "VALID" : "SAME"), "an explicit pad that is kept stays in front of the unchanged convolution"); return 0; }
  lce_cover("pad fused");
  lce_assert(valid, "only a VALID convolution takes over a pad"); lce_assert(pv == good, "only pads of the right value are fused"); lce_assert((pc0 == 0) & (pc1 == 0) & (pb0 == 0) & (pb1 == 0), "no batch or channel padding is fused");
  lce_assert(str(r, "padding") == "SAME", "the fused convolution has SAME padding");
#ifdef PREPARE
  bool known = (h.out == h.sameOut()) & (w.out == w.sameOut()) & (h.before == (h.before + h.after) / 2) & (w.before == (w.before + w.after) / 2) & ((h.before + h.after == h.sameTotal()) | (h.stride > 1)) & ((w.before + w.after == w.sameTotal()) | (w.stride > 1));
  if (known && !(h.same() & w.same())) { lce_fail("the fused window equals the padded window (one-padding, strided, output size of SAME padding but another amount)"); return 0; }
  lce_assert(dev != 7, "only NHWC convolutions are fused"); lce_assert(num(r, "pad_values") == 1, "pad value carried over"); lce_assert(r->name == "lq.Bconv2d" && num(r, "stride_height") == h.stride && num(r, "stride_width") == w.stride && num(r, "dilation_height_factor") == h.dil && num(r, "dilation_width_factor") == w.dil && num(r, "channels_in") == CH && str(r, "fused_activation_function") == "NONE", "strides, dilations and channels carried over");
#else
  lce_assert(num(r, "stride_h") == h.stride && num(r, "stride_w") == w.stride && num(r, "dilation_h_factor") == h.dil && num(r, "dilation_w_factor") == w.dil && str(r, "fused_activation_function") == (dev == 7 ? "RELU6" : "NONE") && (!kind || num(r, "depth_multiplier") == 3) && r->name == (kind ? "tfl.depthwise_conv_2d" : "tfl.conv_2d"), "strides, dilations and activation carried over"); lce_assert(r->getOperand(1) == flt && r->getOperand(2) == bs, "filter and bias carried over");
#endif
  lce_assert((h.out == h.sameOut()) & (w.out == w.sameOut()), "the fused output size is unchanged"); lce_assert(h.same() & w.same(), "the fused window equals the padded window at every output position");
  return 0; }
