// P14: the run-time operators configured by the options the converter writes compute what the lq operations mean, and options with missing entries are refused.
#include "conv_env.h"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "mlir_env.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/legalize_tflite.cc"
#ifndef KERNEL
#define KERNEL 0
#endif
struct Geo { int ih, iw, fh, fw, sh, sw, dh, dw; };
static const Geo kGeo[] = {{4, 5, 3, 2, 1, 2, 1, 1}, {5, 4, 2, 3, 2, 1, 1, 1}, {5, 5, 2, 2, 1, 1, 2, 1}, {4, 6, 2, 2, 1, 3, 1, 3}, {3, 3, 3, 3, 1, 1, 1, 1}, {6, 3, 1, 2, 3, 2, 1, 2}, {3, 4, 2, 2, 257, 129, 1, 1}, {1, 260, 1, 2, 1, 1, 1, 257}, {260, 1, 2, 1, 2, 1, 257, 1}};
static const int kCh[][3] = {{3, 1, 2}, {33, 1, 3}, {64, 2, 4}, {32, 1, 1}};
static const char* kKey[] = {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor", "padding", "pad_values", "channels_in", "fused_activation_function"}; static const char* kPool[] = {"filter_height", "filter_width", "stride_height", "stride_width"};
static std::vector<uint8_t> Written(mlir::Operation* c) { auto b = c->getAttrOfType<mlir::TFL::ConstBytesAttr>("custom_option"); lce_assert((bool)b, "options are written"); auto s = b.getValue(); return std::vector<uint8_t>(s.begin(), s.end()); }
static std::vector<uint8_t> Without(const std::vector<uint8_t>& o, const char* const* keys, int n, unsigned missing) { auto m = flexbuffers::GetRoot(o).AsMap(); flexbuffers::Builder b; b.Map([&]() { for (int i = 0; i < n; i++) if (!(missing >> i & 1)) b.Int(keys[i], m[keys[i]].AsInt64()); }); b.Finish(); return b.GetBuffer(); }
int harness_main() {
  using namespace mlir; static lq::LarqDialect ld(lce_ctx()); static TFL::TensorFlowLiteDialect td; Fn f; static const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
#ifdef POOL
  int g = (int)lce_choose("geometry", 0, 6), same = (int)lce_choose("same", 0, 1); unsigned miss = (unsigned)lce_choose("missing", 0, g || same ? 0 : 15); lce_go(); const Geo& q = kGeo[g]; int oh = same ? cdiv(q.ih, q.sh) : (q.ih - q.fh) / q.sh + 1, ow = same ? cdiv(q.iw, q.sw) : (q.iw - q.fw) / q.sw + 1;
  Value x = f.arg(ten({1, q.ih, q.iw, 1}, i32())); Value p = f.v("lq.BMaxPool2d", {x}, ten({1, oh, ow, 1}, i32()), {{"padding", S(same ? "SAME" : "VALID")}, {"stride_width", I(q.sw)}, {"stride_height", I(q.sh)}, {"filter_width", I(q.fw)}, {"filter_height", I(q.fh)}}); f.ret({p});
  lce_assert(f.run(TFL::CreateLegalizeLCEPass()), "legalisation succeeds"); auto o = Written(f.result(0).getDefiningOp()); if (miss) o = Without(o, kPool, 4, miss);
  Env e; uint32_t* in = lce_sym<uint32_t>((size_t)q.ih * q.iw, "input"); int ti = e.Tensor(kTfLiteInt32, {1, q.ih, q.iw, 1}, kTfLiteCustom, in), to = e.Tensor(kTfLiteInt32, {1, 1, 1, 1}); lce_protect(in); e.Io({ti}, {to}); e.Init(compute_engine::tflite::Register_BMAXPOOL_2D(), o.data(), o.size());
  bool ok = e.Prepare() == kTfLiteOk; lce_observe(ok); if (miss) { lce_assert(!ok, "missing options are refused"); lce_cover("refused"); return 0; } lce_assert(ok && e.DimsEq(to, {1, oh, ow, 1}), "the operator accepts the options and infers the shape of the lq operation"); e.Allocate(); lce_assert(e.Invoke() == kTfLiteOk, "invoke ok");
  int ph = same ? (oh - 1) * q.sh + q.fh - q.ih : 0, pw = same ? (ow - 1) * q.sw + q.fw - q.iw : 0, pt = ph > 0 ? ph / 2 : 0, pl = pw > 0 ? pw / 2 : 0;
  for (int y = 0; y < oh; y++) for (int z = 0; z < ow; z++) { uint32_t all = ~0u; for (int a = 0; a < q.fh; a++) for (int b = 0; b < q.fw; b++) { int iy = y * q.sh + a - pt, ix = z * q.sw + b - pl; if (iy >= 0 && iy < q.ih && ix >= 0 && ix < q.iw) all &= in[iy * q.iw + ix]; } lce_assert(e.data<uint32_t>(to)[y * ow + z] == all, "the operator computes what the lq operation means"); }
#else
  Conv c; c.kernel = KERNEL; int g = 0, ch = 0; unsigned miss = 0; bool bit;
  if (lce_choose("family", 0, 1)) { miss = (unsigned)lce_choose("missing", 1, 255); bit = lce_choose("bitpacked", 0, 1); if (bit && miss > 128) lce_prune(); }
  else { ch = (int)lce_choose("channels", 0, 3); g = (int)lce_choose("geometry", 0, ch ? 1 : 8); c.pad = (int)lce_choose("padding", 0, 2); c.act = (int)lce_choose("activation", 0, ch == 2 || g > 2 ? 0 : 3); bit = lce_choose("bitpacked", 0, 1); if (KERNEL == K_BGEMM && ch == 2) lce_prune(); if (bit && (ch > 1 || c.act == 2)) lce_prune(); }
  const Geo& q = kGeo[g]; c.ih = q.ih; c.iw = q.iw; c.fh = q.fh; c.fw = q.fw; c.sh = q.sh; c.sw = q.sw; c.dh = q.dh; c.dw = q.dw; c.cin = kCh[ch][0]; c.groups = kCh[ch][1]; c.cout = kCh[ch][2]; c.out = bit ? O_BIT : O_FLOAT; if (c.pad == PAD_ZERO && (KERNEL == K_REF ? c.cin % 2 : bit || c.act)) lce_prune(); if (c.pad == PAD_VALID && (c.ih < c.efh() || c.iw < c.efw())) lce_prune();
  lce_go(); Shape out = {1, c.oh(), c.ow(), bit ? cdiv(c.cout, 32) : c.cout};
  Value x = f.arg(ten({1, c.ih, c.iw, c.wi()}, i32())), w = f.arg(ten({c.cout, c.fh, c.fw, c.wf()}, i32())), m = bit ? f.none() : f.arg(ten({c.cout}, f32())), b = bit ? f.none() : f.arg(ten({c.cout}, f32())), t = bit ? f.arg(ten({c.cout}, i32())) : f.none();
  Value v = f.v("lq.Bconv2d", {x, w, m, b, t}, ten(out, bit ? i32() : f32()), {{"channels_in", I(c.cin)}, {"dilation_height_factor", I(c.dh)}, {"dilation_width_factor", I(c.dw)}, {"fused_activation_function", S(kAct[c.act])}, {"pad_values", I(c.pad == PAD_ONE)}, {"padding", S(c.pad == PAD_VALID ? "VALID" : "SAME")}, {"stride_height", I(c.sh)}, {"stride_width", I(c.sw)}}); f.ret({v});
  lce_assert(f.run(TFL::CreateLegalizeLCEPass()), "legalisation succeeds"); auto o = Written(f.result(0).getDefiningOp()); if (miss) o = Without(o, kKey, 8, miss);
  ConvRun r; r.given = &o; r.skip_both_edges = true; r.Build(c); bool ok = r.e.Prepare() == kTfLiteOk; lce_observe(ok); if (miss) { lce_assert(!ok, "missing options are refused"); lce_cover("refused"); return 0; } lce_assert(ok && r.ShapeOk(), "the operator accepts the options and infers the shape of the lq operation"); r.e.Allocate(); lce_assert(r.e.Invoke() == kTfLiteOk, "invoke ok"); r.CheckOutput("the operator computes what the lq operation means"); r.e.Free();
#endif
  lce_cover("configured"); return 0; }
