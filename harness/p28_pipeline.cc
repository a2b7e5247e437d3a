// P28: converting a binary model leaves its function unchanged: a TensorFlow graph taken through the whole pipeline and run by the real operators gives the values the graph defines, and every binary convolution becomes a Larq operator with packed weights.
#include "pipeline_env.h"
using namespace mlir;
static const char* const kPosts[] = {"", "r", "ma", "rma", "mar", "rp", "pma", "rpma", "Pa", "ds", "6m", "iaim", "rPma", "mm", "sr6"};
struct Spec { int C = 3, O = 2, H = 2, W = 2, fh = 1, fw = 1, sh = 1, sw = 1, dh = 1, dw = 1, sign = 0, pad = 0, scale = 0; const char* post = ""; };
static const float kScale[] = {1.0f, 0.5f, 2.0f, 0.25f}, kM[] = {0.5f, -1.0f, 2.0f, -0.25f}, kA[] = {0.28125f, -1.46875f, 3.15625f, 0.90625f}, kAQ[] = {0.25f, -1.4375f, 3.125f, 0.9375f};
struct Model { Fn& f; int64_t batch; const float* adds = kA; int convs = 0, uniq = 0; std::vector<Value> taps;
  Value chan(int O, const float* t, int k) { std::vector<float> d; for (int o = 0; o < O; o++) d.push_back(t[(o + k) % 4]); return f.v("tf.Const", {}, ten({O}, f32()), {{"value", DenseElementsAttr::get<float>(ten({O}, f32()), ArrayRef<float>(d.data(), d.size()))}}); }
  Value scalar(float x) { return f.v("tf.Const", {}, ten({}, f32()), {{"value", DenseElementsAttr::get<float>(ten({}, f32()), ArrayRef<float>(&x, 1))}}); }
  Shape sh(Value v) { auto s = v.getType().cast<ShapedType>().getShape(); return Shape(s.begin(), s.end()); }
  Value sign(Value x, int kind) { Type t = x.getType(); if (kind == 0) return f.v("tf.Sign", {f.v("tf.AddV2", {f.v("tf.Sign", {x}, t), scalar(0.5f)}, t)}, t); Value c = f.v("tf.GreaterEqual", {x, scalar(0.0f)}, ten(sh(x), i1())); Value s = f.v("tf.SelectV2", {c, scalar(1.0f), scalar(-1.0f)}, t); return kind == 2 ? f.v("tf.Identity", {s}, t) : s; }
  Value layer(Value x, const Spec& s) {
    Shape xs = sh(x); Value y = sign(x, s.sign); int eh = (s.fh - 1) * s.dh + 1, ew = (s.fw - 1) * s.dw + 1; int H = (int)xs[1], W = (int)xs[2];
    // 0 VALID, 1 SAME, 2 ones around, 3 zeros around, 4 ones on one side only
    if (s.pad >= 2) { int th = eh - 1, tw = ew - 1, p[4] = {th / 2, th - th / 2, tw / 2, tw - tw / 2}; if (s.pad == 4) { p[0] += p[1]; p[1] = 0; p[2]++; } std::vector<int32_t> d = {0, 0, p[0], p[1], p[2], p[3], 0, 0}; H += p[0] + p[1]; W += p[2] + p[3]; Type pt = ten({4, 2}, i32()); Value pc = f.v("tf.Const", {}, pt, {{"value", DenseElementsAttr::get<int32_t>(ten({4, 2}, i32()), ArrayRef<int32_t>(d.data(), d.size()))}}); Type t = ten({batch, H, W, xs[3]}, f32()); y = s.pad == 3 ? f.v("tf.Pad", {y, pc}, t) : f.v("tf.PadV2", {y, pc, scalar(1.0f)}, t); }
    std::vector<float> w; uint32_t r = 777u + (uint32_t)convs * 31u; for (int i = 0; i < s.fh * s.fw * (int)xs[3]; i++) for (int o = 0; o < s.O; o++) { r = r * 1103515245u + 12345u; float v = kScale[s.scale ? (o + s.scale) % 4 : 0]; if (s.scale == 3 && i == 0 && o == 1) v *= 1.5f; w.push_back((r >> 16) & 1 ? v : -v); }
    Shape ws = {s.fh, s.fw, xs[3], s.O}; Value wv = f.v("tf.Const", {}, ten(ws, f32()), {{"value", DenseElementsAttr::get<float>(ten(ws, f32()), ArrayRef<float>(w.data(), w.size()))}});
    PadE ph(s.pad == 1 ? "SAME" : "VALID", H, s.fh, s.sh, s.dh), pw(s.pad == 1 ? "SAME" : "VALID", W, s.fw, s.sw, s.dw); if (ph.out < 1 || pw.out < 1) lce_prune(); int h = ph.out, q = pw.out;
    y = f.v("tf.Conv2D", {y, wv}, ten({batch, h, q, s.O}, f32()), {{"strides", L({1, s.sh, s.sw, 1})}, {"use_cudnn_on_gpu", B(true)}, {"padding", S(s.pad == 1 ? "SAME" : "VALID")}, {"explicit_paddings", L({})}, {"data_format", S("NHWC")}, {"dilations", L({1, s.dh, s.dw, 1})}}); convs++; taps.push_back(y);
    for (const char* p = s.post; *p; p++) { Type t = ten({batch, h, q, s.O}, f32()); int k = uniq++; switch (*p) { case 'r': y = f.v("tf.Relu", {y}, t); break; case '6': y = f.v("tf.Relu6", {y}, t); break; case 'm': y = f.v("tf.Mul", {y, chan(s.O, kM, k)}, t); break; case 'd': y = f.v("tf.RealDiv", {y, chan(s.O, kM, k)}, t); break; case 'a': y = f.v("tf.AddV2", {y, chan(s.O, adds, k)}, t); break; case 's': y = f.v("tf.Sub", {y, chan(s.O, adds, k)}, t); break; case 'i': y = f.v("tf.Identity", {y}, t); break;
        default: { int st = *p == 'P' ? 1 : 2; PadE a(*p == 'P' ? "SAME" : "VALID", h, 2, st, 1), b(*p == 'P' ? "SAME" : "VALID", q, 2, st, 1); h = a.out; q = b.out; if (h < 1 || q < 1) lce_prune(); y = f.v("tf.MaxPool", {y}, ten({batch, h, q, s.O}, f32()), {{"ksize", L({1, 2, 2, 1})}, {"strides", L({1, st, st, 1})}, {"padding", S(*p == 'P' ? "SAME" : "VALID")}, {"data_format", S("NHWC")}}); } } }
    return y; } };
int harness_main() {
  LCETarget target = lce_choose("target", 0, 1) ? LCETarget::XCORE : LCETarget::ARM; int fam = (int)lce_choose("family", 0, 3); bool thor = lce_tier(); Spec a, b; int layers = 1, extra = 0, quantize = 0, kernel = 0; const int P = (int)(sizeof kPosts / sizeof *kPosts);
  static const int kF[][4] = {{1, 1, 2, 2}, {2, 2, 3, 3}, {3, 1, 3, 2}, {1, 3, 2, 4}, {3, 3, 3, 3}, {2, 3, 3, 4}}; static const int kS[][4] = {{1, 1, 1, 1}, {2, 1, 1, 1}, {1, 2, 1, 1}, {2, 2, 1, 1}, {1, 1, 2, 2}};
  if (fam == 0) { int g = (int)lce_choose("filter", 0, thor ? 5 : 3), s = (int)lce_choose("stride", 0, 4); a.fh = kF[g][0]; a.fw = kF[g][1]; a.H = kF[g][2]; a.W = kF[g][3]; a.sh = kS[s][0]; a.sw = kS[s][1]; a.dh = kS[s][2]; a.dw = kS[s][3]; a.pad = (int)lce_choose("padding", 0, 4); a.sign = (int)lce_choose("sign", 0, 2); a.C = a.fh * a.fw > 4 ? 1 : 2; a.post = kPosts[(g + s) % 2 ? 3 : 5]; if (!thor && (g + s + a.pad + a.sign) % 2) lce_prune(); kernel = (s + a.pad) % 3; }
  else if (fam == 1) { a.post = kPosts[lce_choose("after the convolution", 0, P - 1)]; a.scale = (int)lce_choose("scale", 0, 3); a.pad = (int)lce_choose("padding", 0, 2); a.fh = a.fw = 1 + (int)lce_choose("filter", 0, 1); a.C = a.fh == 2 ? 2 : 5; a.O = 3; a.H = a.W = 3; a.sign = (a.scale + a.pad) % 3; kernel = (int)lce_choose("kernel", 0, thor ? 2 : 0); if (!thor) kernel = (a.scale + a.pad) % 3; }
  else { layers = 2; a.post = kPosts[lce_choose("between the convolutions", 0, P - 1)]; a.sign = (int)lce_choose("sign", 0, 2); a.C = 3; a.O = 2; b.O = 2; a.scale = (int)lce_choose("scale", 0, 3); b.scale = 1; b.sign = 1 + a.sign % 2; b.post = kPosts[(a.scale * 5 + a.sign) % P]; if (b.post[0] == 'p' || (b.post[0] && b.post[1] == 'p')) b.post = "ma"; a.H = 2; a.W = 2; kernel = a.scale % 3;
    if (fam == 2) extra = (int)lce_choose("other use", 0, 3); else { quantize = 1; if (a.scale == 3) lce_prune(); } if (!thor && (a.sign + extra + a.scale) % 2) lce_prune(); }
  if (a.pad == 1 || a.pad == 3) kernel = 1 + kernel % 2;  // the reference kernel does not take zero padding
  { int eh = (a.fh - 1) * a.dh + 1, ew = (a.fw - 1) * a.dw + 1; if ((a.pad == 1 || a.pad == 3) && (eh > a.H || ew > a.W)) lce_prune(); }  // recorded for P07
  if (a.pad == 2 && (a.sh > 1 || a.sw > 1)) lce_prune();  // recorded for P18
  lce_go();
  static lq::LarqDialect ld(lce_ctx()); static TF::TensorFlowDialect td; static TFL::TensorFlowLiteDialect tl; Fn ref, f; std::vector<Tensor> args; std::vector<Type> types; int convs = 0;
  for (int v = 0; v < 2; v++) { Fn& g = v ? f : ref; Model m{g, v ? ShapedType::kDynamic : 1, quantize ? kAQ : kA}; Value x = g.arg(ten({m.batch, a.H, a.W, a.C}, f32())); Value y = m.layer(x, a); Value mid = y; if (layers == 2) y = m.layer(y, b); std::vector<Value> res = {y}; if (extra == 1) res.push_back(mid); if (extra == 2) res.push_back(m.taps[0]); if (extra == 3) res.push_back(m.sign(mid, 1)); if (res.size() == 1) g.ret({res[0]}); else g.ret({res[0], res[1]}); convs = m.convs; if (!v) { for (auto r : res) types.push_back(r.getType()); static const int lo[] = {-8, -1, -24, -2}, hi[] = {4, 0, 16, 1, 44}; Tensor t = Tensor::of(x.getType()); for (size_t i = 0; i < t.n(); i++) { int bit = (int)lce_int("negative", 0, 1), h = hi[i % 5]; t.f[i] = (float)(h + bit * (lo[i % 4] - h)) * 0.125f; } args.push_back(t); } }
  Eval e; auto before = e.run(ref, args); Pipeline p(f); p.args = args; p.kernel = kernel; p.run(target, quantize); if (quantize) before = p.reference;
  // everything that can be binary is
  int left = 0; for (auto* o : f.body->ops) { StringRef n(o->name); lce_assert(!n.starts_with("lq.") && !n.starts_with("tf."), "no operation is left that cannot be exported"); left += n == "tfl.conv_2d"; if (n == "tfl.custom" && str(o, "custom_code") == "LceBconv2d") { auto* w = o->getOperand(1).getDefiningOp(); lce_assert(w && w->name == "arith.constant" && o->getOperand(1).getType().cast<ShapedType>().getElementType().isInteger(32), "the filters of binary convolutions are packed constants"); } }
  int want = convs; bool xc = target == LCETarget::XCORE; if (a.scale == 3) want--; else if (a.pad == 1 && xc) want--; else if (a.pad >= 3) want--; else if (a.pad == 2 && (a.sh > 1 || a.sw > 1)) want = -1;
  if (a.pad == 1 && xc && want >= 0 && a.scale != 3) {} if (want >= 0) lce_assert(convs - left == want || (a.pad >= 2 && convs - left >= want), "every binary convolution is converted"); lce_cover(left ? "left" : "converted"); if (p.f.count("tfl.custom") > 2) lce_cover("several");
  Eval k; k.custom = [&](Operation* o, Tensor r) { return Pipeline::custom(k, o, r, kernel); }; auto after = k.run(f, args); lce_assert(before.size() == after.size(), "the model has as many results as before");
  for (unsigned i = 0; i < before.size(); i++) { lce_assert(f.result(i).getType() == types[i], "result types unchanged, the batch size fixed"); lce_assert(sameTensor(before[i], after[i]), "the converted model computes what the graph defines"); }
  if (quantize) lce_cover("quantized"); return 0; }
