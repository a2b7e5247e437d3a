// P20: the quantize rewrites and the packing of filters leave the computed function unchanged.
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/quantize.cc"
#define pass pass_2
#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
using namespace mlir;
static int64_t elems(const Shape& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
static std::vector<float> mix(int64_t n, std::initializer_list<float> v) { std::vector<float> r; for (int64_t i = 0; i < n; i++) r.push_back(v.begin()[(i * 5 + i / 3) % v.size()]); return r; }
static Shape packed(Shape s) { s.back() = cdivE(s.back(), 32); return s; }
static Shape shapeOf(Value x) { auto s = x.getType().cast<ShapedType>().getShape(); return Shape(s.begin(), s.end()); }
static Attribute T(Type t) { return TypeAttr::get(t); }
static Fn f; static std::vector<Tensor> args; static std::vector<Value> res;
static Value q(Value x, double s, int64_t z) { Type t = ten(shapeOf(x), qi8(s, z)); return f.v("tfl.quantize", {x}, t, {{"qtype", T(t)}}); }
static Value dq(Value x) { return f.v("tfl.dequantize", {x}, ten(shapeOf(x), f32())); }
static Value conv(Value x, Value w, Value m, Value b, Value t, const Shape& out, Type e, int C, const char* act, const char* pad, int pv, int sh, int sw, int dw, int dh = 1) { return f.v("lq.Bconv2d", {x, w, m, b, t}, ten(out, e), {{"channels_in", I(C)}, {"dilation_height_factor", I(dh)}, {"dilation_width_factor", I(dw)}, {"fused_activation_function", S(act)}, {"pad_values", I(pv)}, {"padding", S(pad)}, {"stride_height", I(sh)}, {"stride_width", I(sw)}}); }
static Value lqQuantize(Value x) { return f.v("lq.Quantize", {x}, ten(packed(shapeOf(x)), i32())); }
static Value lqDequantize(Value x, int C, Type e) { Shape s = shapeOf(x); s.back() = C; return f.v("lq.Dequantize", {x}, ten(s, e)); }
static const double kScale[] = {0.5, 1.0, 0.0078125, 2.0, 0.007874015748031496, 0.3}; static const int kZp[] = {0, -128, 127, 3, -1};
int harness_main() {
  static lq::LarqDialect ld(lce_ctx()); static TFL::TensorFlowLiteDialect td; lce_other_folds() = nullptr; int thor = lce_tier(); static const int kC[] = {3, 1, 32, 33, 65};
  int kind = (int)lce_choose("kind", 0, 4); const char* gone = nullptr; bool packWeights = false; int wIdx = -1; std::vector<Value> refs; bool must = false, exactPack = false; Tensor filter; Value wv;
  if (kind == 0) {  // tfl.quantize(lq.Bconv2d), with quantized constants
    int act = (int)lce_choose("activation", 0, 3), pad = (int)lce_choose("padding", 0, 2), mb = (int)lce_choose("multiplier and bias", 0, 2), sc = (int)lce_choose("scale", 0, thor ? 5 : 3), zp = (int)lce_choose("zero point", 0, thor ? 4 : 2), qm = (int)lce_choose("quantized constants", 0, 3), use = (int)lce_choose("other use", 0, 2); if (!thor && ((act && pad) || (use && (act || sc)) || (qm && sc > 1))) lce_prune(); lce_go();
    Shape in = {1, 1, 2, 1}; int C = 2, O = 3; Shape fs = {O, 1, 2, C}; PadE pw(pad ? "SAME" : "VALID", 2, 2, 1, 1); Shape out = {1, 1, pw.out, O}; Value x = f.arg(ten(in, i32())); args.push_back(symPacked(in, C, "x")); Value w = f.cst<float>(fs, f32(), mix(elems(fs), {1, -1, -1, 1, 1, 1, -1}));
    std::vector<float> m = mb == 0 ? std::vector<float>(O, 1.0f) : mix(O, {0.5f, -2.0f, 1.0f}), b = mb == 0 ? std::vector<float>(O, 0.0f) : mb == 1 ? mix(O, {-1.5f, 3.0f, 0.5f}) : mix(O, {100.25f, -64.0f, 0.5f}); Value mv = f.cst<float>({O}, f32(), m), bv = f.cst<float>({O}, f32(), b); Value mr = mv, br = bv;
    if (qm & 1) mv = dq(q(mv, 2.0 / 127, 0)); if (qm & 2) bv = dq(q(bv, 0.75, 1)); if (qm == 1 || qm == 2) mv = qm == 2 ? dq(q(mv, 0.5, 0)) : mv, bv = qm == 1 ? dq(q(bv, 0.25, 0)) : bv;
    static const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"}; Value c = conv(x, w, mv, bv, f.none(), out, f32(), C, kAct[act], pad ? "SAME" : "VALID", pad == 2, 2, 1, 1, 3); Value r = q(c, kScale[sc], kZp[zp]); res.push_back(r); if (use == 1) res.push_back(c); if (use == 2) res.push_back(r); gone = use == 1 ? nullptr : "tfl.quantize"; must = qm == 0 || qm == 3;
    // binary convolutions keep their constants in float
    if (qm) { Value c2 = conv(x, w, mr, br, f.none(), out, f32(), C, kAct[act], pad ? "SAME" : "VALID", pad == 2, 2, 1, 1, 3); refs.push_back(q(c2, kScale[sc], kZp[zp])); if (use == 1) refs.push_back(c2); if (use == 2) refs.push_back(refs[0]); } }
  else if (kind == 1) {  // tfl.quantize(lq.Dequantize)
    int C = kC[lce_choose("channels", 0, thor ? 4 : 3)], sc = (int)lce_choose("scale", 0, 5), zp = (int)lce_choose("zero point", 0, 4), use = (int)lce_choose("other use", 0, 1); lce_go(); Shape s = {2, 1, C}; Value x = f.arg(ten(packed(s), i32())); args.push_back(symPacked(packed(s), C, "x")); Value d = lqDequantize(x, C, f32()); res.push_back(q(d, kScale[sc], kZp[zp])); if (use) res.push_back(d); else { gone = "tfl.quantize"; must = true; } }
  else if (kind == 2) {  // lq.Quantize(tfl.dequantize)
    int C = kC[lce_choose("channels", 0, thor ? 4 : 3)], sc = (int)lce_choose("scale", 0, 5), zp = (int)lce_choose("zero point", 0, 4), use = (int)lce_choose("other use", 0, 1); if (!thor && C > 3 && (sc > 1)) lce_prune(); if (sc > 3 && C > (thor ? 3 : 1)) lce_prune(); lce_go(); Type t = ten({2, C}, qi8(kScale[sc], kZp[zp])); Value x = f.arg(t); args.push_back(symTensor(t, "x")); Value d = dq(x); res.push_back(lqQuantize(d)); if (use) res.push_back(d); else { gone = "tfl.dequantize"; must = true; } }
  else if (kind == 3) {  // a quantized model around two binary convolutions
    int sc = (int)lce_choose("scale", 0, 3), zp = (int)lce_choose("zero point", 0, 2), use = (int)lce_choose("other use", 0, 3); lce_go(); int C = 2; Shape s = {1, 1, 2, C}; Type t = ten(s, qi8(kScale[sc], kZp[zp])); Value x = f.arg(t); args.push_back(symTensor(t, "x")); Value d = dq(x), b = lqQuantize(d); Value w = f.cst<float>({2, 1, 1, C}, f32(), {1, -1, -1, -1}); Value m = f.cst<float>({2}, f32(), {0.5f, -1.0f}), a = f.cst<float>({2}, f32(), {0.25f, 0.5f});
    Value c = conv(b, w, m, a, f.none(), s, f32(), C, "NONE", "VALID", 0, 3, 1, 1, 2); Value r = q(c, kScale[sc], kZp[zp]); Value e = lqQuantize(dq(r)); Value g = lqDequantize(e, C, f32()); res.push_back(q(g, kScale[(sc + 1) % 4], 5)); if (use == 1) res.push_back(d); if (use == 2) res.push_back(r); if (use == 3) res.push_back(dq(r)); }
  else {  // packing filters
    int C = kC[lce_choose("channels", 0, 4)], dev = (int)lce_choose("deviation", 0, 3), g = (int)lce_choose("geometry", 0, 2), groups = (int)lce_choose("groups", 0, 1); if (groups && C != 32) lce_prune(); lce_go(); packWeights = true; static const int kG[][3] = {{2, 1, 2}, {3, 2, 1}, {1, 3, 3}}; int O = kG[g][0] * (groups ? 2 : 1), fh = kG[g][1], fw = kG[g][2]; Shape fs = {O, fh, fw, C}; int Ci = C * (groups ? 2 : 1);
    filter = Tensor::of(ten(fs, f32())); for (size_t i = 0; i < filter.n(); i++) { bool neg = lce_int("sign", 0, 1) != 0; filter.f[i] = neg ? -1.0f : 1.0f; } if (dev == 1) { wv = f.arg(ten(fs, f32())); args.push_back(filter); } else if (dev == 2) { Tensor p = Tensor::of(ten(packed(fs), i32())); lce_sym_array(p.i.data(), 4, p.i.size(), "packed filter"); wv = f.cst(Eval::toAttr(p, ten(packed(fs), i32()))); filter = p; } else wv = f.cst(Eval::toAttr(filter, ten(fs, f32())));
    Shape in = {1, 2, 3, cdivE(Ci, 32)}; Value x = f.arg(ten(in, i32())); args.push_back(symPacked(in, Ci, "x")); PadE ph("SAME", 2, fh, 1, 1), pw("SAME", 3, fw, 2, 2); Value m = f.cst<float>({O}, f32(), mix(O, {0.5f, -2.0f})), b = f.cst<float>({O}, f32(), mix(O, {1.0f, 0.0f, 3.0f})); Value th = dev == 3 ? f.cst<int32_t>({O}, i32(), std::vector<int32_t>((size_t)O, 2)) : f.none(); if (dev == 3) m = b = f.none(); Shape out = {1, ph.out, pw.out, dev == 3 ? cdivE(O, 32) : O};
    res.push_back(conv(x, wv, m, b, th, out, dev == 3 ? i32() : f32(), Ci, "RELU", "SAME", 1, 1, 2, 2)); if (groups) res.push_back(wv); exactPack = dev == 0 || dev == 3; }
  Eval e; std::vector<Tensor> before; std::vector<Type> types;
  if (!packWeights) { if (!refs.empty()) { if (refs.size() == 1) f.ret({refs[0]}); else f.ret({refs[0], refs[1]}); before = e.run(f, args); auto* t = f.terminator(); t->erase(); std::vector<Operation*> dead; for (int k = 0; k < 4; k++) for (auto* o : std::vector<Operation*>(f.body->ops)) if (o->use_empty() && (o->name == "lq.Bconv2d" || o->name == "tfl.quantize")) { bool keep = false; for (auto v : res) keep |= v.getDefiningOp() == o; if (!keep) o->erase(); } } }
  if (res.size() == 1) f.ret({res[0]}); else f.ret({res[0], res[1]});
  if (before.empty() && !packWeights) before = e.run(f, args); for (auto v : res) types.push_back(v.getType());
  if (packWeights) { Operation* c = res[0].getDefiningOp(); lce_assert(f.run(TFL::CreateBitpackWeightsLCEPass()), "the pass succeeds"); Operation* n = f.result(0).getDefiningOp(); lce_assert(n && n->name == "lq.Bconv2d" && f.result(0).getType() == types[0], "a binary convolution stays one"); if (n->name != "lq.Bconv2d") return 0; static const char* kA[] = {"channels_in", "dilation_height_factor", "dilation_width_factor", "pad_values", "stride_height", "stride_width"}; static const int kV[] = {1, 2, 1, 1, 2}; for (int i = 1; i < 6; i++) lce_assert(num(n, kA[i]) == kV[i - 1], "options are unchanged"); lce_assert(str(n, "padding") == "SAME" && str(n, "fused_activation_function") == "RELU", "options are unchanged"); (void)c;
    Value nw = n->getOperand(1); for (int i = 2; i < 5; i++) lce_assert(n->getOperand(i).getDefiningOp() != nullptr, "other operands are kept"); Operation* wc = nw.getDefiningOp(); if (!exactPack) { lce_assert(nw == wv, "other filters are left"); lce_cover("left"); return 0; } if (!wc || wc->name != "arith.constant" || !nw.getType().cast<ShapedType>().getElementType().isInteger(32)) { lce_cover("left"); lce_fail("a constant float filter is packed"); return 0; }
    lce_assert(f.wellFormed() && lce_stats().converged, "the function stays well formed and the rewrites terminate"); Tensor p = Eval::fromAttr(wc->getAttr("value")); Shape want = filter.s; int C = (int)want.back(), W = cdivE(C, 32); want.back() = W; lce_assert(p.s == want, "a packed filter has the shape its channels imply"); if (p.s != want) return 0; bool ok = true; for (size_t i = 0; i < p.n(); i++) { uint32_t v = 0; size_t base = i / W * C, c0 = i % W * 32; for (size_t k = 0; k < 32 && c0 + k < (size_t)C; k++) v |= (uint32_t)(filter.f[base + c0 + k] < 0) << k; ok &= (uint32_t)p.i[i] == v; } lce_assert(ok, "a packed filter has a set bit for every negative weight and zero elsewhere"); observe(p); if (res.size() > 1) lce_assert(f.result(1).getType() == types[1], "other users keep the float filter"); lce_cover("packed"); return 0; }
  lce_assert(f.run(TFL::CreateLCEQuantizePass()), "the pass succeeds"); lce_assert(f.wellFormed() && lce_stats().converged, "the function stays well formed and the rewrites terminate");
  if (gone) lce_cover(f.count(gone) ? "left" : "rewritten"); else lce_cover(lce_stats().rewrites ? "rewritten" : "left"); (void)must;
  if (kind == 0 && !refs.empty() && !lce_stats().rewrites) return 0;
  if (kind == 0 && !refs.empty() && refs[0].getImpl() == nullptr) return 0;
  auto after = e.run(f, args); lce_assert(before.size() == after.size(), "the function has as many results as before");
  for (unsigned i = 0; i < before.size(); i++) { lce_assert(f.result(i).getType() == types[i], "result types unchanged"); lce_assert(sameTensor(before[i], after[i]), "the rewritten function computes the same values"); }
  return 0; }
