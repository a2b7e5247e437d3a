// Runs the real conversion pipeline (tf_tfl_passes.cc with every Larq pass) on functions of the MLIR stand-in; the passes that belong to TensorFlow are modelled by what they do to these functions.
#ifndef LCE_PIPELINE_ENV_H_
#define LCE_PIPELINE_ENV_H_
#include "conv_env.h"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "convert_stub.h"
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
#define pass pass_2
#include "larq_compute_engine/mlir/transforms/optimize.cc"
#undef pass
#define pass pass_3
#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
#undef pass
#define pass pass_4
#include "larq_compute_engine/mlir/transforms/op_removal.cc"
#undef pass
#define pass pass_5
#include "larq_compute_engine/mlir/transforms/set_batch_size.cc"
#undef pass
#define pass pass_6
#include "larq_compute_engine/mlir/transforms/quantize.cc"
#undef pass
#define pass pass_7
#include "larq_compute_engine/mlir/transforms/legalize_tflite.cc"
#undef pass
#define pass pass_8
#include "larq_compute_engine/mlir/transforms/fuse_padding.cc"
#undef pass
#define pass pass_9
#include "larq_compute_engine/mlir/transforms/detection_postprocess.cc"
#undef pass
#include "larq_compute_engine/mlir/tf_tfl_passes.cc"
namespace mlir {
struct Pipeline {
  Fn& f; std::vector<Tensor> args; std::vector<Tensor> reference; int kernel = 0; double scale = 0.0625; int64_t zp = 3; int real = 0;
  explicit Pipeline(Fn& fn) : f(fn) {}
  std::vector<Operation*> ops() const { return f.body->ops; }
  void replace(Operation* o, Value v) { o->replaceAllUsesWith(ValueRange(v)); o->erase(); }
  static bool isConst(Value v) { auto* d = v.getDefiningOp(); return d && d->name == "arith.constant"; }
  void canonicalize() { auto saved = lce_other_folds(); lce_other_folds() = lce_eval_fold; for (auto* o : ops()) if (o->name == "tf.BroadcastTo" && o->getOperand(0).getType() == o->getResult(0).getType()) replace(o, o->getOperand(0)); (void)applyPatternsAndFoldGreedily(func::FuncOp(f.op), RewritePatternSet(lce_ctx())); lce_other_folds() = saved; }
  // only the leading dimension is ever dynamic, and every operation here keeps it
  void inferShapes() { for (auto* o : ops()) for (auto* r : o->results) { auto t = Type(r->type).dyn_cast<RankedTensorType>(); if (!t || t.getRank() == 0 || t.getShape()[0] != ShapedType::kDynamic || o->operands.empty()) continue; auto in = Type(o->operands[0]->type).dyn_cast<RankedTensorType>(); if (!in || in.getRank() == 0 || in.getShape()[0] == ShapedType::kDynamic) continue; Shape s(t.getShape().begin(), t.getShape().end()); s[0] = in.getShape()[0]; r->type = ten(s, t.getElementType()).impl; } }
  // tf operations become tfl operations
  void legalize() { for (auto* o : ops()) { StringRef n(o->name); f.b.setInsertionPoint(o); auto li = [&](const char* a, int k) { return o->getAttrOfType<ArrayAttr>(a)[k].cast<IntegerAttr>().getInt(); }; auto none = S("NONE"); auto in = [&](unsigned i) { return o->getOperand(i); }; Type t = o->results.empty() ? Type() : Type(o->results[0]->type); Value v;
      if (n == "tf.AddV2" || n == "tf.Add" || n == "tf.Sub" || n == "tf.Mul" || n == "tf.RealDiv" || n == "tf.Div") v = f.v(n == "tf.Sub" ? "tfl.sub" : n == "tf.Mul" ? "tfl.mul" : n == "tf.RealDiv" || n == "tf.Div" ? "tfl.div" : "tfl.add", {in(0), in(1)}, t, {{"fused_activation_function", none}});
      else if (n == "tf.Relu" || n == "tf.Relu6" || n == "tf.Sign") v = f.v(n == "tf.Relu" ? "tfl.relu" : n == "tf.Sign" ? "tfl.sign" : "tfl.relu6", {in(0)}, t);
      else if (n == "tf.GreaterEqual") v = f.v("tfl.greater_equal", {in(0), in(1)}, t);
      else if (n == "tf.SelectV2") v = f.v("tfl.select_v2", {in(0), in(1), in(2)}, t);
      else if (n == "tf.Pad") v = f.v("tfl.pad", {in(0), in(1)}, t); else if (n == "tf.PadV2") v = f.v("tfl.padv2", {in(0), in(1), in(2)}, t);
      else if (n == "tf.MaxPool") v = f.v("tfl.max_pool_2d", {in(0)}, t, {{"padding", S(str(o, "padding"))}, {"stride_w", I(li("strides", 2))}, {"stride_h", I(li("strides", 1))}, {"filter_width", I(li("ksize", 2))}, {"filter_height", I(li("ksize", 1))}, {"fused_activation_function", none}});
      else if (n == "tf.Conv2D") { Tensor w = Eval::fromAttr(in(1).getDefiningOp()->getAttr("value")); int fh = (int)w.s[0], fw = (int)w.s[1], ci = (int)w.s[2], co = (int)w.s[3]; std::vector<float> d((size_t)(fh * fw * ci * co)); for (int p = 0; p < fh * fw; p++) for (int i = 0; i < ci; i++) for (int c = 0; c < co; c++) d[(size_t)((c * fh * fw + p) * ci + i)] = w.f[(size_t)((p * ci + i) * co + c)];
        Value wv = f.cst<float>({co, fh, fw, ci}, f32(), d), b = f.cst<float>({co}, f32(), std::vector<float>((size_t)co, 0.0f)); v = f.v("tfl.conv_2d", {in(0), wv, b}, t, {{"dilation_h_factor", I(li("dilations", 1))}, {"dilation_w_factor", I(li("dilations", 2))}, {"fused_activation_function", none}, {"padding", S(str(o, "padding"))}, {"stride_h", I(li("strides", 1))}, {"stride_w", I(li("strides", 2))}}); }
      else if (n == "tf.Const") v = f.cst(o->getAttr("value")); else if (n == "tf.Identity") v = in(0);
      else continue; replace(o, v); } canonicalize(); }
  // TensorFlow Lite's own optimisations: fused activation functions
  void optimize() { for (auto* o : ops()) { StringRef n(o->name); if (n != "tfl.relu" && n != "tfl.relu6") continue; auto* d = o->getOperand(0).getDefiningOp(); if (!d || !o->getOperand(0).hasOneUse() || !d->hasAttr("fused_activation_function") || !StringRef(d->name).starts_with("tfl.") || str(d, "fused_activation_function") != "NONE") continue; d->setAttr("fused_activation_function", S(n == "tfl.relu" ? "RELU" : "RELU6")); replace(o, o->getOperand(0)); } }
  bool isFloat(Value v) { auto t = v.getType().dyn_cast<RankedTensorType>(); return t && t.getElementType().isF32(); }
  void pairs(Value v, Operation* after) { if (!isFloat(v)) return; std::vector<std::pair<Operation*, unsigned>> uses; for (auto* o : ops()) for (unsigned i = 0; i < o->operands.size(); i++) if (o->operands[i] == v.getImpl()) { if (o->name == "tfl.quantize" || (isConst(v) && (o->name != "lq.Bconv2d" || i < 2))) return; uses.push_back({o, i}); } if (uses.empty()) return;
    if (after) { size_t k = 0; auto all = ops(); while (all[k] != after) k++; f.b.setInsertionPoint(all[k + 1]); } else f.b.setInsertionPoint(ops()[0]); auto t = v.getType().cast<RankedTensorType>(); Shape s(t.getShape().begin(), t.getShape().end()); Type q = ten(s, isConst(v) ? qi8(0.0625, 0) : qi8(scale, zp)); Value a = f.v("tfl.quantize", {v}, q, {{"qtype", TypeAttr::get(q)}}), b = f.v("tfl.dequantize", {a}, t); for (auto& u : uses) u.first->setOperand(u.second, b); }
  // every float value is quantized and dequantized again; this function is the reference for what follows
  void prepareQuantize() { for (auto v : f.args) pairs(v, nullptr); for (auto* o : ops()) if (!o->results.empty() && o->name != "tfl.dequantize") pairs(o->getResult(0), o); Eval e; reference = e.run(f, args); }
  // what remains of pairs around constants is removed
  void tflQuantize() { for (auto* o : ops()) if (o->name == "tfl.dequantize") { auto* q = o->getOperand(0).getDefiningOp(); if (q && q->name == "tfl.quantize" && isConst(q->getOperand(0))) replace(o, q->getOperand(0)); } canonicalize(); }
  void run(LCETarget target, bool quantize) {
    OpPassManager pm; quant::QuantizationSpecs specs; if (quantize) { specs.inference_type = tensorflow::DT_QINT8; specs.default_ranges = {-6.0, 6.0}; } tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pm); tensorflow::AddPostVariableFreezingTFToLCETFLConversionPasses("", specs, &pm, target);
    lce_other_folds() = lce_eval_fold;
    for (auto& p : pm.v) { StringRef n(p.first.name); if (n.empty()) { lce_stats() = DriverStats(); p.first.real->op_ = f.op; p.first.real->runOnOperation(); real++; lce_assert(!p.first.real->failed_ && lce_stats().converged, "every pass succeeds and terminates"); }
      else if (n == "createCanonicalizerPass") canonicalize(); else if (n == "CreateTFShapeInferencePass") inferShapes(); else if (n == "CreateLegalizeTFPass") legalize(); else if (n == "CreateOptimizePass") optimize(); else if (n == "CreatePrepareQuantizePass") prepareQuantize(); else if (n == "CreateQuantizePass") tflQuantize();
      else continue; if (!f.wellFormed()) lce_fail("the function stays well formed"); } }
  // a custom operation is run by the operator registered for it
  static Tensor custom(Eval& e, Operation* o, Tensor r, int kernel) {
    auto* v = new Env; std::string code = str(o, "custom_code").str(); auto bytes = o->getAttrOfType<TFL::ConstBytesAttr>("custom_option").getValue(); std::vector<int> in; auto fill = [](void* d, const Tensor& t) { for (size_t i = 0; i < t.n(); i++) if (t.k == kF32) ((float*)d)[i] = t.f[i]; else if (t.k == kI32) ((int32_t*)d)[i] = t.i[i]; else ((int8_t*)d)[i] = (int8_t)t.i[i]; }; auto tt = [](const Tensor& t) { return t.k == kF32 ? kTfLiteFloat32 : t.k == kI32 ? kTfLiteInt32 : t.k == kBool ? kTfLiteBool : kTfLiteInt8; };
    for (auto x : o->getOperands()) { Tensor t = e.get(x); if (t.k == kNone) { in.push_back(-1); continue; } void* d = lce_alloc(t.n() * type_size(tt(t)), 16, "operand"); fill(d, t); lce_protect(d); Dims ds(t.s.begin(), t.s.end()); in.push_back(v->Tensor(tt(t), ds, isConst(x) ? kTfLiteMmapRo : kTfLiteCustom, d)); if (t.k == kQ8) v->Quant(in.back(), (float)t.scale, (int)t.zp); }
    Dims rd(r.s.begin(), r.s.end()); int out = v->Tensor(tt(r), code == "LceDequantize" ? rd : Dims(r.s.size(), 1)); if (r.k == kQ8) v->Quant(out, (float)r.scale, (int)r.zp); v->Io(in, {out}); uint8_t* ob = (uint8_t*)lce_alloc(bytes.size(), 0, "options"); memcpy(ob, bytes.data(), bytes.size());
    const TfLiteRegistration* reg = code == "LceQuantize" ? compute_engine::tflite::Register_QUANTIZE() : code == "LceDequantize" ? compute_engine::tflite::Register_DEQUANTIZE() : code == "LceBMaxPool2d" ? compute_engine::tflite::Register_BMAXPOOL_2D() : code == "LceBconv2d" ? ConvRun::Reg(kernel) : nullptr; if (!reg) { lce_fail("every custom operation has an operator"); abort(); }
    v->Init(reg, ob, bytes.size());lce_assert(v->Prepare() == kTfLiteOk, "the operators accept the converted model"); lce_assert(v->DimsEq(out, rd), "the operators infer the shapes of the converted model"); v->Allocate(); lce_assert(v->Invoke() == kTfLiteOk, "the operators run");
    for (size_t i = 0; i < r.n(); i++) if (r.k == kF32) r.f[i] = v->data<float>(out)[i]; else if (r.k == kI32) r.i[i] = v->data<int32_t>(out)[i]; else if (r.k == kBool) r.i[i] = v->data<uint8_t>(out)[i]; else r.i[i] = v->data<int8_t>(out)[i];
    return r; }
};
}
#endif
