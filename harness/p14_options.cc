// P14: options written by the converter (lq operation -> custom operator) carry every attribute, and the importer (custom operator -> lq operation) restores them.
#include "mlir_env.h"
#include "flexbuffers_stub.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/legalize_tflite.cc"
#define pass pass_2
#define ConvertPaddingAttr ConvertPaddingAttr_2
#define ConvertActivationAttr ConvertActivationAttr_2
#include "larq_compute_engine/mlir/transforms/translate_tflite.cc"
using namespace mlir;
static const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"}; static const char* kPad[] = {"SAME", "VALID"};
int harness_main() {
  int kind = (int)lce_choose("operator", 0, 4), act = 0, pad = 0, none = 0, outt = 0; if (kind == 0) { act = (int)lce_choose("activation", 0, 3); none = (int)lce_choose("absent operands", 0, 1); outt = (int)lce_choose("output type", 0, 2); } if (kind <= 1) pad = (int)lce_choose("padding", 0, 1); int twice = (int)lce_choose("two operators", 0, 1); if (kind == 4 && twice) lce_prune();
  lce_go(); static lq::LarqDialect ld(lce_ctx()); static TFL::TensorFlowLiteDialect td; Fn f; Type oi = ten({1, 4, 5, 1}, i32()), of = ten({1, 4, 5, 8}, outt == 1 ? qi8(0.5, 3) : f32()); if (outt == 2) of = oi;
  Value x = f.arg(ten({1, 8, 9, 1}, i32())), w = f.arg(ten({8, 3, 2, 1}, i32())), m = none ? f.none() : f.arg(ten({8}, f32())), b = none ? f.none() : f.arg(ten({8}, f32())), t = none ? f.arg(ten({8}, i32())) : f.none(), y = f.arg(ten({1, 4, 5, 8}, f32()));
  // two operators of one kind, with different options
  struct Opt { int64_t v[7]; int pad, act; }; Opt o[2]; Value r[2]; int n = twice ? 2 : 1; static const char* kConv[] = {"channels_in", "dilation_height_factor", "dilation_width_factor", "pad_values", "stride_height", "stride_width"}; static const char* kPool[] = {"stride_width", "stride_height", "filter_width", "filter_height"};
  for (int i = 0; i < n; i++) { o[i].pad = pad ^ i; o[i].act = (act + i) % 4; for (auto& v : o[i].v) v = lce_int("option", INT32_MIN, INT32_MAX);
    auto* q = o[i].v; if (kind == 0) r[i] = f.v("lq.Bconv2d", {x, w, m, b, t}, of, {{kConv[0], I(q[0])}, {kConv[1], I(q[1])}, {kConv[2], I(q[2])}, {"fused_activation_function", S(kAct[o[i].act])}, {kConv[3], I(q[3])}, {"padding", S(kPad[o[i].pad])}, {kConv[4], I(q[4])}, {kConv[5], I(q[5])}});
    else if (kind == 1) r[i] = f.v("lq.BMaxPool2d", {x}, oi, {{"padding", S(kPad[o[i].pad])}, {kPool[0], I(q[0])}, {kPool[1], I(q[1])}, {kPool[2], I(q[2])}, {kPool[3], I(q[3])}});
    else if (kind == 2) r[i] = f.v("lq.Quantize", {y}, oi); else if (kind == 3) r[i] = f.v("lq.Dequantize", {x}, of); else r[i] = f.mk("tfl.custom", {y, m}, {of}, {{"custom_code", S("SomethingElse")}, {"custom_option", TFL::ConstBytesAttr::get(nullptr, "abc")}})->getResult(0); }
  if (n == 1) r[1] = r[0]; f.ret({r[0], r[1]}); static const char* kLq[] = {"lq.Bconv2d", "lq.BMaxPool2d", "lq.Quantize", "lq.Dequantize", "tfl.custom"}; static const char* kCode[] = {"LceBconv2d", "LceBMaxPool2d", "LceQuantize", "LceDequantize", "SomethingElse"};
  std::vector<std::vector<ValueImpl*>> operands; std::vector<Type> types; for (int i = 0; i < n; i++) { operands.push_back(f.result(i).getDefiningOp()->operands); types.push_back(f.result(i).getType()); }
  lce_assert(f.run(TFL::CreateLegalizeLCEPass()) && f.wellFormed() && lce_stats().converged, "legalisation succeeds");
  for (int i = 0; i < n; i++) { Operation* c = f.result(i).getDefiningOp(); lce_assert(c && c->name == "tfl.custom" && str(c, "custom_code") == kCode[kind], "the operator becomes the custom operator registered at run time"); lce_assert(c->operands == operands[i] && c->results.size() == 1 && f.result(i).getType() == types[i], "operands and result type are unchanged");
    auto bytes = c->getAttrOfType<TFL::ConstBytesAttr>("custom_option"); lce_assert((bool)bytes, "options are written"); std::string s = bytes.getValue().str(); if (kind >= 2) { lce_assert(kind == 4 ? s == "abc" : s.empty(), "no options"); continue; }
    auto map = flexbuffers::GetRoot((const uint8_t*)s.data(), s.size()).AsMap(); for (int k = 0; k < (kind == 0 ? 6 : 4); k++) { auto ref = map[kind == 0 ? kConv[k] : kPool[k]]; lce_assert(!ref.IsNull() && ref.IsIntOrUint(), "every option is written as an integer"); lce_assert(ref.AsInt32() == (int32_t)o[i].v[k], "the written option is the attribute"); lce_observe(ref.AsInt32()); }
    lce_assert(!map["padding"].IsNull() && map["padding"].AsInt32() == o[i].pad, "the padding scheme is written with its schema number"); if (kind == 0) lce_assert(!map["fused_activation_function"].IsNull() && map["fused_activation_function"].AsInt32() == o[i].act, "the activation is written with its schema number"); }
  lce_cover("written");
  lce_assert(f.run(TFL::CreateTranslateToLCEPass()) && f.wellFormed(), "the import succeeds");
  for (int i = 0; i < n; i++) { Operation* c = f.result(i).getDefiningOp(); lce_assert(c && c->name == kLq[kind], "the imported operator is the original one"); lce_assert(c->operands == operands[i] && c->results.size() == 1 && f.result(i).getType() == types[i], "imported operands and result type are unchanged"); if (kind >= 2) continue;
    for (int k = 0; k < (kind == 0 ? 6 : 4); k++) { int64_t v = num(c, kind == 0 ? kConv[k] : kPool[k]); lce_assert(v == o[i].v[k], "the imported attribute is the original one"); } lce_assert(str(c, "padding") == kPad[o[i].pad], "the imported padding is the original one"); if (kind == 0) lce_assert(str(c, "fused_activation_function") == kAct[o[i].act], "the imported activation is the original one"); }
  lce_cover("imported"); return 0; }
