// P21: detection post-processing on dequantized tensors is moved onto the quantized tensors with the same options, shapes and quantization, and everything else is left alone.
#include "mlir_env.h"
#include "larq_compute_engine/mlir/transforms/detection_postprocess.cc"
using namespace mlir;
enum { kMatch, kCode, kInputs, kOutputs, kNotDeq, kOutType, kScoresType, kKinds };
static Shape Dims(const char* n, int rank) { Shape s; for (int i = 0; i < rank; i++) { int64_t d = lce_int(n, -1, 100000); s.push_back(d < 0 ? ShapedType::kDynamic : d); } return s; }
static bool SameShape(Type a, const Shape& s) { auto t = a.dyn_cast<ShapedType>(); if (!t || !t.hasRank() || t.getShape().size() != s.size()) return false; bool r = true; for (size_t i = 0; i < s.size(); i++) r &= t.getShape()[i] == s[i]; return r; }
int harness_main() {
  int kind = (int)lce_choose("kind", 0, kKinds - 1), var = kind == kMatch || kind == kInputs || kind == kOutputs ? 0 : (int)lce_choose("variant", 0, kind == kCode ? 4 : kind == kNotDeq ? 8 : kind == kOutType ? 11 : 6);
  int uses = kind == kMatch ? (int)lce_choose("uses", 0, 7) : 0, order = kind == kMatch ? (int)lce_choose("result order", 0, 2) : 0, two = kind == kMatch ? (int)lce_choose("operations", 1, 2) : 1; int ni = kind == kInputs ? (int)lce_choose("inputs", 0, 3) : 3, no = kind == kOutputs ? (int)lce_choose("outputs", 1, 4) : 4; if (kind == kInputs && ni == 3) ni = 4; if (kind == kOutputs && no == 4) no = 5;
  int opt = kind == kMatch ? (int)lce_choose("options", 0, 3) : 1;
  lce_go(); static TFL::TensorFlowLiteDialect td; Fn f;
  Shape bs = Dims("dimension", 3), ss = Dims("dimension", 3), as = Dims("dimension", 2); double sc[3]; int64_t zp[3]; for (int i = 0; i < 3; i++) { sc[i] = (double)lce_int("scale", 1, 1 << 20) * 0x1p-16; zp[i] = lce_int("zero point", -128, 127); }
  Type q[3]; for (int i = 0; i < 3; i++) q[i] = qi8(sc[i], zp[i]); auto i8 = IntegerType::get(nullptr, 8), i16 = IntegerType::get(nullptr, 16); double scs[2] = {0.5, 0.25}; int64_t zps[2] = {0, 1}; bool scoresBad = false;
  if (kind == kScoresType) { scoresBad = var <= 3; switch (var) { case 0: q[1] = FloatType::getF16(nullptr); break; case 1: q[1] = quant::UniformQuantizedType::get(0, i8, f32(), sc[1], zp[1] + 128, 0, 255); break; case 2: q[1] = quant::UniformQuantizedType::get(1, i16, f32(), sc[1], 0, -32768, 32767); break; case 3: q[1] = quant::UniformQuantizedPerAxisType::get(1, i8, f32(), ArrayRef<double>(scs, 2), ArrayRef<int64_t>(zps, 2), 2, -128, 127); break;
    case 4: q[0] = FloatType::getF16(nullptr); break; case 5: q[2] = quant::UniformQuantizedPerAxisType::get(1, i8, f32(), ArrayRef<double>(scs, 2), ArrayRef<int64_t>(zps, 2), 1, -128, 127); break; default: q[0] = quant::UniformQuantizedType::get(0, i8, f32(), sc[0], zp[0] + 128, 0, 255); } }
  const Shape* sh[3] = {&bs, &ss, &as}; Value in[4], src[4];
  for (int i = 0; i < 3; i++) { int dev = kind == kNotDeq && var % 3 == i ? 1 + var / 3 : 0; // float argument, another operation, an operation on the dequantized tensor
    if (dev == 1) { in[i] = f.arg(ten(*sh[i], f32())); continue; } src[i] = f.arg(ten(*sh[i], dev == 2 ? f32() : q[i])); in[i] = f.v(dev == 2 ? "tfl.relu" : "tfl.dequantize", {src[i]}, ten(*sh[i], f32())); if (dev == 3) in[i] = f.v("tfl.abs", {in[i]}, ten(*sh[i], f32())); }
  in[3] = in[2]; Shape os[5]; Type ot[5]; static const int rank[5] = {3, 2, 2, 1, 1}; for (int i = 0; i < 5; i++) { os[i] = Dims("dimension", rank[i]); ot[i] = i == 2 ? f32() : i32(); }
  if (kind == kOutType) { static const int o[] = {0, 1, 3}; int w = var / 3; Type bad = w == 0 ? f32() : w == 1 ? (Type)IntegerType::get(nullptr, 64) : (Type)i16; if (w < 3) ot[o[var % 3]] = bad; else ot[2] = var == 9 ? i32() : var == 10 ? (Type)FloatType::getF64(nullptr) : qi8(0.5, 3); }
  static const char* const code[] = {"TFLite_Detection_PostProcess2", "TFLite_Detection_PostProces", "", "LceBconv2d", "tflite_detection_postprocess"}; static const char* const bytes[] = {"", "abc", "max_detections", "abd"}; std::string option = bytes[opt]; if (opt == 2) option += std::string("\0\x7e\xff\0z", 5);
  Operation* op[2]; Value out[8]; for (int n = 0; n < two; n++) { std::vector<Type> t; for (int i = 0; i < no; i++) t.push_back(ten(os[i], ot[i])); OperationState st(Location(), "tfl.custom"); for (int i = 0; i < ni; i++) st.addOperands(in[i]); for (auto& x : t) st.addTypes(x); st.addAttribute("custom_code", S(kind == kCode ? code[var] : "TFLite_Detection_PostProcess")); st.addAttribute("custom_option", TFL::ConstBytesAttr::get(nullptr, n ? StringRef("second") : StringRef(option))); op[n] = f.b.create(st); for (int i = 0; i < no && i < 4; i++) out[n * 4 + i] = op[n]->getResult(i); }
  // other consumers of the float scores, of the class numbers, of the dequantized input
  std::vector<Value> res; for (int n = 0; n < two; n++) for (int i = 0; i < no && i < 4; i++) res.push_back(out[n * 4 + (order == 0 ? i : order == 1 ? 3 - i : (i + 2) % 4)]);
  if (uses & 1) res.push_back(f.v("tfl.abs", {out[2]}, ten(os[2], f32()))); if (uses & 2) res.push_back(f.v("tfl.abs", {out[1]}, ten(os[1], i32()))); if (uses & 4) res.push_back(f.v("tfl.abs", {in[1]}, ten(ss, f32())));
  std::vector<Type> rt; for (auto v : res) rt.push_back(v.getType()); OperationState st(Location(), "func.return"); for (auto v : res) st.addOperands(v); std::vector<Type> it; for (auto a : f.args) it.push_back(a.getType()); f.op->setAttr("function_type", TypeAttr::get(FunctionType::get(nullptr, it, rt))); f.b.create(st);
  lce_assert(f.run(TFL::QuantizeDetectionPostProcessPass()) && f.wellFormed(), "the pass succeeds");
  for (size_t i = 0; i < res.size(); i++) lce_assert(f.result((unsigned)i).getType().impl == rt[i].impl || f.result((unsigned)i).getType() == rt[i], "result types are unchanged");
  if (!(kind == kMatch || (kind == kScoresType && !scoresBad))) { lce_assert(!op[0]->erased && op[0]->operands.size() == (size_t)ni && f.count("tfl.custom") == 1, "an operation that does not qualify is unchanged"); for (int i = 0; i < ni; i++) lce_assert(op[0]->getOperand(i) == in[i], "an operation that does not qualify keeps its operands"); for (size_t i = 0; i < res.size(); i++) lce_assert(f.result((unsigned)i) == res[i], "its results are still returned"); lce_observe(1); lce_cover("left"); return 0; }
  for (int n = 0; n < two; n++) { Value r[4]; for (int i = 0; i < 4; i++) { int p = order == 0 ? i : order == 1 ? 3 - i : (i + 2) % 4; r[p] = f.result((unsigned)(n * 4 + i)); }
    Operation* c = r[0].getDefiningOp(); lce_assert(c && c->name == "tfl.custom" && str(c, "custom_code") == "TFLite_Detection_PostProcess" && c->operands.size() == 3 && c->results.size() == 4, "one detection operation computes the outputs");
    lce_assert(r[1] == c->getResult(1) && r[3] == c->getResult(3) && r[0] == c->getResult(0), "boxes, classes and the number of detections are the same outputs as before");
    for (int i = 0; i < 3; i++) lce_assert(c->getOperand(i) == src[i], "the operation reads the quantized tensors in the same order"); auto by = c->getAttrOfType<TFL::ConstBytesAttr>("custom_option"); lce_assert((bool)by && by.getValue() == (n ? StringRef("second") : StringRef(option)), "the options are carried over");
    for (int i = 0; i < 4; i++) { lce_assert(SameShape(c->getResult(i).getType(), os[i]), "output shapes are carried over"); Type e = c->getResult(i).getType().cast<ShapedType>().getElementType(); if (i != 2) { lce_assert(e.isSignlessInteger(32), "integer outputs stay integers"); continue; }
      auto u = e.dyn_cast<quant::UniformQuantizedType>(); lce_assert((bool)u && u.isSigned() && u.getStorageTypeIntegralWidth() == 8 && u.getExpressedType().isF32() && u.getStorageTypeMin() == -128 && u.getStorageTypeMax() == 127, "scores are quantized to int8"); lce_assert((u.getZeroPoint() == zp[1]) & (u.getScale() == sc[1]), "scores have the quantization of the scores input"); lce_observe((uint32_t)u.getZeroPoint()); }
    Operation* d = r[2].getDefiningOp(); lce_assert(d && d->name == "tfl.dequantize" && d->getOperand(0) == c->getResult(2) && SameShape(r[2].getType(), os[2]) && r[2].getType().cast<ShapedType>().getElementType().isF32(), "scores are dequantized for their consumers"); }
  size_t at = (size_t)two * 4; if (uses & 1) { Operation* c = f.result((unsigned)at++).getDefiningOp(); lce_assert(c->name == "tfl.abs" && c->getOperand(0) == f.result(order == 0 ? 2u : order == 1 ? 1u : 0u), "other consumers of the scores read the dequantized scores"); } if (uses & 2) { Operation* c = f.result((unsigned)at++).getDefiningOp(); lce_assert(c->name == "tfl.abs" && c->getOperand(0) == f.result(order == 0 ? 1u : order == 1 ? 2u : 3u), "other consumers of the classes read the classes"); } if (uses & 4) { Operation* c = f.result((unsigned)at++).getDefiningOp(); lce_assert(c->name == "tfl.abs" && c->getOperand(0) == in[1], "other consumers of the dequantized scores input are unchanged"); }
  lce_cover("moved"); return 0; }
