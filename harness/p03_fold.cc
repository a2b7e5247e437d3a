// P03: folding a quantize or dequantize operation on a constant gives bit for bit what the run-time operator computes from that constant; unsupported operands are left alone.
#include "tfl_env.h"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "mlir_env.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
using namespace mlir;
static const int kCols[] = {1, 3, 32, 33, 64, 70, 2, 31, 63, 65, 96, 100, 129};
static const double kScale[] = {1.0, 0.5, 0.1, 0.4, 3.0, 0.0078125, 1e-10, 4.656613e-10, 100.0, 0.3999999940395355, 0.40000001, 0.66666668, 0.6666666, 2.0, 1e30, 1e-39, 4e-8, 0.0039215688593685627, 0.00392156862745098, 0.28571429848670959, 0.15384615957736969, 0.39999999850988388};
static quant::UniformQuantizedType Quant(unsigned bits, bool sign, double scale, int64_t zp) { return quant::UniformQuantizedType::get(sign, IntegerType::get(nullptr, bits), FloatType::getF32(nullptr), scale, zp, sign ? -128 : 0, sign ? 127 : 255); }
int harness_main() {
  int deq = (int)lce_choose("dequantize", 0, 1); int col = kCols[lce_choose("channels", 0, lce_tier() ? 12 : 5)], sh = (int)lce_choose("shape", 0, 9), type = (int)lce_choose("type", 0, deq ? 5 : 4), si = 0; int foldable = type == 0 || (deq && type == 1);
  if (deq && type == 1) { si = (int)lce_choose("scale", 0, lce_tier() ? 21 : 13); if (si && (sh > 1 || col > 33)) lce_prune(); } if (!foldable && (col > 33 || sh > 5)) lce_prune();
  lce_go(); static lq::LarqDialect ld(lce_ctx()); static TFL::TensorFlowLiteDialect td; Fn f;
  Shape lead = sh == 0 ? Shape{2, 1, 2} : sh == 1 ? Shape{1, 1, 1} : sh == 2 ? Shape{} : sh == 3 ? Shape{3} : sh == 4 ? Shape{1, 2} : sh == 5 ? Shape{2, 1, 1, 2} : sh == 6 ? Shape{0, 1, 1} : sh == 7 ? Shape{1, 3, 2} : sh == 8 ? Shape{0} : Shape{2, 2}; int64_t rows = 1; for (auto d : lead) rows *= d; int words = cdiv(col, 32); Shape us = lead, ps = lead; us.push_back(col); ps.push_back(words); Dims ud(us.begin(), us.end()), pd(ps.begin(), ps.end());
  Value x, r; std::vector<uint8_t> want; Type rt; Env e; int ti, to; int zp = 0;
  if (!deq) { Type et = type == 0 ? f32() : type == 1 ? qi8(0.5, 3) : type == 2 ? i1() : type == 3 ? i32() : (Type)FloatType::getF64(nullptr); rt = ten(ps, i32()); size_t esz = type == 0 || type == 3 ? 4 : type == 4 ? 8 : 1, n = (size_t)(rows * col);
    auto* in = (unsigned char*)lce_alloc(n * esz, 0, "input"); if (type == 2) for (size_t i = 0; i < n; i++) in[i] = (unsigned char)lce_int("bit", 0, 1); else lce_sym_array(in, esz, n, "input"); auto* at = DenseElementsAttr::mk(ten(us, et)); std::memcpy(at->data, in, n * esz); x = f.cst(DenseElementsAttr(at)); r = f.v("lq.Quantize", {x}, rt);
    if (type <= 2) { ti = e.Tensor(type == 0 ? kTfLiteFloat32 : type == 1 ? kTfLiteInt8 : kTfLiteBool, ud, kTfLiteMmapRo, in); if (type == 1) e.Quant(ti, 0.5f, 3); to = e.Tensor(kTfLiteInt32, Dims(ud.size(), 1)); e.Io({ti}, {to}); e.Init(compute_engine::tflite::Register_QUANTIZE()); } }
  else { if (type == 1) zp = (int)lce_int("zero point", -128, 127); Type et = type == 0 ? f32() : type == 1 ? Quant(8, true, kScale[si], zp) : type == 2 ? i1() : type == 3 ? (Type)Quant(8, false, 0.5, 3) : type == 4 ? (Type)Quant(16, true, 0.5, 0) : (Type)i32(); rt = ten(us, et);
    auto* in = lce_sym<uint32_t>((size_t)(rows * words), "input"); auto* at = DenseElementsAttr::mk(ten(ps, i32())); std::memcpy(at->data, in, (size_t)(rows * words) * 4); x = f.cst(DenseElementsAttr(at)); r = f.v("lq.Dequantize", {x}, rt);
    if (type <= 2) { ti = e.Tensor(kTfLiteInt32, pd, kTfLiteMmapRo, in); to = e.Tensor(type == 0 ? kTfLiteFloat32 : type == 1 ? kTfLiteInt8 : kTfLiteBool, ud); if (type == 1) e.Quant(to, (float)kScale[si], zp); e.Io({ti}, {to}); e.Init(compute_engine::tflite::Register_DEQUANTIZE()); } }
  f.ret({r}); lce_assert(f.run(TFL::CreateBitpackWeightsLCEPass()) && f.wellFormed() && lce_stats().converged, "the pass succeeds");
  Operation* c = f.result(0).getDefiningOp(); if (c->name == (deq ? "lq.Dequantize" : "lq.Quantize")) { lce_assert(c->getOperand(0).getDefiningOp()->name == "arith.constant" && f.result(0).getType() == rt, "an operation that is not folded is unchanged"); lce_observe(0); lce_cover("not folded"); return 0; }
  lce_assert(c->name == "arith.constant" && f.result(0).getType() == rt, "the folded constant has the type of the operation's result"); auto v = c->getAttr("value").dyn_cast<DenseElementsAttr>(); lce_assert((bool)v && Type(v.impl->type) == rt, "the folded attribute has the type of the operation's result"); lce_assert(type <= 2, "only types the run-time operator supports are folded");
  lce_assert(e.Prepare() == kTfLiteOk && e.DimsEq(to, deq ? ud : pd), "the run-time operator gives a tensor of the folded shape"); e.Allocate(); if (!rows) { lce_cover("folded empty"); return 0; } lce_assert(e.Invoke() == kTfLiteOk, "invoke ok");
  size_t es = type == 1 && deq ? 1 : type == 2 && deq ? 1 : 4, n = (size_t)(deq ? rows * col : rows * words); auto* o = e.data<unsigned char>(to);
  for (size_t i = 0; i < n; i++) { if (es == 4) { uint32_t a, b; std::memcpy(&a, v.impl->data + 4 * i, 4); std::memcpy(&b, o + 4 * i, 4); if (i < 4) lce_observe(a); lce_assert(a == b, "the folded element is what the run-time operator computes"); } else { if (i < 4) lce_observe(v.impl->data[i]); lce_assert(v.impl->data[i] == o[i], "the folded element is what the run-time operator computes"); } }
  lce_cover(deq ? "folded dequantize" : "folded quantize"); return 0; }
