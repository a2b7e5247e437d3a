// TensorFlow and TensorFlow Lite dialects of the MLIR stand-in: operation classes generated from stubs/td by lib/drr.py, result types inferred here.
#ifndef LCE_MLIR_TF_STUB_H_
#define LCE_MLIR_TF_STUB_H_
#include "mlir_stub.h"
#include "tflite_stub.h"
namespace mlir {
inline std::vector<int64_t> lce_bcast(ArrayRef<int64_t> a, ArrayRef<int64_t> b) { size_t n = a.size() > b.size() ? a.size() : b.size(); std::vector<int64_t> r(n); for (size_t i = 0; i < n; i++) { int64_t x = i + a.size() >= n ? a[i + a.size() - n] : 1, y = i + b.size() >= n ? b[i + b.size() - n] : 1; r[i] = x == 1 ? y : x; } return r; }
inline Type lce_infer(OperationState& s) {
  std::string n = s.name.substr(s.name.find('.') + 1);
  if (n == "no_value") return NoneType::get(nullptr);
  if (n == "Const") { for (auto& a : s.attributes) if (a.name.str() == "value") return a.value.cast<TypedAttr>().getType(); }
  if (s.operands.empty()) return NoneType::get(nullptr);
  auto t0 = s.operands[0].getType(); auto s0 = t0.dyn_cast<ShapedType>();
  bool cmp = n == "greater_equal" || n == "less_equal" || n == "greater" || n == "less";
  if (cmp || n == "add" || n == "sub" || n == "mul" || n == "div" || n == "AddV2" || n == "Add" || n == "Sub" || n == "Mul" || n == "Div" || n == "RealDiv") { auto s1 = s.operands[1].getType().dyn_cast<ShapedType>(); if (!s0 || !s1 || !s0.hasRank() || !s1.hasRank()) return t0; return RankedTensorType::get(lce_bcast(s0.getShape(), s1.getShape()), cmp ? Type(IntegerType::get(nullptr, 1)) : s0.getElementType()); }
  if (n == "Transpose") { auto* d = s.operands[1].getDefiningOp(); auto p = d ? d->getAttrOfType<DenseElementsAttr>("value") : DenseElementsAttr(); if (s0 && p) { std::vector<int64_t> r; for (int v : p.getValues<int>()) r.push_back(s0.getShape()[v]); return RankedTensorType::get(r, s0.getElementType()); } }
  return t0; }
class TFLCE_Dummy;
}
#include "lce_tfl_ops.inc"
#include "lce_tf_ops.inc"
namespace mlir {
namespace TFL { class TensorFlowLiteDialect : public Dialect { public: TensorFlowLiteDialect(MLIRContext* = nullptr) { addOperations<
#include "lce_tfl_list.inc"
>(); } };
inline bool TFIntListIs1XY1(Attribute a) { auto l = a.dyn_cast_or_null<ArrayAttr>(); if (!l || l.size() != 4) return false; for (auto x : l) if (!x.isa<IntegerAttr>()) return false; return l[0].cast<IntegerAttr>().getInt() == 1 && l[3].cast<IntegerAttr>().getInt() == 1; }
inline bool TFIntListIs1XY1(Operation* op, StringRef name, IntegerAttr* x, IntegerAttr* y) { auto l = op->getAttrOfType<ArrayAttr>(name); if (!TFIntListIs1XY1(l)) return false; *x = l[1].cast<IntegerAttr>(); *y = l[2].cast<IntegerAttr>(); return true; }
inline bool TFPaddingIsSameOrValid(Operation* op, StringAttr* p) { auto a = op->getAttrOfType<StringAttr>("padding"); if (a.getValue() != "SAME" && a.getValue() != "VALID") return false; *p = a; return true; }
template <class Op> class ConvertTFDilatedConvOp : public OpRewritePattern<Op> { public: using OpRewritePattern<Op>::OpRewritePattern; LogicalResult matchAndRewrite(Op, PatternRewriter&) const override { return failure(); } };
}
namespace TF { class TensorFlowDialect : public Dialect { public: TensorFlowDialect(MLIRContext* = nullptr) { addOperations<
#include "lce_tf_list.inc"
>(); } }; }
using TFL::TFIntListIs1XY1; using TFL::TFPaddingIsSameOrValid;
}
#endif
