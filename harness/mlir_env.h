// Building functions of the MLIR stand-in by hand and running passes on them.
#ifndef LCE_MLIR_ENV_H_
#define LCE_MLIR_ENV_H_
#include "lce.h"
#include "mlir_stub.h"
#include "mlir_tf_stub.h"
namespace mlir {
typedef std::vector<int64_t> Shape;
inline Type f32() { return FloatType::getF32(nullptr); }
inline Type i32() { return IntegerType::get(nullptr, 32); }
inline Type i1() { return IntegerType::get(nullptr, 1); }
inline Type qi8(double scale, int64_t zp) { return quant::UniformQuantizedType::get(1, IntegerType::get(nullptr, 8), FloatType::getF32(nullptr), scale, zp, -128, 127); }
inline RankedTensorType ten(const Shape& s, Type e) { return RankedTensorType::get(ArrayRef<int64_t>(s.data(), s.size()), e); }
inline Attribute I(int64_t v) { return IntegerAttr::get(i32(), v); }
inline Attribute S(StringRef s) { return StringAttr::get(nullptr, s); }
inline Attribute L(std::initializer_list<int64_t> v) { std::vector<Attribute> a; for (auto x : v) a.push_back(IntegerAttr::get(IntegerType::get(nullptr, 64), x)); return ArrayAttr::get(nullptr, a); }
inline Attribute B(bool v) { return BoolAttr::get(nullptr, v); }
typedef std::initializer_list<std::pair<const char*, Attribute>> Attrs;
struct Fn {
  Operation* op; Block* body; OpBuilder b; std::vector<Value> args;
  Fn() { op = new Operation; op->name = "func.func"; body = new Block; body->parent = op; op->body = body; op->setAttr("sym_name", S("main")); b.setInsertionPointToEnd(body); }
  Value arg(Type t) { auto* v = new ValueImpl; v->type = t.impl; v->num = (unsigned)args.size(); v->block = body; body->args.push_back(v); args.push_back(Value(v)); return args.back(); }
  Operation* mk(const char* name, std::initializer_list<Value> in, std::initializer_list<Type> out, Attrs at = {}) { OperationState st(Location(), name); for (auto v : in) st.addOperands(v); for (auto t : out) st.addTypes(t); for (auto& a : at) st.addAttribute(a.first, a.second); return b.create(st); }
  Value v(const char* name, std::initializer_list<Value> in, Type out, Attrs at = {}) { return mk(name, in, {out}, at)->getResult(0); }
  Value cst(Attribute a) { return mk("arith.constant", {}, {a.cast<TypedAttr>().getType()}, {{"value", a}})->getResult(0); }
  template <class T> Value cst(const Shape& s, Type e, const std::vector<T>& d) { return cst(DenseElementsAttr::get<T>(ten(s, e), ArrayRef<T>(d.data(), d.size()))); }
  Value cst(float f) { return cst<float>({}, f32(), {f}); }
  Value none() { return v("tfl.no_value", {}, NoneType::get(nullptr), {{"value", UnitAttr::get(nullptr)}}); }
  void ret(std::initializer_list<Value> in) { std::vector<Type> it, rt; for (auto a : args) it.push_back(a.getType()); for (auto a : in) rt.push_back(a.getType()); op->setAttr("function_type", TypeAttr::get(FunctionType::get(nullptr, it, rt))); mk("func.return", in, {}); }
  Operation* terminator() const { return body->ops.back(); }
  Value result(unsigned i) const { return terminator()->getOperand(i); }
  template <class P> bool run(P p) { p->op_ = op; p->runOnOperation(); return !p->failed_; }
  int count(StringRef n) const { int c = 0; for (auto* o : body->ops) c += StringRef(o->name) == n; return c; }
  // operands are defined before use, use lists agree with operands
  bool wellFormed() const { std::vector<ValueImpl*> seen(body->args); for (auto* o : body->ops) { if (o->erased || o->block != body) return false; for (auto* x : o->operands) { bool f = false; for (auto* s : seen) f |= s == x; if (!f) return false; bool u = false; for (auto& q : x->uses) u |= q.op == o; if (!u) return false; } for (auto* x : o->results) seen.push_back(x); } return !body->ops.empty() && StringRef(body->ops.back()->name) == "func.return"; } };
inline StringRef str(Operation* o, StringRef n) { auto a = o->getAttrOfType<StringAttr>(n); return a ? a.getValue() : StringRef("?"); }
inline int64_t num(Operation* o, StringRef n) { auto a = o->getAttrOfType<IntegerAttr>(n); return a ? a.getInt() : INT64_MIN; }
}
#endif
