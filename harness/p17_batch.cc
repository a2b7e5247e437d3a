// P17: fixing the batch size changes dynamic leading input dimensions only.
#include "lce.h"
#include "mlir_stub.h"
#include "larq_compute_engine/mlir/transforms/set_batch_size.cc"
using namespace mlir;
static const int64_t kDyn = ShapedType::kDynamic;
enum { kRanked, kEncoded, kUnranked, kScalarType, kVector, kMemref, kOpaque, kKinds };
struct Arg { int kind = 0, rank = 0; int64_t d[8] = {}; Type elem; Type type; };
static Type Elem(int k) { return k == 0 ? Type(FloatType::getF32(lce_ctx())) : k == 1 ? Type(IntegerType::get(lce_ctx(), 8)) : Type(quant::UniformQuantizedType::get(1, IntegerType::get(lce_ctx(), 8), FloatType::getF32(lce_ctx()), 0.5, 3, -128, 127)); }
static Type Build(const Arg& a, const int64_t* d) {
  ArrayRef<int64_t> sh(d, (size_t)a.rank);
  switch (a.kind) { case kRanked: return RankedTensorType::get(sh, a.elem); case kEncoded: return RankedTensorType::get(sh, a.elem, StringAttr::get(lce_ctx(), "layout")); case kUnranked: return UnrankedTensorType::get(a.elem); case kScalarType: return a.elem; case kVector: return VectorType::get(sh, a.elem); case kMemref: return MemRefType::get(sh, a.elem); default: return OpaqueType::get(7); } }
// equality without branching on dimensions
static bool Same(const TypeStorage* a, const TypeStorage* b) {
  if (a->k != b->k || a->width != b->width || a->sign != b->sign || a->id != b->id || a->shape.size() != b->shape.size() || a->scale != b->scale || a->zp != b->zp || !lce_same(a->elem, b->elem) || !lce_same_attr(a->encoding, b->encoding)) return false;
  bool r = true; for (size_t i = 0; i < a->shape.size(); i++) r &= a->shape[i] == b->shape[i]; return r; }
// many inputs, ranks up to eight
static Arg Wide(int i, int shift) { static const int kR[] = {4, 1, 8, 2, 0, 5, 1, 3}; Arg a; int q = (i + shift) % 8; a.kind = q == 2 && shift % 2 ? kUnranked : q == 5 ? kEncoded : kRanked; a.rank = a.kind == kUnranked ? 0 : kR[q]; a.elem = Elem((i + shift / 2) % 3); for (int k = 0; k < a.rank; k++) { a.d[k] = lce_int("dimension", INT64_MIN, INT64_MAX); lce_assume((a.d[k] >= 0) | (a.d[k] == kDyn)); } a.type = Build(a, a.d); return a; }
static Arg MkArg(int i) {
  static const char* const kn[] = {"kind0", "kind1", "kind2"}; static const char* const rn[] = {"rank0", "rank1", "rank2"}; static const char* const en[] = {"elem0", "elem1", "elem2"};
  Arg a; a.kind = (int)lce_choose(kn[i], 0, i == 0 || lce_tier() ? kKinds - 1 : kUnranked); bool shaped = a.kind == kRanked || a.kind == kEncoded || a.kind == kVector || a.kind == kMemref;
  a.rank = shaped ? (int)lce_choose(rn[i], 0, i == 0 ? 4 : lce_tier() ? 2 : 1) : 0; a.elem = Elem(i ? 0 : (int)lce_choose(en[i], 0, 2));
  for (int k = 0; k < a.rank; k++) { a.d[k] = lce_int("dimension", INT64_MIN, INT64_MAX); lce_assume((a.d[k] >= 0) | (a.d[k] == kDyn)); }
  a.type = Build(a, a.d); return a; }
int harness_main() {
  int n = (int)lce_choose("inputs", 0, lce_tier() ? 4 : 3); std::vector<Arg> in; if (n < (lce_tier() ? 4 : 3)) { for (int i = 0; i < n; i++) in.push_back(MkArg(i)); lce_go(); } else { n += (int)lce_choose("more inputs", 0, 3); int shift = (int)lce_choose("shift", 0, 7); lce_go(); for (int i = 0; i < n; i++) in.push_back(Wide(i, shift)); }
  auto* op = new Operation; op->name = "func.func"; auto* body = new Block; body->parent = op; op->body = body;
  std::vector<Type> its, rts; for (auto& a : in) its.push_back(a.type);
  int64_t rd[2] = {kDyn, 5}; rts.push_back(RankedTensorType::get(ArrayRef<int64_t>(rd, 2), Elem(0))); rts.push_back(RankedTensorType::get(ArrayRef<int64_t>(), Elem(1)));
  for (int i = 0; i < n; i++) { auto* v = new ValueImpl; v->type = its[i].impl; v->num = i; v->block = body; body->args.push_back(v); }
  op->setAttr("sym_name", StringAttr::get(lce_ctx(), "main")); op->setAttr("function_type", TypeAttr::get(FunctionType::get(lce_ctx(), its, rts))); op->setAttr("tf.entry_function", StringAttr::get(lce_ctx(), "inputs = x"));
  func::FuncOp f(op); OpBuilder b; b.setInsertionPointToEnd(body);
  // the body: one operation using every argument, with a dynamic result, and a return
  OperationState st(Location(), "test.use"); for (auto* v : body->args) st.addOperands(Value(v)); st.addTypes(rts[0]); st.addTypes(rts[1]); st.addAttribute("a", StringAttr::get(lce_ctx(), "b")); Operation* use = b.create(st); Operation* ret = b.create<func::ReturnOp>(Location(), ValueRange(use->getResults())).getOperation();
  auto p = CreateSetBatchSizePass(); p->op_ = op; p->runOnOperation();
  lce_assert(!p->failed_ && !lce_errors(), "the pass succeeds");
  FunctionType t = f.getFunctionType(); lce_assert(t.getNumInputs() == (unsigned)n && body->args.size() == (size_t)n, "the number of inputs is unchanged");
  for (int i = 0; i < n; i++) {
    Arg& a = in[i]; bool hit = (a.kind == kRanked || a.kind == kEncoded) && a.rank > 0; int64_t d[8]; for (int k = 0; k < 8; k++) d[k] = a.d[k]; if (hit) d[0] = d[0] == kDyn ? 1 : d[0];
    lce_observe(hit); Type want = Build(a, d); if (a.kind == kEncoded && hit) lce_cover("encoding");
    lce_assert(Same(t.getInput(i).impl, want.impl), "signature input type"); lce_assert(Same(body->args[i]->type, want.impl), "argument value type"); lce_assert(Same(t.getInput(i).impl, body->args[i]->type), "signature and argument agree");
    if (hit) lce_cover("batched input"); else lce_cover("unchanged"); }
  lce_assert(t.getNumResults() == 2 && t.getResult(0) == rts[0] && t.getResult(1) == rts[1], "result types are unchanged");
  lce_assert(op->attrs.size() == 3 && op->getAttrOfType<StringAttr>("sym_name").getValue() == "main" && op->getAttrOfType<StringAttr>("tf.entry_function").getValue() == "inputs = x", "attributes are unchanged");
  lce_assert(body->ops.size() == 2 && body->ops[0] == use && body->ops[1] == ret && use->operands.size() == (size_t)n && Type(use->results[0]->type) == rts[0], "the body is unchanged");
  return 0; }
