// P20: the prepare rewrites (sign idioms, pass-through operations) leave the computed function unchanged.
#include "mlir_eval.h"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
#define pass pass_2
#include "larq_compute_engine/mlir/transforms/op_removal.cc"
using namespace mlir;
static const float kPairs[][2] = {{1, -1}, {-1, 1}, {1, 1}, {-1, -1}, {2, -2}, {1, 0}, {0, -1}, {-1, 2}};
static const int kC[] = {3, 1, 2, 32, 33, 65};
int harness_main() {
  int kind = (int)lce_choose("kind", 0, 4); LCETarget target = lce_choose("target", 0, 1) ? LCETarget::XCORE : LCETarget::ARM; int C = kC[lce_choose("channels", 0, lce_tier() ? 5 : 4)]; int fold = (int)lce_choose("fold", 0, 1);
  static lq::LarqDialect ld(lce_ctx()); static TF::TensorFlowDialect td; lce_other_folds() = fold ? lce_eval_fold : lce_shape_fold;
  Fn f; Shape R = kind < 2 || C == 3 || C == 32 ? Shape{2, C} : C == 1 ? Shape{2, 1, 1, 1, C} : Shape{2, 1, 1, C}; std::vector<Tensor> args; const char* idiom = nullptr; bool removal = false;
  if (kind <= 1) {  // SelectV2, Select
    int cs = (int)lce_choose("condition shape", 0, 4), pr = (int)lce_choose("values", 0, 7), vs = (int)lce_choose("value shape", 0, 3); int split = (int)lce_choose("mixed", 0, 1); if (fold) lce_prune();
    if (kind == 1 && (cs == 1 || cs == 2 || vs != 0)) lce_prune(); if (kind == 0 && cs == 4) lce_prune(); if (split && (pr > 1 || vs == 1)) lce_prune(); if (C == 65 && pr > 1) lce_prune();
    lce_go();
    Shape csh = cs == 0 ? R : cs == 1 ? Shape{C} : cs == 2 ? Shape{2, 1} : cs == 3 ? Shape{} : Shape{2}; Shape vsh = vs == 0 ? R : vs == 1 ? Shape{} : vs == 2 ? Shape{C} : Shape{2, 1};
    auto vals = [&](float v, float o) { std::vector<float> d; int64_t n = 1; for (auto x : vsh) n *= x; for (int64_t i = 0; i < n; i++) d.push_back(split && i == n - 1 ? o : v); return d; };
    Value c = f.arg(ten(csh, i1())); args.push_back(symTensor(c.getType(), "condition")); Value a = f.cst<float>(vsh, f32(), vals(kPairs[pr][0], 0.5f)), b = f.cst<float>(vsh, f32(), vals(kPairs[pr][1], kPairs[pr][1])); Value s = f.v(kind ? "tf.Select" : "tf.SelectV2", {c, a, b}, ten(R, f32())); f.ret({s}); idiom = kind ? "tf.Select" : "tf.SelectV2"; }
  else if (kind == 2) {  // Sign(Sign(x) + c)
    static const float kAdd[] = {0.1f, 0.5f, 0.999f, 1.0f, 1.5f, 0.0f, -0.0f, -0.1f, -1.0f, 3.0f}; int ci = (int)lce_choose("addend", 0, 10), order = (int)lce_choose("order", 0, 1), vs = (int)lce_choose("value shape", 0, 2); int chain = (int)lce_choose("chain", 0, 2); if (fold || (chain && ci)) lce_prune(); if (!lce_tier() && (C == 2 || C == 32 || (C != 3 && ci != 10 && (ci + vs + (int)(target == LCETarget::XCORE)) % 2))) lce_prune();
    lce_go(); Shape vsh = vs == 0 ? Shape{} : vs == 1 ? Shape{C} : R; int64_t n = vs == 0 ? 1 : vs == 1 ? C : 2 * C;
    Value x = f.arg(ten(R, f32())); args.push_back(symTensor(x.getType(), "x", -3, 3)); Value c; if (ci == 10) { c = f.arg(ten(vsh, f32())); args.push_back(symTensor(c.getType(), "addend", -3, 3)); } else c = f.cst<float>(vsh, f32(), std::vector<float>((size_t)n, kAdd[ci]));
    Value s = f.v(chain == 1 ? "tf.Snapshot" : "tf.Sign", {x}, ten(R, f32())); if (chain == 2) s = f.v("tf.Identity", {s}, ten(R, f32())); Value sum = order ? f.v("tf.AddV2", {c, s}, ten(R, f32())) : f.v("tf.AddV2", {s, c}, ten(R, f32())); f.ret({f.v("tf.Sign", {sum}, ten(R, f32()))}); idiom = "tf.AddV2"; }
  else {  // pass-through operations, two deep, with other users
    static const char* kOps[] = {"tf.Identity", "tf.CheckNumerics", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.IdentityN", "tf.Sign"}; int o1 = (int)lce_choose("first", 0, 6), o2 = (int)lce_choose("second", 0, 6), src = (int)lce_choose("source", 0, 1); if (fold || C > 3) lce_prune();
    lce_go(); Type t = ten(R, f32()); Value x = f.arg(t), y = f.arg(t); args.push_back(symTensor(t, "x")); args.push_back(symTensor(t, "y")); std::vector<float> d; for (int i = 0; i < 2 * C; i++) d.push_back(0.25f * (float)i - 1.0f); Value k = f.v("tf.Const", {}, t, {{"value", DenseElementsAttr::get<float>(ten(R, f32()), ArrayRef<float>(d.data(), d.size()))}});
    auto mk = [&](int o, Value v, Value w) { std::vector<Value> r; if (o == 5) { Operation* p = f.mk(kOps[o], {v, w}, {t, t}); r = {p->getResult(0), p->getResult(1)}; } else r = {f.v(kOps[o], {v}, t, {{"message", S("m")}}), w}; return r; };
    auto r1 = mk(o1, src ? k : x, y); auto r2 = mk(o2, r1[1], r1[0]); Value s = f.v("tf.AddV2", {r2[0], r1[0]}, t); f.ret({s, r2[1], r2[0], r1[0]}); removal = true; }
  Eval e; auto before = e.run(f, args); std::vector<Type> types; for (unsigned i = 0; i < before.size(); i++) types.push_back(f.result(i).getType());
  int n0 = (int)f.body->ops.size();
  if (kind == 4) lce_assert(f.run(TFL::CreateOpRemovalPass()), "the pass succeeds"); else lce_assert(f.run(TFL::CreatePrepareLCEPass(target)), "the pass succeeds");
  lce_assert(f.wellFormed() && lce_stats().converged, "the function stays well formed and the rewrites terminate");
  auto after = e.run(f, args); lce_assert(before.size() == after.size(), "the function has as many results as before");
  for (unsigned i = 0; i < before.size(); i++) { lce_assert(f.result(i).getType() == types[i], "result types unchanged"); lce_assert(sameTensor(before[i], after[i]), "the rewritten function computes the same values"); }
  if (idiom) lce_cover(f.count(idiom) ? "left" : "rewritten"); else lce_cover((int)f.body->ops.size() < n0 ? "removed" : "nothing to remove");
  if (removal) for (auto* n : {"tf.Identity", "tf.CheckNumerics", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.IdentityN", "tf.Const"}) lce_assert(f.count(n) == 0, "pass-through operations and TensorFlow constants are removed");
  return 0; }
