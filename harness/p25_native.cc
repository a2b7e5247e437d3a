// P25: the native half of the conversion: options reach the importers, the pass pipeline and the exporter unchanged, and every failure is an error.
#include "convert_stub.h"
#include "larq_compute_engine/mlir/transforms/passes.h"
namespace mlir { namespace TFL {
std::unique_ptr<OperationPass<func::FuncOp>> CreateOpRemovalPass() { return lce_mk<FPass>("OpRemoval"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreatePrepareLCEPass(LCETarget t) { LcePass p; p.target = (int)t; return lce_mk<FPass>("PrepareLCE", p); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateOptimizeLCEPass(LCETarget t) { LcePass p; p.target = (int)t; return lce_mk<FPass>("OptimizeLCE", p); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateBitpackWeightsLCEPass() { return lce_mk<FPass>("BitpackWeights"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateLCEQuantizePass() { return lce_mk<FPass>("LCEQuantize"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateLegalizeLCEPass() { return lce_mk<FPass>("LegalizeLCE"); }
std::unique_ptr<OperationPass<func::FuncOp>> QuantizeDetectionPostProcessPass() { return lce_mk<FPass>("QuantizeDetection"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateFusePaddingPass() { return lce_mk<FPass>("FusePadding"); }
std::unique_ptr<OperationPass<func::FuncOp>> CreateTranslateToLCEPass() { return lce_mk<FPass>("TranslateToLCE"); }
} std::unique_ptr<OperationPass<func::FuncOp>> CreateSetBatchSizePass() { return lce_mk<FPass>("SetBatchSize"); } }
#include "larq_compute_engine/mlir/tf_tfl_passes.cc"
#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc"
#include "larq_compute_engine/mlir/python/common.cc"
#include "larq_compute_engine/mlir/python/graphdef_tfl_flatbuffer.cc"
#include "larq_compute_engine/mlir/python/saved_model_tfl_flatbuffer.cc"
// what Python calls: the functions bound to the names that converter.py imports
struct Bound { using B = pybind11::bytes; using V = std::vector<std::string>; using Graph = B (*)(const B&, const V&, const V&, const std::vector<std::vector<int>>&, const V&, const bool, const std::string&, const pybind11::object&); using Saved = B (*)(const std::string&, const V&, const V&, const int, const std::string&, const pybind11::object&);
  Graph graph = nullptr; Saved saved = nullptr; const char*& doc() { static const char* d; return d; } template <class... X> Bound& def(const char* n, Graph f, const X&...) { if (!strcmp(n, "convert_graphdef_to_tflite_flatbuffer")) graph = f; return *this; } template <class... X> Bound& def(const char* n, Saved f, const X&...) { if (!strcmp(n, "convert_saved_model_to_tflite_flatbuffer")) saved = f; return *this; } };
#undef PYBIND11_MODULE
#define PYBIND11_MODULE(name, m) static void lce_module_##name(Bound& m)
#include "larq_compute_engine/mlir/python/pybind_export.cc"
static bool errWanted = false; static const char* errLabel = "valid options are accepted"; static bool targetBad = false;
static void OnError() { lce_assert(errWanted, errLabel); if (targetBad) lce_assert(CW().runs == 0 && CW().exports == 0, "nothing is converted for an unknown target"); lce_cover("error"); lce_observe(1); }
static std::vector<LcePass> all;
static int First(const char* n, int from = 0) { for (int i = from; i < (int)all.size(); i++) if (!strcmp(all[i].name, n)) return i; return -1; }
static int Last(const char* n) { int r = -1; for (int i = 0; i < (int)all.size(); i++) if (!strcmp(all[i].name, n)) r = i; return r; }
static int Between(const char* n, int lo, int hi) { for (int i = lo + 1; i < hi; i++) if (!strcmp(all[i].name, n)) return i; return -1; }
static void Order(int a, int b, const char* l) { lce_assert(a >= 0 && b >= 0 && a < b, l); }
static PyObject* Range(double lo, double hi) { auto* p = lce_py(kPyTuple); for (double d : {lo, hi}) { auto* x = lce_py(kPyFloat); x->f = d; p->l.push_back(x); } return p; }
enum { kTarget, kFailure, kEntry, kShapes, kRanges, kGraph, kNames, kFamilies };
int harness_main() {
  lce_on_error() = OnError; auto& W = CW(); int fam = (int)lce_choose("family", 0, kFamilies - 1), saved = (int)lce_choose("saved model", 0, 1), quantize = saved ? 1 : (int)lce_choose("quantize", 0, 1);
  int len = 3, xcore = 0, ranged = 0, dirKind = 1, nin = 1, entries = 1, cf = -1, nExport = 1, nameLen = 20, nout = 1; bool attr = true, sym = false, seq = false;
  switch (fam) {
    case kTarget: len = (int)lce_choose("length of the target", 0, 7); sym = true; break;
    case kFailure: W.fail = (int)lce_choose("failing step", 0, kSteps - 1); xcore = (int)lce_choose("xcore", 0, 1); ranged = (int)lce_choose("range", 0, 1); break;
    case kEntry: entries = (int)lce_choose("entry functions", 0, 2); attr = lce_choose("inputs attribute", 0, 1); nin = (int)lce_choose("inputs", 1, 3); nExport = (int)lce_choose("exported names", 0, 2); W.noBundle = lce_choose("no bundle", 0, 1); break;
    case kShapes: nin = (int)lce_choose("inputs", 1, 3); nout = (int)lce_choose("outputs", 1, 2); seq = true; break;
    case kRanges: ranged = (int)lce_choose("range", 0, 5); nin = (int)lce_choose("inputs", 1, 3); xcore = (int)lce_choose("xcore", 0, 1); break;
    case kGraph: cf = (int)lce_choose("control flow", -1, 5); dirKind = (int)lce_choose("directory", 0, 1); break;
    default: nameLen = (int)lce_choose("name length", 1, 80); }
  lce_go();
  std::string target = xcore ? "xcore" : "arm"; bool isArm = !xcore, isX = xcore; if (sym) { target = std::string((size_t)len, 'a'); for (int i = 0; i < len; i++) target[i] = (char)lce_int("letter", 1, 126); isArm = len == 3; isX = len == 5; for (int i = 0; i < 3 && i < len; i++) isArm = isArm & (target[i] == "arm"[i]); for (int i = 0; i < 5 && i < len; i++) isX = isX & (target[i] == "xcore"[i]); }
  targetBad = !(isArm | isX);
  // the module that will be imported
  static const char* const flow[] = {"tf_executor.Switch", "tf_executor.Merge", "tf_executor.Enter", "tf_executor.Exit", "tf_executor.NextIteration.Sink", "tf_executor.NextIteration.Source"};
  W.module.ops = {"tf_executor.Island", "tf.Conv2D", "tf_executor.Fetch"}; if (cf >= 0) W.module.ops.insert(W.module.ops.begin() + (cf % 4), flow[cf]);
  static const char* const names[] = {"", "x", "first,second", "a,b,c"}; for (int i = 0; i < 3; i++) { auto* f = new mlir::Operation; f->name = "func.func"; int mark = entries == 0 ? -1 : entries == 1 ? 1 : i % 2 ? -1 : i; if (mark == i) { std::vector<mlir::NamedAttribute> v; if (attr) v.push_back(mlir::NamedAttribute(mlir::StringAttr::get(nullptr, "inputs"), mlir::StringAttr::get(nullptr, names[nin]))); v.push_back(mlir::NamedAttribute(mlir::StringAttr::get(nullptr, "outputs"), mlir::StringAttr::get(nullptr, "p,q,r,s"))); f->setAttr("tf.entry_function", mlir::DictionaryAttr::get(nullptr, v)); } W.module.funcs.push_back(f); }
  W.opName = std::string((size_t)nameLen, 'n'); if (fam == kNames) for (int i = 0; i < nameLen; i++) W.opName[i] = (char)lce_int("name letter", 'a', 'z');
  // ranges: 1 a pair, 2 a list, 3 too short, 4 too long, 5 not numbers
  double lo = 0, hi = 0; PyObject* range = Py_None; bool rangeBad = false; if (ranged) { lo = lce_symf("lower"); hi = lce_symf("upper"); lce_assume((lo == lo) & (hi == hi)); range = Range(lo, hi); if (ranged == 2) range->kind = kPyList; if (ranged == 3) range->l.pop_back(); if (ranged == 4) range->l.push_back(lce_py(kPyInt)); if (ranged == 5) range->l[1] = lce_py(kPyStr); rangeBad = ranged >= 3 && quantize; }
  std::vector<std::string> arrays, dtypes, outs, tags = {"serve", "other"}, exported; std::vector<std::vector<int>> shapes; static const char* const an[] = {"x", "input_2", "z/y"}; static const char* const dn[] = {"DT_FLOAT", "DT_INT32", "DT_INT8"};
  for (int i = 0; i < nin; i++) { arrays.push_back(an[i]); dtypes.push_back(dn[i]); std::vector<int> s; int r = (i * 2 + nin) % 4; for (int k = 0; k < r; k++) s.push_back((int)lce_int("dimension", -1, 1000)); shapes.push_back(s); } for (int i = 0; i < nout; i++) outs.push_back(i ? "b:1" : "a"); for (int i = 0; i < nExport; i++) exported.push_back(i ? "other" : "serving_default");
  std::string dir = dirKind ? "/models/some directory" : "", proto("graph\0def", 9); int version = (int)lce_int("version", 0, 2);
  bool stepCounts = W.fail >= 0 && (saved ? W.fail > kImportOutputs : W.fail != kRegister && W.fail != kFreezeVars);
  bool bad = targetBad | rangeBad | stepCounts | (cf >= 0) | (saved ? entries != 1 || !attr || nExport == 0 : false); errWanted = bad; lce_observe(len);
  Bound py; lce_module__tf_tfl_flatbuffer(py); lce_assert(py.graph && py.saved, "both conversions are exported to Python"); pybind11::bytes out; if (saved) out = py.saved(dir, tags, exported, version, target, pybind11::object(pybind11::handle(range))); else out = py.graph(pybind11::bytes(proto), arrays, dtypes, shapes, outs, quantize, target, pybind11::object(pybind11::handle(range)));
  lce_assert(!bad, "invalid options and failures raise an error");
  lce_assert(std::string(out) == W.out && W.exports == 1 && W.imports == 1, "the exported model is returned");
  // what was imported
  if (saved) { lce_assert(W.dir == dir && W.exported == exported, "the saved model's directory and signatures are passed on"); lce_assert(W.version == version, "the saved model's version is passed on"); lce_assert(W.tags.size() == 2 && W.tags.count("serve") && W.tags.count("other"), "the tags are passed on"); lce_assert(W.legacy && W.lifting == 1, "legacy graphs are upgraded and variables lifted"); }
  else { lce_assert(W.proto == proto, "the graph is passed on"); lce_assert(W.arrays == arrays && W.dtypes == dtypes && W.outputs == outs, "the names and types of inputs and outputs are passed on"); lce_assert(W.shapes.size() == shapes.size(), "one shape per input"); for (size_t i = 0; i < shapes.size(); i++) { if (shapes[i].empty()) { lce_assert(!W.shapes[i].has_value(), "an empty shape means that the shape is not given"); continue; } lce_assert(W.shapes[i].has_value() && W.shapes[i]->size() == shapes[i].size(), "the shapes are passed on"); bool eq = true; for (size_t k = 0; k < shapes[i].size(); k++) eq = eq & ((*W.shapes[i])[k] == shapes[i][k]); lce_assert(eq, "the shapes are passed on"); } lce_assert(W.prune && W.legacy && !W.asFunction && W.feeds, "the graph is imported as a pruned and upgraded graph"); }
  // variables
  if (saved) lce_assert(W.frozen == 1 && W.frozenWith == W.session, "the variables of the saved model are frozen between the two halves"); else lce_assert(W.frozen == -1, "a frozen graph has no variables");
  // the pipeline
  lce_assert(W.runs >= 2, "both halves of the pipeline are run"); for (int k = 0; k < 4; k++) for (auto& p : W.ran[k]) all.push_back(p);
  int n = (int)all.size(), prep = First("PrepareLCE"), opt = First("OptimizeLCE"), legal = First("CreateLegalizeTFPass"), pack = Last("BitpackWeights"); bool tgt = true; int count = 0; for (auto& p : all) if (!strcmp(p.name, "PrepareLCE") || !strcmp(p.name, "OptimizeLCE")) { tgt = tgt & (p.target == (isX ? 1 : 0)); count++; } lce_assert(count >= 2 && tgt, "the requested target reaches the passes");
  Order(First("CreateRaiseCustomOpsPass"), First("CreateTFStandardPipeline"), "fake quantization operators are protected before anything is folded"); Order(First("SetBatchSize"), prep, "the batch size is fixed before the binary operators are introduced"); lce_assert(Between("CreateTFShapeInferencePass", First("SetBatchSize"), prep) >= 0, "the batch size is propagated by shape inference");
  Order(First("OpRemoval"), prep, "pass-through operators are removed before the binary operators are introduced"); Order(First("CreateFreezeGlobalTensorsPass"), prep, "variables are constants before the binary operators are introduced"); lce_assert(Between("createCanonicalizerPass", First("CreateFreezeGlobalTensorsPass"), prep) >= 0, "constants are folded before the binary operators are introduced");
  int lay = First("CreateLayoutOptimizationPipeline"); Order(lay, prep, "the layout is fixed before the binary operators are introduced"); lce_assert(all[lay].text == "NHWC", "the layout is NHWC"); Order(prep, legal, "binary operators are introduced before the remaining ones are converted"); Order(legal, Last("OptimizeLCE"), "the converted model is optimised"); Order(Last("OptimizeLCE"), pack, "filters are packed after all optimisations"); Order(legal, First("FusePadding"), "padding is fused into converted operators");
  int fin = First("LegalizeLCE"); lce_assert(fin == n - 1, "binary operators become custom operators at the end"); Order(pack, fin, "filters are packed before the operators are converted");
  int assets = First("CreateFreezeAssetsPass"); if (saved && dirKind) lce_assert(assets >= 0 && all[assets].text == dir && assets < prep, "the assets of the saved model are frozen"); else lce_assert(assets < 0, "there are no assets without a saved model");
  // quantization
  int pq = First("CreatePrepareQuantizePass"), q = First("CreateQuantizePass"), dq = First("CreateDefaultQuantParamsPass");
  if (!quantize) lce_assert(pq < 0 && q < 0 && dq < 0 && First("LCEQuantize") < 0 && First("QuantizeDetection") < 0 && First("CreatePostQuantizePass") < 0, "nothing is quantized unless asked for");
  else { Order(First("FusePadding"), pq, "quantization starts when padding is fused"); Order(pack, pq, "quantization starts after the float optimisations"); Order(pq, q, "quantization is prepared"); auto& s = all[pq].specs; lce_assert(s.inference_type == tensorflow::DT_QINT8 && !s.weight_quantization && s.inference_input_type == tensorflow::DT_FLOAT, "int8 inference with float inputs is requested"); lce_assert((int)s.input_ranges.size() == nin, "one range per input"); for (auto& r : s.input_ranges) lce_assert(!r.first.has_value() && !r.second.has_value(), "inputs have no default range");
    lce_assert(Between("LCEQuantize", pq, ranged ? dq : q) >= 0, "binary operators are quantized after the preparation"); Order(First("QuantizeDetection"), q, "detection operators are quantized first"); Order(pq, First("QuantizeDetection"), "detection operators are quantized after the preparation"); int post = First("CreatePostQuantizePass"); Order(q, post, "quantization is cleaned up"); lce_assert(all[post].flag == 1, "quantized inputs and outputs keep their float interface"); Order(q, Last("LCEQuantize"), "binary operators absorb the remaining quantization"); Order(Last("LCEQuantize"), fin, "quantization is complete before the operators are converted"); Order(q, Last("CreateOptimizePass"), "the quantized model is optimised");
    if (ranged) { lce_assert(pq < dq && dq < q && Last("CreateDefaultQuantParamsPass") == dq, "default ranges are applied once, between preparation and quantization"); lce_assert(all[dq].lo == lo, "the lower default range is passed on"); lce_assert(all[dq].hi == hi, "the upper default range is passed on"); lce_assert(all[dq].flag == 1, "the default range is for signed integers"); lce_assert(Between("LCEQuantize", dq, q) >= 0, "binary operators are quantized with default ranges"); lce_assert(s.post_training_quantization == (saved != 0), "weights are quantized per channel when a saved model is converted with default ranges"); lce_assert(s.default_ranges.first.has_value() && s.default_ranges.second.has_value(), "both ends of the default range are given"); }
    else lce_assert(dq < 0 && !s.post_training_quantization, "no default ranges unless asked for"); }
  // what was exported
  if (saved) lce_assert(W.exportTags.size() == 2 && W.exportTags.count("serve") && W.exportTags.count("other"), "the tags are exported"); else lce_assert(W.exportTags.empty(), "there are no tags"); lce_assert(W.customOps && !W.selectOps && !W.stablehlo, "custom operators are allowed and TensorFlow operators are not forced");
  bool same = (int)W.exportedName.size() >= (nameLen < 50 ? nameLen : 1) && (int)W.exportedName.size() <= (nameLen < 50 ? nameLen : 64); for (size_t i = 0; i < W.exportedName.size() && i < W.opName.size() && i < 50; i++) same = same & (W.exportedName[i] == W.opName[i]); lce_assert(same, "tensor names are the names of the operators, shortened to about 50 characters");
  lce_observe(n > 10); if (ranged && quantize) lce_cover("default ranges"); lce_cover(saved ? "saved model" : "graph"); return 0; }
