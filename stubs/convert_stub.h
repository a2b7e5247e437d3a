// A small stand-in for the conversion driver's surroundings (MLIR modules and pass managers, the TensorFlow importers, the flatbuffer exporter).
// Passes are recorded by name and arguments; every step of the conversion may fail; the harness inspects what was executed.
#ifndef LCE_CONVERT_STUB_H_
#define LCE_CONVERT_STUB_H_
#include <unordered_map>
#include <unordered_set>
#include <string_view>
#include "mlir_stub.h"
#include "llvm/ADT/SmallVector.h"
#include "pybind_stub.h"
namespace llvm { class raw_string_ostream { public: explicit raw_string_ostream(std::string&) {} template <class T> raw_string_ostream& operator<<(const T&) { return *this; } };
__attribute__((weak, noinline)) size_t StringRef::find(StringRef s, size_t from) const { for (size_t i = from; i + s.size() <= size(); i++) if (!memcmp(data() + i, s.data(), s.size())) return i; return npos; }
__attribute__((weak, noinline)) void StringRef::split(SmallVectorImpl<StringRef>& A, StringRef sep, int max, bool keep) const { StringRef s = *this; while (max-- != 0) { size_t i = s.find(sep, 0); if (i == npos) break; if (keep || i > 0) A.push_back(StringRef(s.data(), i)); s = StringRef(s.data() + i + sep.size(), s.size() - i - sep.size()); } if (keep || !s.empty()) A.push_back(s); }
__attribute__((weak, noinline)) void StringRef::split(SmallVectorImpl<StringRef>& A, char sep, int max, bool keep) const { split(A, StringRef(&sep, 1), max, keep); }
}
namespace tensorflow { using std::string; enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_INT8 = 6, DT_UINT8 = 4, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT32 = 13, DT_QINT16 = 15, DT_QUINT16 = 16, DT_INT16 = 5, DT_HALF = 19 }; }
namespace mlir { class ModuleOp;
namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic, kQDQStrict };
struct QuantizationSpecs { bool weight_quantization = false, post_training_quantization = false, disable_per_channel = false, disable_infer_tensor_range = false, legacy_float_scale = false, unidirectional = false; tensorflow::DataType inference_type = tensorflow::DT_FLOAT, inference_input_type = tensorflow::DT_FLOAT; std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges; std::pair<std::optional<double>, std::optional<double>> default_ranges; std::string target_func = "main"; QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool RunPropagationAndRewriteQuantizationPasses() const { return inference_type != tensorflow::DT_FLOAT && !weight_quantization; } bool IsSignedInferenceType() const { return inference_type != tensorflow::DT_QUINT8 && inference_type != tensorflow::DT_QUINT16; } bool RunWeightQuantization() const { return weight_quantization; } };
} }
// ------------------------------------------------------------------ what happens
enum { kImportParse, kImportInputs, kImportOutputs, kImport, kRegister, kOptions, kRun1, kFreezeVars, kRun2, kExport, kInvalid, kSteps };
struct LcePass { mlir::Pass* real = nullptr; const char* name = ""; int target = -1; double lo = 0, hi = 0; int flag = -1; mlir::quant::QuantizationSpecs specs; std::string text; };
struct LceModule { std::vector<mlir::Operation*> funcs; std::vector<const char*> ops; };
struct LceWorld { int fail = -1, failed = 0; bool diag = false; LceModule module; std::vector<LcePass> ran[4]; int runs = 0; int frozen = -1; void* frozenWith = nullptr; std::vector<int> order;
  std::string proto; std::vector<std::string> arrays, dtypes, outputs, exported, tagList; std::vector<std::optional<std::vector<int>>> shapes; bool prune = false, legacy = false, asFunction = true, feeds = false; std::string dir; int version = -99, lifting = -1; std::unordered_set<std::string> tags, exportTags; bool noBundle = false; void* session = nullptr; std::string out = "flatbuffer"; bool customOps = false, selectOps = true, stablehlo = true; int exports = 0, imports = 0; std::string opName, exportedName; };
inline LceWorld& CW() { static LceWorld* w = new LceWorld; return *w; }
// true if the step succeeds
inline bool lce_step(int k) { if (CW().fail != k) return true; CW().failed = 1; CW().diag = true; return false; }
namespace absl {
class Status { public: bool good = true; Status() = default; explicit Status(bool g) : good(g) {} bool ok() const { return good; } std::string_view message() const { return "message"; } std::string ToString() const { return "status"; } }; inline Status OkStatus() { return Status(); }
#define LCE_ERR(N) template <class... A> inline Status N(A&&...) { return Status(false); }
LCE_ERR(InternalError) LCE_ERR(InvalidArgumentError) LCE_ERR(NotFoundError) LCE_ERR(FailedPreconditionError) LCE_ERR(UnimplementedError) LCE_ERR(UnknownError)
template <class T> class StatusOr { public: std::optional<T> v; Status s; StatusOr(T&& x) : v(std::move(x)) {} StatusOr(Status e) : s(e) {} bool ok() const { return v.has_value(); } Status status() const { return s; } T& value() { if (!v) lce_fail("the value of a failed result is used"); return *v; } T& operator*() { return value(); } T* operator->() { return &value(); } };
template <class T> class Span { public: const T* p = nullptr; size_t n = 0; Span() = default; Span(const Span&) = default; Span(Span& o) : p(o.p), n(o.n) {} const T* data() const { return p; } template <class C> Span(C& c) : p(c.data()), n(c.size()) {} Span(const T* q, size_t k) : p(q), n(k) {} size_t size() const { return n; } bool empty() const { return !n; } const T* begin() const { return p; } const T* end() const { return p + n; } const T& operator[](size_t i) const { return p[i]; } };
using string_view = std::string_view; }
namespace tsl { using Status = absl::Status; template <class T> using StatusOr = absl::StatusOr<T>; inline Status OkStatus() { return Status(); } }
namespace mlir {
struct WalkResult { bool stop; static WalkResult interrupt() { return {true}; } static WalkResult advance() { return {false}; } static WalkResult skip() { return {false}; } bool wasInterrupted() const { return stop; } };
struct LceDiag { template <class T> LceDiag& operator<<(const T&) { return *this; } operator LogicalResult() const { return failure(); } operator InFlightDiagnostic() const { return {}; } };
class ModuleOp { public: LceModule* m = nullptr; MLIRContext* getContext() const { return lce_ctx(); } explicit operator bool() const { return m; } ModuleOp* operator->() { return this; }
  template <class T> std::vector<T> getOps() const { std::vector<T> r; for (auto* f : m->funcs) r.push_back(T(f)); return r; }
  template <class F> WalkResult walk(F&& f) { for (auto* n : m->ops) { auto* o = new Operation; o->name = n; if (f(o).wasInterrupted()) return WalkResult::interrupt(); } return WalkResult::advance(); }
  InFlightDiagnostic emitError(const char* = "") { CW().diag = true; return {}; } template <class T> void print(T&) {} LogicalResult verifyInvariants() { return success(lce_step(kInvalid)); } LogicalResult verify() { return verifyInvariants(); } };
template <class T> class OwningOpRef { public: T t; OwningOpRef(T x = T()) : t(x) {} OwningOpRef(OwningOpRef&&) = default; OwningOpRef& operator=(OwningOpRef&&) = default; T get() const { return t; } T operator*() const { return t; } T* operator->() { return &t; } explicit operator bool() const { return (bool)t; } };
inline LogicalResult verify(ModuleOp m) { return m.verifyInvariants(); }
// Passes are nodes of a list owned by the pass manager
inline LcePass*& lce_of(Pass* p) { static std::map<Pass*, LcePass*> m; return m[p]; }
template <class P> std::unique_ptr<P> lce_mk(const char* n, LcePass r = {}) { struct X : P { void runOnOperation() override {} }; auto p = std::make_unique<X>(); r.name = n; lce_of(p.get()) = new LcePass(r); return p; }
using FPass = OperationPass<func::FuncOp>; using MPass = OperationPass<ModuleOp>;
template <> class OperationPass<ModuleOp> : public Pass { public: ModuleOp getOperation() { return {}; } };
struct PassInstrumentation { virtual ~PassInstrumentation() {} };
class OpPassManager { public: std::vector<std::pair<LcePass, bool>> v; std::vector<std::unique_ptr<OpPassManager>> kids; OpPassManager* top = nullptr; bool fn = false;
  void lce_put(Pass* p, bool f) { LcePass r; if (lce_of(p)) r = *lce_of(p); r.real = p; (top ? top : this)->v.push_back({r, f || fn}); }
  template <class P> void addPass(std::unique_ptr<P> p) { lce_put(p.release(), false); } template <class Op, class P> void addNestedPass(std::unique_ptr<P> p) { lce_put(p.release(), true); }
  template <class Op> OpPassManager& nest() { kids.push_back(std::make_unique<OpPassManager>()); kids.back()->top = top ? top : this; kids.back()->fn = true; return *kids.back(); } void clear() { v.clear(); } size_t size() const { return v.size(); } bool empty() const { return v.empty(); } };
class PassManager : public OpPassManager { public: explicit PassManager(MLIRContext* = nullptr) {} MLIRContext* getContext() const { return lce_ctx(); } template <class P> void addInstrumentation(std::unique_ptr<P>) {} void enableVerifier(bool = true) {}
  LogicalResult run(ModuleOp m) { auto& W = CW(); lce_assert(m.m == &W.module, "the imported module is converted"); lce_assert(!W.failed, "nothing runs after a failed step"); int k = W.runs++; if (k < 4) for (auto& p : v) W.ran[k].push_back(p.first); W.order.push_back(k); return success(lce_step(k == 0 ? kRun1 : k == 1 ? kRun2 : -2)); } };
inline void registerPassManagerCLOptions() {} inline LogicalResult applyPassManagerCLOptions(PassManager&) { return success(lce_step(kOptions)); } inline LogicalResult applyDefaultTimingPassManagerCLOptions(PassManager&) { return success(); }
class StatusScopedDiagnosticHandler { public: StatusScopedDiagnosticHandler(MLIRContext*, bool = false, bool = false) {} absl::Status ConsumeStatus() { bool d = CW().diag; CW().diag = false; return absl::Status(!d); } absl::Status Combine(absl::Status s) { absl::Status c = ConsumeStatus(); return s.ok() ? c : s; } };
#define LCE_PASS(T, N) template <class... A> inline std::unique_ptr<T> N(A&&...) { return lce_mk<T>(#N); }
LCE_PASS(Pass, createCanonicalizerPass) LCE_PASS(Pass, createInlinerPass) LCE_PASS(Pass, createSymbolDCEPass) LCE_PASS(Pass, createCSEPass) LCE_PASS(Pass, createSCCPPass)
namespace func { template <class T> inline void registerAllExtensions(T&) {} }
namespace tf_executor {
#define LCE_EXEC(N) struct N##Op : OpBase<N##Op, false> { using OpBase::OpBase; N##Op() = default; static StringRef getOperationName() { return "tf_executor." #N; } };
LCE_EXEC(Switch) LCE_EXEC(Merge) LCE_EXEC(Enter) LCE_EXEC(Exit) struct NextIterationSinkOp : OpBase<NextIterationSinkOp, false> { using OpBase::OpBase; NextIterationSinkOp() = default; static StringRef getOperationName() { return "tf_executor.NextIteration.Sink"; } }; struct NextIterationSourceOp : OpBase<NextIterationSourceOp, false> { using OpBase::OpBase; NextIterationSourceOp() = default; static StringRef getOperationName() { return "tf_executor.NextIteration.Source"; } }; LCE_EXEC(Island) LCE_EXEC(Graph) LCE_EXEC(Fetch) }
namespace TF { struct StandardPipelineOptions { bool enable_inliner = false, form_clusters = false; }; inline void CreateTFStandardPipeline(OpPassManager& m, const StandardPipelineOptions&) { m.addPass(lce_mk<MPass>("CreateTFStandardPipeline")); }
struct LayoutOptimizationPipelineOptions { std::string force_data_format; bool skip_fold_transpose_in_ops = false; }; inline void CreateLayoutOptimizationPipeline(OpPassManager& m, const LayoutOptimizationPipelineOptions& o) { LcePass p; p.text = o.force_data_format; m.addPass(lce_mk<FPass>("CreateLayoutOptimizationPipeline", p)); }
LCE_PASS(FPass, CreateDeviceIndexSelectorPass) LCE_PASS(MPass, CreateTFShapeInferencePass) LCE_PASS(MPass, CreateTFFunctionalControlFlowToRegions) LCE_PASS(MPass, CreateTFRegionControlFlowToFunctional) inline std::unique_ptr<FPass> CreateInitTextFileToImportPass(std::string d) { LcePass p; p.text = d; return lce_mk<FPass>("CreateInitTextFileToImportPass", p); } }
namespace TFDevice { LCE_PASS(FPass, CreateDecomposeResourceOpsPass) }
namespace tf_saved_model { LCE_PASS(MPass, CreateOptimizeGlobalTensorsPass) LCE_PASS(MPass, CreateFreezeGlobalTensorsPass) inline std::unique_ptr<MPass> CreateFreezeAssetsPass(std::string d) { LcePass p; p.text = d; return lce_mk<MPass>("CreateFreezeAssetsPass", p); } inline LogicalResult FreezeVariables(ModuleOp, void* s) { lce_assert(!CW().failed, "nothing runs after a failed step"); CW().frozen = CW().runs; CW().frozenWith = s; return success(lce_step(kFreezeVars)); } }
namespace TFL {
LCE_PASS(FPass, CreateRaiseCustomOpsPass) LCE_PASS(MPass, CreatePrepareCompositeFunctionsPass) LCE_PASS(MPass, CreateLowerStaticTensorListPass) LCE_PASS(MPass, CreateLegalizeTFWhilePass) LCE_PASS(FPass, CreateReduceWhileOperandsPass) LCE_PASS(FPass, CreatePrepareTFPass) LCE_PASS(FPass, CreateLegalizeTFPass) LCE_PASS(MPass, CreateAnalyzeVariablesPass) LCE_PASS(MPass, CreateLegalizeVariablesPass) LCE_PASS(MPass, CreateLegalizeHashTablesPass) LCE_PASS(FPass, CreateOptimizePass) LCE_PASS(MPass, CreateOptimizeFunctionalOpsPass) LCE_PASS(FPass, CreateQuantizePass) LCE_PASS(FPass, CreatePostQuantizeRemoveQDQPass) LCE_PASS(FPass, CreateOptimizeOpOrderPass) LCE_PASS(FPass, CreateSplitMergedOperandsPass) LCE_PASS(MPass, CreateInsertCallOnceOpFromSessionInitializerPass) LCE_PASS(MPass, CreateUnfoldLargeSplatConstantPass) LCE_PASS(MPass, CreateWhileOutlinePass) LCE_PASS(FPass, CreateRuntimeVerifyPass)
inline std::vector<std::string> AllTfFakeQuantOps() { return {"tf.FakeQuantWithMinMaxVars"}; }
inline std::unique_ptr<FPass> CreatePrepareQuantizePass(const quant::QuantizationSpecs& s) { LcePass p; p.specs = s; return lce_mk<FPass>("CreatePrepareQuantizePass", p); }
inline std::unique_ptr<FPass> CreateDefaultQuantParamsPass(double lo, double hi, bool sg) { LcePass p; p.lo = lo; p.hi = hi; p.flag = sg; return lce_mk<FPass>("CreateDefaultQuantParamsPass", p); }
inline std::unique_ptr<FPass> CreatePostQuantizePass(bool a) { LcePass p; p.flag = a; return lce_mk<FPass>("CreatePostQuantizePass", p); }
struct ErrorCollectorInstrumentation : PassInstrumentation { ErrorCollectorInstrumentation(MLIRContext*) {} }; template <class A, class B> inline void AttachErrorCode(A&&, B) {} }
namespace odml { inline std::vector<std::string> GetAcceptedTFLiteDialects() { return {}; } LCE_PASS(Pass, createPrintOpStatsPass) }
struct OpOrVal { const std::string* loc; }; }
namespace tensorflow {
using Status = absl::Status; template <class T> using StatusOr = absl::StatusOr<T>; inline Status OkStatus() { return Status(); } namespace errors { LCE_ERR(InvalidArgument) LCE_ERR(Internal) LCE_ERR(NotFound) }
struct GraphDef {}; struct GraphDebugInfo {}; class Session {}; struct LceInputs { int set = 0; }; struct GraphImportConfig { bool prune_unused_nodes = false, convert_legacy_fed_inputs = false, graph_as_function = false, upgrade_legacy = false, restrict_functionalization_to_compiled_nodes = false, enable_shape_inference = true; LceInputs inputs; std::vector<string> outputs; std::vector<string> control_outputs; };
inline Status LoadProtoFromBuffer(std::string_view s, GraphDef*) { CW().proto = std::string(s); return Status(lce_step(kImportParse)); }
inline Status ParseInputArrayInfo(const std::vector<string>& a, const std::vector<string>& d, const std::vector<std::optional<std::vector<int>>>& s, LceInputs* o) { CW().arrays = a; CW().dtypes = d; CW().shapes = s; o->set = 1; return Status(lce_step(kImportInputs)); }
inline Status ParseOutputArrayInfo(const std::vector<string>& a, std::vector<string>* o) { *o = a; return Status(lce_step(kImportOutputs)); }
inline StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> lce_import() { auto& W = CW(); lce_assert(!W.failed, "nothing runs after a failed step"); W.imports++; if (!lce_step(kImport)) return Status(false); mlir::ModuleOp m; m.m = &W.module; return mlir::OwningOpRef<mlir::ModuleOp>(m); }
inline StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef&, const GraphDebugInfo&, const GraphImportConfig& c, mlir::MLIRContext*, bool = true) { auto& W = CW(); lce_assert(c.inputs.set == 1, "the parsed inputs are used"); W.outputs = c.outputs; W.prune = c.prune_unused_nodes; W.legacy = c.upgrade_legacy; W.asFunction = c.graph_as_function; W.feeds = c.convert_legacy_fed_inputs; return lce_import(); }
struct SavedModelBundle { Session* s = nullptr; Session* GetSession() const { return s; } };
inline StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string>, absl::Span<std::string> names, const GraphImportConfig& c, bool lifting, mlir::MLIRContext*, std::unique_ptr<SavedModelBundle>* b) { auto& W = CW(); W.dir = dir; W.version = version; W.tags = tags; for (auto& n : names) W.exported.push_back(n); W.legacy = c.upgrade_legacy; W.lifting = lifting; static Session s; W.session = W.noBundle ? nullptr : (void*)&s; if (W.noBundle) b->reset(); else { lce_assert((bool)*b, "a bundle to be filled is passed"); (*b)->s = &s; } return lce_import(); }
}
namespace mlir { using tensorflow::DataType; }
namespace toco { struct TocoFlags { bool select = true, custom = false; void set_force_select_tf_ops(bool v) { select = v; } void set_allow_custom_ops(bool v) { custom = v; } void set_enable_select_tf_ops(bool) {} }; }
namespace tensorflow { namespace internal { inline Status RegisterAllCustomOps(const toco::TocoFlags&) { return Status(lce_step(kRegister)); } } namespace converter { struct DebugOptions {}; } inline void InitPassManager(mlir::PassManager&, const converter::DebugOptions&) {}
using mlir::OpOrVal;
class OpOrArgNameMapper { public: virtual ~OpOrArgNameMapper() {} std::string lce_name(OpOrVal v) { return GetName(v); } protected: virtual std::string GetName(OpOrVal v) = 0; };
class OpOrArgLocNameMapper : public OpOrArgNameMapper { protected: std::string GetName(OpOrVal v) override { return *v.loc; } }; }
namespace tensorflow { namespace converter { } } namespace converter = tensorflow::converter;
namespace tflite { namespace metrics { struct ConverterErrorData { enum { ERROR_UNSUPPORTED_CONTROL_FLOW_V1 = 1 }; }; }
struct FlatbufferExportOptions { toco::TocoFlags toco_flags; std::unordered_set<std::string> saved_model_tags; tensorflow::OpOrArgNameMapper* op_or_arg_name_mapper = nullptr; };
inline bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp m, const FlatbufferExportOptions& o, std::string* r, bool hlo = false) { auto& W = CW(); lce_assert(!W.failed, "nothing runs after a failed step"); lce_assert(m.m == &W.module, "the converted module is exported"); W.exports++; W.exportTags = o.saved_model_tags; W.customOps = o.toco_flags.custom; W.selectOps = o.toco_flags.select; W.stablehlo = hlo; if (o.op_or_arg_name_mapper) W.exportedName = o.op_or_arg_name_mapper->lce_name({&W.opName}); if (!lce_step(kExport)) return false; *r = W.out; return true; } }
#endif
