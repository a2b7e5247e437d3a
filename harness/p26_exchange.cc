// P26: arrays and tensors are exchanged with matching type, rank, shape and bytes only; properties, errors and constructor options of the native interpreter.
#include "tflite_stub.h"
#include "pybind_stub.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
namespace { struct { bool model_ok = true, alloc_ok = true, build_ok = true, invoke_ok = true; int threads = -99, built = 0, allocated = 0, invoked = 0; const tflite::OpResolver* resolver = nullptr; bool delegates = false; int custom = 0; const char* data = nullptr; size_t size = 0; std::vector<int> in, out; TfLiteTensor t[8]; void (*on_invoke)() = nullptr; tflite::MutableOpResolver::Entry e[8]; } W; }
namespace tflite {
class FlatBufferModel { public: const char* data; size_t n; static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* d, size_t n) { W.data = d; W.size = n; if (!W.model_ok) return nullptr; auto p = std::make_unique<FlatBufferModel>(); p->data = d; p->n = n; return p; } };
// tensor k of the tests has the index k * 65536 + 5, so that indices agree in their low bytes
class Interpreter { static const std::vector<int>& map(std::vector<int>& m, const std::vector<int>& v) { m.clear(); for (int i : v) m.push_back(i * 65536 + 5); return m; } public: const std::vector<int>& inputs() const { static std::vector<int> m; return map(m, W.in); } const std::vector<int>& outputs() const { static std::vector<int> m; return map(m, W.out); } TfLiteTensor* tensor(int i) { i -= 5; if (i < 0 || i >= 8 * 65536 || i % 65536) return nullptr; return &W.t[i / 65536]; } TfLiteTensor* input_tensor(size_t i) { return &W.t[W.in[i]]; } TfLiteTensor* output_tensor(size_t i) { return &W.t[W.out[i]]; }
  TfLiteStatus Invoke() { W.invoked++; if (W.on_invoke) W.on_invoke(); return W.invoke_ok ? kTfLiteOk : kTfLiteError; } TfLiteStatus AllocateTensors() { W.allocated++; return W.alloc_ok ? kTfLiteOk : kTfLiteError; } TfLiteStatus SetNumThreads(int n) { W.threads = n; return kTfLiteOk; } };
class InterpreterBuilder { public: const FlatBufferModel& m; const OpResolver& r; InterpreterBuilder(const FlatBufferModel& a, const OpResolver& b) : m(a), r(b) {}
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* i, int threads = -1) { W.built++; W.threads = threads; auto& b = static_cast<const ops::builtin::BuiltinOpResolver&>(r); W.resolver = &r; W.delegates = b.lce_default_delegates; W.custom = b.n; for (int k = 0; k < b.n && k < 8; k++) W.e[k] = b.entries[k]; if (!W.build_ok) return kTfLiteError; *i = std::make_unique<Interpreter>(); return kTfLiteOk; } };
}
static TfLiteRegistration kReg[6]; namespace compute_engine { namespace tflite { TfLiteRegistration* Register_QUANTIZE() { return &kReg[0]; } TfLiteRegistration* Register_DEQUANTIZE() { return &kReg[1]; } TfLiteRegistration* Register_BCONV_2D() { return &kReg[2]; } TfLiteRegistration* Register_BCONV_2D_REF() { return &kReg[3]; } TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM() { return &kReg[4]; } TfLiteRegistration* Register_BMAXPOOL_2D() { return &kReg[5]; } } }
#include "larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc"
using Wrap = LiteInterpreterWrapper;
static bool errWanted = false, errAlways = false; static const char* errLabel = ""; static unsigned char* watched[4]; static unsigned char* before[4]; static size_t watchedN[4]; static int nwatch = 0; static int invokedWanted = -1;
static void Watch(unsigned char* p, size_t n) { auto* c = (unsigned char*)lce_alloc(n, 0, "copy"); memcpy(c, p, n); watched[nwatch] = p; before[nwatch] = c; watchedN[nwatch++] = n; }
static void Untouched(const char* l) { for (int i = 0; i < nwatch; i++) { bool same = true; for (size_t k = 0; k < watchedN[i]; k++) same &= watched[i][k] == before[i][k]; lce_assert(same, l); } }
static void OnError() { lce_assert(errWanted, errLabel); if (errAlways) lce_cover("rejected"); Untouched("a rejected array leaves the tensor untouched"); if (invokedWanted >= 0) lce_assert(W.invoked == invokedWanted, "the model is not run with rejected inputs"); lce_cover("error"); lce_observe(1); }
static TfLiteIntArray* Ints(int n) { auto* a = (TfLiteIntArray*)lce_alloc(4 + 4 * (size_t)n, 0, "ints"); a->size = n; return a; }
static int TypeOf(int64_t tag) { int r = -1; if (tag == kTagFloat) r = 1; else if (tag == kTagUInt8) r = 3; else if (tag == kTagInt8) r = 9; else if (tag == kTagInt16) r = 7; else if (tag == kTagInt32) r = 2; else if (tag == kTagInt64) r = 4; else if (tag == kTagBool) r = 6; return r; }
static const int kTags[] = {kTagFloat, kTagUInt8, kTagInt8, kTagInt16, kTagInt32, kTagInt64, kTagBool};
static void Tensor(int id, int type, int rank, const int* dim, size_t bytes, bool data = true) { TfLiteTensor& t = W.t[id]; memset((void*)&t, 0, sizeof t); t.type = (TfLiteType)type; t.dims = Ints(rank); for (int i = 0; i < rank; i++) t.dims->data[i] = dim[i]; t.bytes = bytes; t.name = "tensor"; t.data.raw = (char*)lce_alloc(bytes, 0, "tensor"); if (data) lce_sym_array(t.data.raw, 1, bytes, "tensor data"); }
static PyObject* Array(int64_t tag, int rank, const int64_t* dim, size_t bytes, bool strided) { auto* p = lce_py(kPyArray); p->tag = tag; p->nd = rank; for (int i = 0; i < rank; i++) p->dim[i] = dim[i]; p->corder = lce_sym<unsigned char>(bytes, "array data"); p->raw = strided ? lce_sym<unsigned char>(bytes, "other order") : p->corder; return p; }
static pybind11::list Call(Wrap& w, const pybind11::list& l) { auto f = pybind11::lce_bindings<Wrap>::predict(); lce_assert(f != nullptr, "predict is exported"); return (w.*f)(l); }
static pybind11::list Get(Wrap& w, const char* n) { for (auto& p : pybind11::lce_bindings<Wrap>::props()) if (!strcmp(p.first, n)) return (w.*p.second)(); lce_fail("a property is not exported"); return pybind11::list(); }
static Wrap* Make() { pybind11::module_ m; lce_module_interpreter_wrapper_lite(m); return new Wrap(pybind11::bytes("model"), 1, false, false, false); }
static const int kShapes[][4] = {{0}, {1, 3}, {2, 1, 2}, {1, 0}, {3, 1, 2, 1}, {2, 2, 3}};
enum { kInput, kMany, kRagged, kOutputs, kProps, kOptions, kFails, kFamilies };
static void Input() {   // one array against one tensor
  int sh = (int)lce_choose("tensor shape", 0, 5), rank = (int)lce_choose("array rank", 0, 3), off = (int)lce_choose("bytes off", 0, 2), strided = (int)lce_choose("strided", 0, 1), type = kTags[lce_choose("tensor type", 0, lce_tier() ? 6 : 3)]; lce_go();
  int tt = TypeOf(type), n = kShapes[sh][0]; size_t bytes = (size_t)lce_itemsize(type); for (int i = 0; i < n; i++) bytes *= (size_t)kShapes[sh][1 + i]; size_t natural = bytes; if (off == 1) bytes += 1; if (off == 2 && bytes) bytes -= 1;
  W.in = {3}; W.out = {}; Tensor(3, tt, n, kShapes[sh] + 1, bytes); int64_t d[3], tag = lce_int("array type", 1, kTagCount - 1); if (tag == kTagCharPtr) lce_prune(); bool same = rank == n; for (int i = 0; i < rank; i++) { d[i] = lce_int("dimension", 0, 4); if (i < n) same = same & (d[i] == kShapes[sh][1 + i]); }
  // the array's memory: as many bytes as the largest array of the chosen rank
  size_t room = 8; for (int i = 0; i < rank; i++) room *= 4; PyObject* a = Array(tag, rank, d, room, strided); Watch((unsigned char*)W.t[3].data.raw, bytes);
  bool ok = same & (tag == type) & (bytes == natural); errWanted = !ok; errLabel = "an array of matching type, rank and shape is accepted"; invokedWanted = 0; Wrap* w = Make(); pybind11::list l; l.append(pybind11::handle(a)); Call(*w, l);
  lce_assert(ok, "an array of another type, rank, shape or size is rejected"); lce_assert(W.invoked == 1, "the model is run once"); bool eq = true; for (size_t i = 0; i < bytes; i++) eq &= (unsigned char)W.t[3].data.raw[i] == a->corder[i]; lce_assert(eq, "exactly the bytes of the array in C order are copied"); if (bytes) lce_observe(W.t[3].data.raw[0]); lce_cover("copied"); }
static void Many() {    // several inputs: count, order, all before the model runs
  int ni = (int)lce_choose("inputs", 0, 3), na = (int)lce_choose("arrays", 0, 4), bad = (int)lce_choose("bad array", -1, 2); lce_go(); if (bad >= ni) lce_prune(); static const int ids[3][3] = {{4}, {5, 1}, {2, 7, 0}}; W.in.clear(); W.out.clear(); for (int i = 0; i < ni; i++) W.in.push_back(ids[ni - 1][i]); static const int sh[3][3] = {{1, 2}, {2, 1, 3}, {1, 2}};
  pybind11::list l; PyObject* a[4]; for (int i = 0; i < 4; i++) { int k = i % 3, r = sh[k][0], type = k == 1 ? kTagInt8 : kTagFloat; size_t b = (size_t)lce_itemsize(type); int64_t d[2] = {}; for (int j = 0; j < r; j++) { b *= (size_t)sh[k][1 + j]; d[j] = sh[k][1 + j]; } if (i < ni) Tensor(W.in[i], TypeOf(type), r, sh[k] + 1, b); if (i == bad) d[0]++; a[i] = Array(type, r, d, b * 2, false); if (i < na) l.append(pybind11::handle(a[i])); }
  bool ok = na == ni && bad < 0; errWanted = !ok; errLabel = "matching inputs are accepted"; invokedWanted = 0; if (na != ni) for (int i = 0; i < ni; i++) Watch((unsigned char*)W.t[W.in[i]].data.raw, W.t[W.in[i]].bytes); else if (bad >= 0) Watch((unsigned char*)W.t[W.in[bad]].data.raw, W.t[W.in[bad]].bytes);
  Wrap* w = Make(); Call(*w, l); lce_assert(ok, "a wrong number of arrays or a wrong array is rejected"); lce_assert(W.invoked == 1, "the model is run once"); for (int i = 0; i < ni; i++) { TfLiteTensor& t = W.t[W.in[i]]; bool eq = true; for (size_t k = 0; k < t.bytes; k++) eq &= (unsigned char)t.data.raw[k] == a[i]->corder[k]; lce_assert(eq, "every array goes to its input"); } lce_observe(ni); lce_cover("several inputs"); }
static void Ragged() { int k = (int)lce_choose("object", 0, 2); lce_go(); static const int d[] = {2}; W.in = {0}; Tensor(0, 1, 1, d, 8); PyObject* o = lce_py(k == 0 ? kPyRagged : k == 1 ? kPyNone : kPyStr); Watch((unsigned char*)W.t[0].data.raw, 8); errWanted = true; invokedWanted = 0; Wrap* w = Make(); pybind11::list l; l.append(pybind11::handle(o)); Call(*w, l); lce_fail("an object that is not an array is rejected"); }
static const unsigned char* outBytes[3];
static void Outputs() { // outputs are arrays of the tensors' types, shapes and bytes, independent of later runs
  int no = (int)lce_choose("outputs", 0, 3), first = (int)lce_choose("first type", 0, 6), sh = (int)lce_choose("shape", 0, 5); lce_go(); static const int ids[3][3] = {{6}, {1, 0}, {3, 5, 2}}; W.in = {4}; W.out.clear(); static const int one[] = {1}; Tensor(4, 9, 1, one, 1); int tag[3]; for (int i = 0; i < no; i++) W.out.push_back(ids[no - 1][i]);
  for (int i = 0; i < no; i++) { tag[i] = kTags[(first + i * 2) % 7]; const int* s = kShapes[(sh + i) % 6]; size_t b = (size_t)lce_itemsize(tag[i]); for (int k = 0; k < s[0]; k++) b *= (size_t)s[1 + k]; Tensor(W.out[i], TypeOf(tag[i]), s[0], s + 1, b); outBytes[i] = lce_sym<unsigned char>(b, "result"); }
  W.on_invoke = [] { for (size_t i = 0; i < W.out.size(); i++) { TfLiteTensor& t = W.t[W.out[i]]; memcpy(t.data.raw, outBytes[i], t.bytes); } };
  errWanted = false; errLabel = "outputs can be read"; Wrap* w = Make(); int64_t d1[] = {1}; PyObject* a = Array(kTagInt8, 1, d1, 1, false); pybind11::list l; l.append(pybind11::handle(a)); pybind11::list r = Call(*w, l); lce_assert(r.size() == (size_t)no, "one array per output");
  for (int i = 0; i < no; i++) for (size_t k = 0; k < W.t[W.out[i]].bytes; k++) W.t[W.out[i]].data.raw[k] ^= 0x5a;
  for (int i = 0; i < no; i++) { PyObject* o = r[(size_t)i].p; const int* s = kShapes[(sh + i) % 6]; TfLiteTensor& t = W.t[W.out[i]]; lce_assert(o->kind == kPyArray && o->tag == tag[i], "outputs have the type of the tensor"); bool same = o->nd == s[0]; for (int k = 0; k < s[0] && same; k++) same &= o->dim[k] == s[1 + k]; lce_assert(same, "outputs have the shape of the tensor"); bool eq = true; for (size_t k = 0; k < t.bytes; k++) eq &= o->raw[k] == outBytes[i][k]; lce_assert(eq, "outputs are copies of the tensor's bytes"); if (t.bytes) lce_observe(o->raw[0]); }
  lce_cover("outputs"); }
static void Props() {   // types, shapes, scales and zero points of inputs and outputs
  int ch = (int)lce_choose("channels", 0, 3), which = (int)lce_choose("output", 0, 1), prop = (int)lce_choose("property", 0, 3), bad = prop == 2 || prop == 3 ? (int)lce_choose("inconsistent", 0, ch == 0 ? 0 : 2) : 0, ty = prop == 0 ? (int)lce_choose("type", 0, 18) : 1, sh = prop == 1 ? (int)lce_choose("shape", 0, 5) : 1, n = (int)lce_choose("tensors", 1, 2); lce_go(); if (ty == kTfLiteString) lce_prune();
  std::vector<int>& ids = which ? W.out : W.in; (which ? W.in : W.out) = {7}; static const int d1[] = {1}; Tensor(7, 9, 1, d1, 1); ids.clear(); if (n == 2) { ids.push_back(5); Tensor(5, 3, 0, d1, 1); } ids.push_back(2); const int* s = kShapes[sh]; size_t b = 8; for (int k = 0; k < s[0]; k++) b *= (size_t)s[1 + k]; int dims[3]; for (int k = 0; k < s[0]; k++) dims[k] = prop == 1 ? (int)lce_int("dimension", 0, 1 << 30) : s[1 + k]; Tensor(2, ty, s[0], dims, b, false);
  TfLiteTensor& t = W.t[2]; float sc[3]; int zp = (int)lce_int("zero point", -2147483647 - 1, 2147483647); bool fine = true; for (int i = 0; i < 3; i++) { sc[i] = lce_symf("scale"); lce_assume(sc[i] == sc[i]); }
  if (ch) { t.quantization.type = kTfLiteAffineQuantization; auto* q = (TfLiteAffineQuantization*)lce_alloc(sizeof(TfLiteAffineQuantization), 0, "quantization"); auto* f = (TfLiteFloatArray*)lce_alloc(4 + 4 * (size_t)ch, 0, "scales"); f->size = ch; for (int i = 0; i < ch; i++) f->data[i] = sc[i]; q->scale = f; q->zero_point = Ints(ch); for (int i = 0; i < ch; i++) q->zero_point->data[i] = zp; q->quantized_dimension = 0; t.quantization.params = q; t.params.scale = sc[0]; t.params.zero_point = zp;
    if (bad == 1) { if (prop == 2) { if (ch == 1) { t.params.scale = sc[1]; fine = sc[0] == sc[1]; } } else { int v = (int)lce_int("other zero point", -2147483647 - 1, 2147483647); q->zero_point->data[ch - 1] = v; fine = v == zp; } } if (bad == 2) { if (prop == 2) q->scale = nullptr; else q->zero_point = nullptr; fine = false; } }
  static const char* const names[] = {"input_types", "output_types", "input_shapes", "output_shapes", "input_scales", "output_scales", "input_zero_points", "output_zero_points"}; bool known = TypeOf(kTagFloat) == ty || ty == 2 || ty == 3 || ty == 4 || ty == 6 || ty == 7 || ty == 9; errWanted = prop == 0 ? !known : !fine; errLabel = "properties of valid tensors can be read";
  Wrap* w = Make(); pybind11::list r = Get(*w, names[prop * 2 + which]); lce_assert(prop == 0 ? known : fine, "tensors with an unknown type or inconsistent quantization raise an error"); lce_assert(r.size() == (size_t)n, "one entry per tensor"); PyObject* o = r[(size_t)n - 1].p;
  if (n == 2) { PyObject* z = r[0].p; lce_assert(prop == 0 ? z->kind == kPyDtype && z->tag == kTagUInt8 : prop == 1 ? z->kind == kPyTuple && z->l.empty() : z->kind == kPyNone, "entries are in the order of the tensors"); }
  if (prop == 0) lce_assert(o->kind == kPyDtype && TypeOf(o->tag) == ty, "the type of the tensor is reported");
  if (prop == 1) { lce_assert(o->kind == kPyTuple && (int)o->l.size() == s[0], "the shape is a tuple"); for (int k = 0; k < s[0]; k++) lce_assert((o->l[(size_t)k]->kind == kPyInt) & (o->l[(size_t)k]->i == dims[k]), "the shape of the tensor is reported"); }
  if (prop >= 2 && !ch) lce_assert(o->kind == kPyNone, "tensors without quantization have none");
  if (prop == 2 && ch == 1) lce_assert((o->kind == kPyFloat) && ((float)o->f == sc[0]), "the scale is reported");
  if (prop == 2 && ch > 1) { lce_assert(o->kind == kPyList && (int)o->l.size() == ch, "per-channel scales are a list"); for (int i = 0; i < ch; i++) lce_assert((float)o->l[(size_t)i]->f == sc[i], "per-channel scales are reported in order"); }
  if (prop == 3 && ch) { lce_assert((o->kind == kPyInt) & (o->i == zp), "the zero point is reported"); lce_observe(o->i); } lce_cover("properties"); }
static void Options() { // what the constructor hands to TensorFlow Lite
  int ref = (int)lce_choose("reference", 0, 1), ind = (int)lce_choose("indirect", 0, 1), xnn = (int)lce_choose("xnnpack", 0, 1), len = (int)lce_choose("model bytes", 0, 40); lce_go(); int th = (int)lce_int("threads", -1, 1000); unsigned char* b = lce_sym<unsigned char>((size_t)len, "model"); pybind11::bytes py((const char*)b, (size_t)len); errWanted = false; errLabel = "a valid model is accepted"; new Wrap(py, th, ref, ind, xnn); for (int i = 0; i < len; i++) (*py.p->s)[(size_t)i] = 0x11; delete py.p->s;
  lce_assert(W.size == (size_t)len, "the whole model is loaded"); bool same = true; for (int i = 0; i < len; i++) same &= (unsigned char)W.data[i] == b[i]; lce_assert(same, "the model is a copy that lives as long as the interpreter"); lce_assert(W.threads == th && W.built == 1, "the number of threads reaches the interpreter"); lce_assert(W.allocated == 1, "tensors are allocated once"); lce_assert(W.delegates == (bool)xnn, "XNNPACK is used on request only");
  static const char* const n[] = {"LceQuantize", "LceDequantize", "LceBconv2d", "LceBMaxPool2d"}; const TfLiteRegistration* want[] = {&kReg[0], &kReg[1], ref ? &kReg[3] : ind ? &kReg[4] : &kReg[2], &kReg[5]}; lce_assert(W.custom == 4, "all custom operators are registered before the model is built"); for (int i = 0; i < 4; i++) { const TfLiteRegistration* r = nullptr; for (int k = 0; k < W.custom; k++) if (!strcmp(W.e[k].name, n[i])) { r = W.e[k].r; lce_assert(W.e[k].version == 1, "operators have version 1"); } lce_assert(r == want[i], "the requested kernels are registered"); } lce_observe(th); lce_cover("options"); }
static void Fails() { int k = (int)lce_choose("failure", 0, 3); lce_go(); if (k == 0) W.model_ok = false; if (k == 1) W.build_ok = false; if (k == 2) W.alloc_ok = false; errWanted = true; static const int d[] = {1}; W.in = {0}; W.out = {}; Tensor(0, 9, 1, d, 1); if (k == 3) { W.invoke_ok = false; int64_t d1[] = {1}; PyObject* a = Array(kTagInt8, 1, d1, 1, false); pybind11::list l; l.append(pybind11::handle(a)); errWanted = false; errLabel = "a valid model is accepted"; Wrap* w = Make(); errWanted = true; Call(*w, l); } else Make(); lce_fail("a failure of TensorFlow Lite raises an error"); }
int harness_main() { lce_on_error() = OnError; switch (lce_choose("family", 0, kFamilies - 1)) { case kInput: Input(); break; case kMany: Many(); break; case kRagged: Ragged(); break; case kOutputs: Outputs(); break; case kProps: Props(); break; case kOptions: Options(); break; default: Fails(); } return 0; }
