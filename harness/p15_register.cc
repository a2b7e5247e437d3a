// P15: registration exposes exactly the four operators, each behaving as itself, with the requested binary convolution kernel.
#include "conv_env.h"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "larq_compute_engine/tflite/java/lce_ops_jni.cc"
// Which kernel a convolution registration is, told from what it accepts: grouped convolutions (not BGEMM) and zero padding with an activation (only the reference kernel).
static bool Accepts(const TfLiteRegistration* reg, int cin, int wf, int cout, int padv, int act, bool dyn) {
  Env* e = new Env; int ti = e->Tensor(kTfLiteInt32, {1, 4, 4, cdiv(cin, 32)}, dyn ? kTfLiteDynamic : kTfLiteArenaRw), tf = e->Tensor(kTfLiteInt32, {cout, 3, 3, wf}, kTfLiteMmapRo), tm = e->Tensor(kTfLiteFloat32, {cout}, kTfLiteMmapRo), tb = e->Tensor(kTfLiteFloat32, {cout}, kTfLiteMmapRo), to = e->Tensor(kTfLiteFloat32, {1, 1, 1, 1}); e->Io({ti, tf, tm, tb, -1}, {to});
  flexbuffers::Builder b; b.Map([&]() { b.Int("stride_height", 1); b.Int("stride_width", 1); b.Int("dilation_height_factor", 1); b.Int("dilation_width_factor", 1); b.Int("padding", 0); b.Int("pad_values", padv); b.Int("channels_in", cin); b.Int("fused_activation_function", act); }); b.Finish(); std::vector<uint8_t> o = b.GetBuffer();
  if (!reg->init || !reg->prepare || !reg->invoke || !reg->free) { lce_fail("convolution registration is complete"); return false; } e->Init(reg, o.data(), o.size()); bool ok = e->Prepare() == kTfLiteOk; e->Free(); return ok; }
static int Kind(const TfLiteRegistration* r) { lce_assert(Accepts(r, 32, 1, 2, 1, 0, false), "convolution accepts a plain node"); bool grouped = Accepts(r, 64, 1, 2, 1, 0, false), zact = Accepts(r, 32, 1, 2, 0, 1, false), dyn = Accepts(r, 32, 1, 2, 1, 0, true); lce_observe(grouped * 4 + zact * 2 + dyn); return zact ? K_REF : grouped && !dyn ? K_IND : !grouped ? K_BGEMM : -1; }
static const TfLiteRegistration* Find(const tflite::MutableOpResolver& r, const char* n) { const TfLiteRegistration* f = nullptr; int k = 0; for (int i = 0; i < r.n; i++) if (!std::strcmp(r.entries[i].name, n)) { f = r.entries[i].r; k++; } lce_assert(k == 1, "operator registered exactly once"); return f; }
static void CheckAll(const tflite::MutableOpResolver& r, int want) {
  lce_assert(r.n == 4, "exactly four operators are registered");
  const TfLiteRegistration *q = Find(r, "LceQuantize"), *d = Find(r, "LceDequantize"), *c = Find(r, "LceBconv2d"), *p = Find(r, "LceBMaxPool2d"); if (!q || !d || !c || !p) return;
  { Env* e = new Env; float* x = lce_sym<float>(40, "x", 16); int ti = e->Tensor(kTfLiteFloat32, {1, 40}, kTfLiteCustom, x), to = e->Tensor(kTfLiteInt32, {1, 1}); e->Io({ti}, {to}); e->Init(q); lce_assert(e->Prepare() == kTfLiteOk, "LceQuantize prepares"); e->Allocate(); lce_assert(e->Invoke() == kTfLiteOk && e->DimsEq(to, {1, 2}), "LceQuantize packs"); for (int i = 0; i < 40; i++) lce_assert(((e->data<uint32_t>(to)[i / 32] >> (i % 32)) & 1) == (x[i] < 0.0f), "LceQuantize is the quantize operator"); }
  { Env* e = new Env; uint32_t* x = lce_sym<uint32_t>(2, "b", 16); int ti = e->Tensor(kTfLiteInt32, {1, 2}, kTfLiteCustom, x), to = e->Tensor(kTfLiteFloat32, {1, 40}); e->Io({ti}, {to}); e->Init(d); lce_assert(e->Prepare() == kTfLiteOk, "LceDequantize prepares"); e->Allocate(); lce_assert(e->Invoke() == kTfLiteOk, "LceDequantize runs"); for (int i = 0; i < 40; i++) { float v = e->data<float>(to)[i]; lce_assert(v == (((x[i / 32] >> (i % 32)) & 1) ? -1.0f : 1.0f), "LceDequantize is the dequantize operator"); } }
  { Env* e = new Env; uint32_t* x = lce_sym<uint32_t>(4, "m", 16); int ti = e->Tensor(kTfLiteInt32, {1, 2, 2, 1}, kTfLiteCustom, x), to = e->Tensor(kTfLiteInt32, {1, 1, 1, 1}); e->Io({ti}, {to}); flexbuffers::Builder b; b.Map([&]() { b.Int("filter_height", 2); b.Int("filter_width", 2); b.Int("stride_height", 2); b.Int("stride_width", 2); b.Int("padding", 1); }); b.Finish(); std::vector<uint8_t> o = b.GetBuffer(); e->Init(p, o.data(), o.size()); lce_assert(e->Prepare() == kTfLiteOk && e->DimsEq(to, {1, 1, 1, 1}), "LceBMaxPool2d prepares"); e->Allocate(); lce_assert(e->Invoke() == kTfLiteOk, "LceBMaxPool2d runs"); lce_assert(e->data<uint32_t>(to)[0] == (x[0] & x[1] & x[2] & x[3]), "LceBMaxPool2d is the max pool operator"); }
  lce_assert(Kind(c) == want, "the requested binary convolution kernel is registered"); lce_cover(want == K_REF ? "reference" : want == K_IND ? "indirect" : "default optimised"); }
int harness_main() {
#ifdef TFLITE_WITH_RUY
  const int def = K_BGEMM;
#else
  const int def = K_REF;
#endif
  int how = (int)lce_choose("registration", 0, 2); lce_go();
  if (how == 0) { auto r = tflite::CreateOpResolver(); CheckAll(*static_cast<tflite::ops::builtin::BuiltinOpResolver*>(r.get()), def); lce_cover("java resolver"); }
  else if (how == 1) { tflite::MutableOpResolver r; compute_engine::tflite::RegisterLCECustomOps(&r); CheckAll(r, def); }
  else { tflite::MutableOpResolver r; bool a = lce_int("use_reference_bconv", 0, 1), b = lce_int("use_indirect_bgemm", 0, 1); compute_engine::tflite::RegisterLCECustomOps(&r, a, b); CheckAll(r, a ? K_REF : b ? K_IND : def); }
  return 0; }
