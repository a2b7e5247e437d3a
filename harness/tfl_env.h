// A minimal TFLite interpreter for one node: tensors, resizing, allocation of arena tensors after Prepare.
#ifndef LCE_TFL_ENV_H_
#define LCE_TFL_ENV_H_
#include "lce.h"
#include "tflite_stub.h"
#include "flexbuffers_stub.h"
#include <vector>
typedef std::vector<int> Dims;
static const int kMaxTensors = 16;
inline size_t type_size(TfLiteType t) { return t == kTfLiteFloat32 || t == kTfLiteInt32 ? 4 : t == kTfLiteInt8 || t == kTfLiteUInt8 || t == kTfLiteBool ? 1 : t == kTfLiteInt16 || t == kTfLiteFloat16 ? 2 : 8; }
struct Env {
  TfLiteContext ctx; TfLiteTensor t[kMaxTensors]; int n = 0; TfLiteNode node; const TfLiteRegistration* reg = nullptr; tflite::CpuBackendContext backend; int resizes = 0; bool fail_resize = false;
  Env() { std::memset(&ctx, 0, sizeof ctx); std::memset(t, 0, sizeof t); std::memset(&node, 0, sizeof node); ctx.tensors = t; ctx.impl_ = &backend; ctx.ResizeTensor = Resize; ctx.ReportError = Report; ctx.AddTensors = Add; ctx.recommended_num_threads = 1; }
  static TfLiteIntArray* MkArr(const Dims& d) { TfLiteIntArray* a = TfLiteIntArrayCreate((int)d.size()); for (size_t i = 0; i < d.size(); i++) a->data[i] = d[i]; return a; }
  static void Report(TfLiteContext*, const char*, ...) {}
  static int64_t Bytes(TfLiteType ty, const TfLiteIntArray* d) { int64_t b = (int64_t)type_size(ty); for (int i = 0; i < d->size; i++) b *= d->data[i]; return b; }
  static TfLiteStatus Resize(TfLiteContext* c, TfLiteTensor* x, TfLiteIntArray* nd) { Env* e = (Env*)c; e->resizes++; for (int i = 0; i < nd->size; i++) if (nd->data[i] < 0) { TfLiteIntArrayFree(nd); return kTfLiteError; }
    if (e->fail_resize || x->allocation_type == kTfLiteMmapRo) { TfLiteIntArrayFree(nd); return kTfLiteError; }
    if (x->dims) TfLiteIntArrayFree(x->dims); x->dims = nd; x->bytes = (size_t)Bytes(x->type, nd); return kTfLiteOk; }
  static TfLiteStatus Add(TfLiteContext* c, int k, int* first) { Env* e = (Env*)c; TFLITE_CHECK(e->n + k <= kMaxTensors); *first = e->n; for (int i = 0; i < k; i++) { TfLiteTensor& x = e->t[e->n++]; std::memset(&x, 0, sizeof x); x.allocation_type = kTfLiteArenaRw; } c->tensors_size = e->n; return kTfLiteOk; }
  int Tensor(TfLiteType ty, const Dims& d, TfLiteAllocationType at = kTfLiteArenaRw, void* data = nullptr) { int i = n++; TfLiteTensor& x = t[i]; x.type = ty; x.dims = MkArr(d); x.allocation_type = at; x.bytes = (size_t)Bytes(ty, x.dims); x.data.data = data; ctx.tensors_size = n; return i; }
  void Quant(int i, float scale, int zp) { t[i].params.scale = scale; t[i].params.zero_point = zp; TfLiteAffineQuantization* q = (TfLiteAffineQuantization*)std::malloc(sizeof *q); q->scale = (TfLiteFloatArray*)std::malloc(sizeof(TfLiteFloatArray) + 4); q->scale->size = 1; q->scale->data[0] = scale; q->zero_point = MkArr({zp}); q->quantized_dimension = 0; t[i].quantization.type = kTfLiteAffineQuantization; t[i].quantization.params = q; }
  void Io(const Dims& in, const Dims& out) { node.inputs = MkArr(in); node.outputs = MkArr(out); node.temporaries = MkArr({}); node.intermediates = MkArr({}); }
  void Init(const TfLiteRegistration* r, const uint8_t* buf = nullptr, size_t len = 0) { reg = r; node.custom_initial_data = buf; node.custom_initial_data_size = (int)len; node.user_data = r->init ? r->init(&ctx, (const char*)buf, len) : nullptr; }
  TfLiteStatus Prepare() { return reg->prepare ? reg->prepare(&ctx, &node) : kTfLiteOk; }
  // (Re)allocates every arena tensor to its exact size, uninitialised; like a fresh arena the old block is gone.
  void Allocate() { for (int i = 0; i < n; i++) if (t[i].allocation_type == kTfLiteArenaRw && t[i].dims) { if (t[i].data.data) std::free(t[i].data.data); t[i].data.data = lce_alloc(t[i].bytes, 0, "arena tensor"); } }
#ifdef LCE_MEMORY_ONLY
  TfLiteStatus Invoke() { TfLiteStatus s = reg->invoke(&ctx, &node); lce_assert_real(s == kTfLiteOk, "accepted node runs"); for (int i = 0; i < node.outputs->size; i++) { TfLiteTensor& x = t[node.outputs->data[i]]; lce_assert_real(!lce_is_uninit(x.data.data, x.bytes), "every output byte is written, and never from uninitialised memory"); } return s; }
#else
  TfLiteStatus Invoke() { return reg->invoke(&ctx, &node); }
#endif
  void Free() { if (reg->free && node.user_data) reg->free(&ctx, node.user_data); node.user_data = nullptr; }
  template <class T> T* data(int i) { return (T*)t[i].data.data; }
  void SetDims(int i, const Dims& d) { if (t[i].dims) TfLiteIntArrayFree(t[i].dims); t[i].dims = MkArr(d); t[i].bytes = (size_t)Bytes(t[i].type, t[i].dims); }
  bool DimsEq(int i, const Dims& d) { if (t[i].dims->size != (int)d.size()) return false; for (size_t k = 0; k < d.size(); k++) if (t[i].dims->data[k] != d[k]) return false; return true; }
};
inline int cdiv(int a, int b) { return (a + b - 1) / b; }
#endif
