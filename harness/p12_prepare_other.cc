// P12: preparing a quantize, dequantize or max pool node succeeds exactly for valid nodes and then gives the output its shape.
#include "tfl_env.h"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
static const TfLiteType kT[] = {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool, kTfLiteInt32, kTfLiteUInt8, kTfLiteInt16, kTfLiteInt64};
static const int kSt[] = {0, 1, 2, 3};
int harness_main() {
  Env e; bool T = lce_tier(); int op = (int)lce_choose("op", 0, 2), in_t = op == 0 ? 0 : 3, out_t = op == 1 ? 0 : 3, nin = 1, nout = 1, ri = 4, ro = 4, fail = 0, sh = 1, sw = 1, same = 1, last = -1; static const int kIn[] = {0, 2}, kOut[] = {0, 2};
  if (op == 0) in_t = (int)lce_choose("kind", 0, 2); if (op == 1) out_t = (int)lce_choose("kind", 0, 2); if (op != 2) ri = ro = (int)lce_choose("rank", 1, T ? 5 : 3);
  for (int k = 0; k < (T ? 2 : 1); k++) { int d = (int)lce_choose(k ? "second deviation" : "deviation", last < 0 ? 0 : last, 6); if (k && d == last && d) lce_prune(); last = d;
    if (d == 1) in_t = (int)lce_choose("input type", 0, 6); if (d == 2) out_t = (int)lce_choose("output type", 0, 6); if (d == 3) nin = kIn[lce_choose("inputs", 0, 1)]; if (d == 4) nout = kOut[lce_choose("outputs", 0, 1)]; if (d == 5) fail = 1; if (d == 6) { ri = (int)lce_choose("input rank", 0, 5); ro = (int)lce_choose("output rank", 0, 5); } }
  if (op == 2) { sh = (int)lce_choose("sh", 0, 2); sw = (int)lce_choose("sw", 0, 2); same = (int)lce_choose("same", 0, 1); }
  lce_go();
  auto dims = [&](int r, const char* nm, int64_t hi) { Dims d; for (int i = 0; i < r; i++) d.push_back((int)lce_int(nm, 0, hi)); return d; };
  Dims di = dims(ri, "in", 70), dO = dims(ro, "out", 70); if (op == 2) for (int i = 1; i < 3 && i < ri; i++) di[i] = (int)lce_int("size", 1, 9);
  if (nin < 1 || nout < 1) { di.assign(ri, 2); dO.assign(ro, 2); }
  int ti = e.Tensor(kT[in_t], di), to = e.Tensor(kT[out_t], dO); Dims in(nin, ti), outs(nout, to); e.Io(in, outs);
  int64_t fh = 1, fw = 1; std::vector<uint8_t> o; const TfLiteRegistration* reg;
  if (op == 2) { fh = lce_int("fh", 0, 4); fw = lce_int("fw", 0, 4); flexbuffers::Builder b; b.Map([&]() { b.Int("filter_height", fh); b.Int("filter_width", fw); b.Int("stride_height", sh); b.Int("stride_width", sw); b.Int("padding", same ? 0 : 1); }); b.Finish(); o = b.GetBuffer(); reg = compute_engine::tflite::Register_BMAXPOOL_2D(); }
  else reg = op == 0 ? compute_engine::tflite::Register_QUANTIZE() : compute_engine::tflite::Register_DEQUANTIZE();
  e.fail_resize = fail; e.Init(reg, o.data(), o.size()); bool ok = e.Prepare() == kTfLiteOk; lce_observe(ok);
  bool acc = (nin == 1) & (nout == 1); int64_t oh = 0, ow = 0;
  if (op == 0) { acc &= (in_t <= 2) & (out_t == 3) & (ri >= 1) & (ri == ro) & !fail; }
  else if (op == 1) { acc &= (out_t <= 2) & (in_t == 3) & (ri >= 1) & (ri == ro); if (ri >= 1 && ri == ro) { for (int i = 0; i + 1 < ri; i++) acc &= di[i] == dO[i]; acc &= di[ri - 1] == (dO[ri - 1] + 31) / 32; } }
  else { acc &= (in_t == 3) & (out_t == 3) & (ri == 4) & !fail & (sh != 0) & (sw != 0) & (fh != 0) & (fw != 0); if (ri == 4 && sh && sw) { oh = same ? (di[1] + sh - 1) / sh : (di[1] - fh + sh) / sh; ow = same ? (di[2] + sw - 1) / sw : (di[2] - fw + sw) / sw; acc &= (oh >= 0) & (ow >= 0); } }
  lce_assert(ok == acc, "prepare succeeds exactly for valid nodes");
  if (ok) { const TfLiteTensor& t = e.t[to]; lce_assert(t.dims->size == ri, "output rank"); for (int i = 0; i < ri; i++) { int64_t w = op == 0 ? (i == ri - 1 ? (di[i] + 31) / 32 : di[i]) : op == 1 ? dO[i] : i == 1 ? oh : i == 2 ? ow : di[i]; lce_assert(t.dims->data[i] == w, "output dimensions"); } lce_cover(op == 0 ? "accepted: quantize" : op == 1 ? "accepted: dequantize" : "accepted: max pool"); } else lce_cover("rejected");
  e.Free(); return 0; }
