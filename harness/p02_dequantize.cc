// P02: LceDequantize through its TfLiteRegistration: bit 0 -> +1 (float 1.0, int8 saturated zp+round(1/scale), true),
// bit 1 -> -1 (-1.0, saturated zp-round(1/scale), false); padding bits ignored.
#include "tfl_env.h"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
int harness_main() {
  Env e; int ty = lce_choose("type", 0, 2); TfLiteType tt = ty == 0 ? kTfLiteFloat32 : ty == 1 ? kTfLiteInt8 : kTfLiteBool;
  static const int key[] = {1, 2, 31, 32, 33, 63, 64, 65, 96, 100, 511, 1030};
  int all = lce_tier() ? 330 : 132, ci = lce_choose("cols_i", 0, 11 + all), cols = ci < 12 ? key[ci] : ci - 11;
  int rk = ci < 12 ? (int)lce_choose("rank_rows", 0, 5) : 1; if (ci < 12 && (cols > 200 ? rk != 0 : rk == 5 && cols > 40)) lce_prune(); Dims d; if (rk == 0) d = {cols}; else if (rk == 1) d = {2, cols}; else if (rk == 2) d = {1, 3, 1, cols}; else if (rk == 3) d = {2, 1, 2, cols}; else if (rk == 4) d = {0, cols}; else d = {3, 1, 3, cols};
  int rows = 1; for (size_t i = 0; i + 1 < d.size(); i++) rows *= d[i]; int words = cdiv(cols, 32); Dims pd = d; pd.back() = words;
  static const float scales[] = {1.0f, 0.5f, 0.1f, 2.0f, 3.0f, 0.0078125f, 0.0037f, 0.4f, 0.6666667f, 100.0f, 1e-10f, 4.656613e-10f, 1e30f, 1e-39f, 4e-8f}; int si = 0; if (ty == 1) si = lce_choose("scale_i", 0, ci >= 12 ? 0 : lce_tier() ? 14 : 7), si = lce_tier() ? si : si < 5 ? si : si + 5;
  lce_go();
  int zp = 0; if (ty == 1) zp = (int)lce_int("zp", -128, 127);
  uint32_t* in = lce_sym<uint32_t>((size_t)rows * words, "input"); lce_protect(in);
  int ti = e.Tensor(kTfLiteInt32, pd, kTfLiteCustom, in), to = e.Tensor(tt, d); if (ty == 1) e.Quant(to, scales[si], zp);
  e.Io({ti}, {to}); e.Init(compute_engine::tflite::Register_DEQUANTIZE());
  lce_assert(e.Prepare() == kTfLiteOk, "prepare accepts"); lce_assert(e.DimsEq(to, d), "output shape unchanged");
  e.Allocate(); lce_assert(e.Invoke() == kTfLiteOk, "invoke ok");
  double q = 1.0 / (double)scales[si]; int off = q > 1000 ? 1000 : (int)(q + 0.5); 
  int pos = zp + off, neg = zp - off; pos = pos > 127 ? 127 : pos; neg = neg < -128 ? -128 : neg;
  for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) { size_t i = (size_t)r * cols + c; bool one = (in[r * words + c / 32] >> (c % 32)) & 1;
    if (ty == 0) { float v = e.data<float>(to)[i]; lce_observe(lce_bits(v)); lce_assert(lce_bits(v) == lce_bits(one ? -1.0f : 1.0f), "float +1/-1"); }
    else if (ty == 1) { int v = e.data<int8_t>(to)[i]; lce_observe(v); lce_assert(v == (one ? neg : pos), "int8 saturated zp+-round(1/scale)"); }
    else { uint8_t v = e.data<uint8_t>(to)[i]; lce_observe(v); lce_assert(v == (one ? 0 : 1), "bool"); } }
  lce_cover("dequantized"); if (cols % 32) lce_cover("partial word"); return 0; }
