// P01: LceQuantize through its TfLiteRegistration: bit c%32 of word c/32 is 1 iff the value is negative
// (float: x < 0, int8: q < zero_point, bool: false); padding bits of the last word are 0; nothing else written.
#include "tfl_env.h"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
int harness_main() {
  Env e; int ty = lce_choose("type", 0, 2); TfLiteType tt = ty == 0 ? kTfLiteFloat32 : ty == 1 ? kTfLiteInt8 : kTfLiteBool;
  static const int key[] = {1, 2, 7, 30, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 511, 1030};
  int all = lce_tier() ? 330 : 132, ci = lce_choose("cols_i", 0, 16 + all), cols = ci < 17 ? key[ci] : ci - 16;
  int rk = ci < 17 ? (int)lce_choose("rank_rows", 0, 5) : 1; if (ci < 17 && (cols > 200 ? rk != 0 : rk == 5 && cols > 40)) lce_prune(); Dims d; if (rk == 0) d = {cols}; else if (rk == 1) d = {2, cols}; else if (rk == 2) d = {1, 3, 1, cols}; else if (rk == 3) d = {2, 1, 2, cols}; else if (rk == 4) d = {0, cols}; else d = {3, 1, 3, cols};
  int rows = 1; for (size_t i = 0; i + 1 < d.size(); i++) rows *= d[i];
  int reg = ty == 1 ? (int)lce_choose("zp_regime", 0, 2) : 1;
  lce_go();
  int zp = 0; if (ty == 1) zp = reg == 0 ? (int)lce_int("zp", -2147483647 - 1, -128) : reg == 1 ? (int)lce_int("zp", -127, 127) : (int)lce_int("zp", 128, 2147483647);
  Dims od = d; od.back() = 7; size_t es = type_size(tt);
  void* in = lce_alloc((size_t)rows * cols * es, 0, "input"); lce_sym_array(in, es, (size_t)rows * cols, "input");
  if (ty == 2) { uint8_t* b = (uint8_t*)in; for (int i = 0; i < rows * cols; i++) b[i] &= 1; }
  lce_protect(in);
  int ti = e.Tensor(tt, d, kTfLiteCustom, in), to = e.Tensor(kTfLiteInt32, od); if (ty == 1) e.Quant(ti, 0.5f, zp);
  e.Io({ti}, {to}); e.Init(compute_engine::tflite::Register_QUANTIZE());
  lce_assert(e.Prepare() == kTfLiteOk, "prepare accepts");
  int words = cdiv(cols, 32); Dims want = d; want.back() = words; lce_assert(e.DimsEq(to, want), "output shape");
  e.Allocate(); lce_assert(e.Invoke() == kTfLiteOk, "invoke ok");
  const uint32_t* o = e.data<uint32_t>(to);
  for (int r = 0; r < rows; r++) for (int w = 0; w < words; w++) { uint32_t exp = 0;
    for (int b = 0; b < 32; b++) { int c = w * 32 + b; if (c >= cols) continue; size_t i = (size_t)r * cols + c; uint32_t bit;
      if (ty == 0) bit = ((const float*)in)[i] < 0.0f; else if (ty == 1) bit = (int)((const int8_t*)in)[i] < zp; else bit = ((const uint8_t*)in)[i] == 0;
      exp |= bit << b; }
    lce_observe(o[r * words + w]); lce_assert(o[r * words + w] == exp, "packed word = signs, padding bits zero"); }
  lce_cover("quantized"); if (cols % 32) lce_cover("partial word"); return 0; }
