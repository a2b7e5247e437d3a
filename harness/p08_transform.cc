// P08: with symbolic multipliers, biases and zero points (dyadic, so that every formula is exact) the output is clamp(d)*mul+bias, rescaled and rounded for int8.
// data 0: fixed input/filter patterns covering the accumulator range, parameters symbolic.  data 1: all inputs symbolic as well (few bits for int8).
#include "conv_env.h"
#ifndef KERNEL
#define KERNEL 0
#endif
int harness_main() {
  ConvRun r; Conv c; c.kernel = KERNEL; bool T = lce_tier(); r.symparams = true;
  static const int kCin[] = {1, 2, 9, 32, 33, 64, 20}; static const int kCout[] = {1, 2, 5, 9, 8, 3, 4}; static const float kScale[] = {0.5f, 2.0f, 0.25f, 1.0f};
  c.out = (int)lce_choose("out", 0, 1); c.act = (int)lce_choose("act", 0, 3); int k = (int)lce_choose("channels", 0, T ? 6 : 4); if (!T && KERNEL && k % 2 == 0 && k) lce_prune(); c.cin = kCin[k]; c.cout = kCout[k];
  int g = (int)lce_choose("geo", 0, T ? 3 : 2); if (g == 1) { c.fh = 2; c.ih = 3; c.cin = c.cin > 32 ? 33 : c.cin > 16 ? 16 : c.cin; } else if (g == 2) { c.iw = 3; } else if (g == 3) { c.fh = c.fw = c.ih = c.iw = 2; c.cin = c.cin > 9 ? 12 : c.cin; }
  if (KERNEL != K_BGEMM && lce_choose("grouped", 0, 1)) { if (g || k) lce_prune(); c.cin = 64; c.groups = 2; c.cout = 4; }
  int data = (int)lce_choose("data", 0, 1); if (data && c.out == O_INT8 && c.cin * c.fh * c.fw > (T ? 8 : KERNEL ? 0 : 1)) lce_prune(); r.concrete = !data;
  if (!data) r.salt = (int)lce_choose("pattern", 0, T ? 5 : KERNEL ? 1 : 2);
  if (c.out == O_INT8) r.scale = kScale[lce_choose("scale", 0, T ? 3 : 1)];
  lce_go(); if (c.out == O_INT8) r.zp = (int)lce_int("zero_point", -128, 127);
  r.Build(c); lce_assert(r.e.Prepare() == kTfLiteOk, "prepare accepts"); r.e.Allocate(); lce_assert(r.e.Invoke() == kTfLiteOk, "invoke ok");
  for (int y = 0; y < c.oh(); y++) for (int x = 0; x < c.ow(); x++) for (int o = 0; o < c.cout; o++) { int d = ConvRun::Dot(c, r.in, r.fl, 0, y, x, o); int px = (y * c.ow() + x) * c.cout + o; int m = (int)(r.mul[o] * 8.0f), b = (int)(r.bias[o] * 16.0f);
      int v16 = 2 * m * ConvRun::Clamp(c.act, d) + b; // 16 * (clamp(d)*mul + bias), exact
      if (c.out == O_FLOAT) { float f = r.e.data<float>(r.to)[px]; lce_observe(lce_bits(f)); lce_assert(f == (float)v16 * 0.0625f, "float output = clamp(d)*mul+bias"); }
      else { int8_t q = r.e.data<int8_t>(r.to)[px]; lce_observe(q); int sh = r.scale == 2.0f ? 5 : r.scale == 1.0f ? 4 : r.scale == 0.5f ? 3 : 2; int h = 1 << (sh - 1); int z = v16 + r.zp * (1 << sh);
        int up = (z + h) >> sh, dn = (z + h - 1) >> sh; // ties may go either way
        up = up < 127 ? up : 127; up = up > -128 ? up : -128; dn = dn < 127 ? dn : 127; dn = dn > -128 ? dn : -128;
        lce_assert((q == up) | (q == dn), "int8 output = saturated rounding"); } }
  r.e.Free(); lce_cover("evaluated"); if (c.act) lce_cover("clamped"); return 0; }
