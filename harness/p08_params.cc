// P08: one multiplier or bias is any float of magnitude up to 1e20 (the other parameters and the operands come from tables); output = clamp(d)*multiplier+bias, for int8 divided by the scale, shifted, rounded and saturated.
#include "conv_env.h"
#ifndef KERNEL
#define KERNEL 0
#endif
static const int kG[][3] = {{1, 1, 1}, {1, 1, 40000}, {1, 1, 32}, {2, 2, 9}, {3, 3, 64}, {3, 3, 256}, {1, 2, 33}};
static const float kM[] = {1.0f, -0.1f, 3.0f, 0.0123f, -57.3f, 1e-3f, 0.0f}; static const float kB[] = {0.0f, -7.3f, 0.1f, 100.0f, 1e6f, -0.5f, 3.0000002f};
static const float kS[] = {0.5f, 0.1f, 1.0f, 0.0039215689f, 3.7e-3f, 1e-8f, 40.0f}; static const int kZ[] = {0, -128, 127, 3};
int harness_main() {
  ConvRun r; Conv c; c.kernel = KERNEL; bool T = lce_tier(); c.out = (int)lce_choose("out", 0, 1); c.act = (int)lce_choose("act", 0, 3); int g = (int)lce_choose("shape", 0, T ? 6 : 4), which = (int)lce_choose("arbitrary bias", 0, 1), k = (int)lce_choose("constant", 0, T ? 6 : 3);
  if (c.out == O_INT8) { int s = (int)lce_choose("scale", 0, T ? 6 : 5); r.scale = kS[s]; r.zp = kZ[(s + k) % 4]; } r.concrete = true; r.salt = (int)lce_choose("pattern", 0, (T ? 3 : 1) + (g == 1)); if (r.salt == 1) r.salt = 3; else if (r.salt == (T ? 4 : 2)) r.salt = 4;
  c.fh = c.ih = kG[g][0]; c.fw = c.iw = kG[g][1]; c.cin = kG[g][2]; c.cout = 3; if (g == 0) c.iw = 3;
  lce_go(); float v = lce_symf("value"); lce_assume((v == v) & (v <= 1e20f) & (v >= -1e20f));
  float m[3] = {-0.75f, which == 1 ? kM[k] : v, 2.5f}, b[3] = {11.0f, which ? v : kB[k], -4.5f}; r.gm = m; r.gb = b;
  r.Build(c); lce_assert(r.e.Prepare() == kTfLiteOk, "prepare accepts"); r.e.Allocate(); lce_assert(r.e.Invoke() == kTfLiteOk, "invoke ok");
  double a = (double)c.fh * c.fw * c.cin, av = v < 0 ? -(double)v : (double)v;
  for (int y = 0; y < c.oh(); y++) for (int x = 0; x < c.ow(); x++) for (int o = 0; o < c.cout; o++) { int d = ConvRun::Clamp(c.act, ConvRun::Dot(c, r.in, r.fl, 0, y, x, o)), px = (y * c.ow() + x) * c.cout + o; bool s = o == 1;
      // exact up to double rounding; the kernel's own rounding is a small multiple of the magnitudes involved
      double am = s && which != 1 ? av : m[o] < 0 ? -(double)m[o] : (double)m[o], ab = s && which ? av : b[o] < 0 ? -(double)b[o] : (double)b[o], e = (double)d * (double)m[o] + (double)b[o], mag = 3.0 * a * am + ab;
      if (c.out == O_FLOAT) { float f = r.e.data<float>(r.to)[px]; lce_observe(lce_bits(f)); double tol = mag * 4.76837158203125e-07 + 1e-36; lce_assert(((double)f >= e - tol) & ((double)f <= e + tol), "float output = clamp(d)*multiplier+bias"); }
      else { double q = (double)r.e.data<int8_t>(r.to)[px], inv = 1.0 / (double)r.scale; lce_observe((int)q); e = e * inv + (double)r.zp; double tol = (mag * inv + 512.0) * 4.76837158203125e-07;
        lce_assert((q >= e - 0.5 - tol) | (q == 127.0), "int8 output: rounded and saturated"); lce_assert((q <= e + 0.5 + tol) | (q == -128.0), "int8 output: rounded and saturated"); } }
  r.e.Free(); lce_cover(c.out ? "int8" : "float"); return 0; }
