// Shared by the binary convolution harnesses: builds a node, runs the real kernel, and computes the mathematical +1/-1 convolution.
#ifndef LCE_CONV_ENV_H_
#define LCE_CONV_ENV_H_
#include "tfl_env.h"
#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
enum { K_REF = 0, K_BGEMM = 1, K_IND = 2 };
enum { O_FLOAT = 0, O_INT8 = 1, O_BIT = 2 };
enum { PAD_VALID = 0, PAD_ONE = 1, PAD_ZERO = 2 };
struct Conv {
  int kernel = 0, n = 1, ih = 1, iw = 1, cin = 32, cout = 1, groups = 1, fh = 1, fw = 1, sh = 1, sw = 1, dh = 1, dw = 1, pad = PAD_VALID, act = 0, out = O_FLOAT;
  int efh() const { return (fh - 1) * dh + 1; } int efw() const { return (fw - 1) * dw + 1; }
  int oh() const { return pad == PAD_VALID ? (ih - efh() >= 0 ? (ih - efh()) / sh + 1 : 0) : cdiv(ih, sh); }
  int ow() const { return pad == PAD_VALID ? (iw - efw() >= 0 ? (iw - efw()) / sw + 1 : 0) : cdiv(iw, sw); }
  int pt() const { if (pad == PAD_VALID) return 0; int t = (oh() - 1) * sh + efh() - ih; return t > 0 ? t / 2 : 0; }
  int pl() const { if (pad == PAD_VALID) return 0; int t = (ow() - 1) * sw + efw() - iw; return t > 0 ? t / 2 : 0; }
  int cg() const { return cin / groups; } int wi() const { return cdiv(cin, 32); } int wf() const { return cdiv(cg(), 32); }
};
static const float kMul[] = {0.5f, -0.5f, 1.0f, -2.0f, 0.25f, -0.25f, 2.0f, 1.5f, -1.0f, 0.75f, -1.25f}; static const float kBias[] = {0.125f, -3.625f, 7.125f, 0.0625f, -0.375f, 12.125f, 0.0f, -20.125f, 1.0625f};
static inline float conv_mul(int c) { return kMul[c % 11] ; }
static inline float conv_bias(int c) { return kBias[(c * 2) % 9]; }
struct ConvRun {
  Env e; Conv c; int ti, tf, tm, tb, tt, to; uint32_t *in, *fl; int32_t* thr = nullptr; float *mul, *bias; float scale = 0.5f; int zp = 3; bool symparams = false, concrete = false, skip_both_edges = false; int salt = 0; std::vector<uint8_t> opts; const std::vector<uint8_t>* given = nullptr; const float *gm = nullptr, *gb = nullptr; const TfLiteRegistration* reg;
  static const TfLiteRegistration* Reg(int k) { return k == K_REF ? compute_engine::tflite::Register_BCONV_2D_REF() : k == K_BGEMM ? compute_engine::tflite::Register_BCONV_2D_OPT_BGEMM() : compute_engine::tflite::Register_BCONV_2D_OPT_INDIRECT_BGEMM(); }
  int mrange() const { return c.out == O_INT8 && !concrete ? 7 : concrete ? 1000 : 20; }
  static uint32_t LastMask(int ch) { int r = ch % 32; return r ? (1u << r) - 1 : 0xffffffffu; }
  uint32_t* Packed(int pixels, int ch, const char* name) { int w = cdiv(ch, 32); if (concrete) { uint32_t* p = lce_new<uint32_t>((size_t)pixels * w, name, 16); bool f = name[0] == 'f'; for (int i = 0; i < pixels * w; i++) { uint32_t h = (uint32_t)(i + 1) * 2654435761u ^ (uint32_t)salt * 0x9e3779b9u; h ^= h >> 13; h *= 0x85ebca6bu; h ^= h >> 16; p[i] = (salt == 4 ? (f ? ~0u : 0u) : salt == 0 ? (f ? h : 0u) : salt == 1 ? (f ? (i & 1 ? h : ~0u) : ~0u) : salt == 2 ? (f && (i & 1) ? 0xfffffffeu & h : 0u) : f ? h : h * 0x9e3779b1u) & (i % w == w - 1 ? LastMask(ch) : ~0u); } return p; }
    uint32_t* p = lce_sym<uint32_t>((size_t)pixels * w, name, 16); if (ch % 32) for (int i = 0; i < pixels; i++) p[i * w + w - 1] &= LastMask(ch); return p; }
  void Options() { if (given) { opts = *given; return; } flexbuffers::Builder b; b.Map([&]() { b.Int("stride_height", c.sh); b.Int("stride_width", c.sw); b.Int("dilation_height_factor", c.dh); b.Int("dilation_width_factor", c.dw); b.Int("padding", c.pad == PAD_VALID ? 1 : 0); b.Int("pad_values", c.pad == PAD_ONE ? 1 : 0); b.Int("channels_in", c.cin); b.Int("fused_activation_function", c.act); }); b.Finish(); opts = b.GetBuffer(); }
  void Build(const Conv& cc, bool symdata = true) { c = cc; reg = Reg(c.kernel);
    in = Packed(c.n * c.ih * c.iw, c.cin, "input"); fl = Packed(c.cout * c.fh * c.fw, c.cg(), "filter");
    ti = e.Tensor(kTfLiteInt32, {c.n, c.ih, c.iw, c.wi()}, kTfLiteCustom, in); tf = e.Tensor(kTfLiteInt32, {c.cout, c.fh, c.fw, c.wf()}, kTfLiteMmapRo, fl);
    tm = tb = tt = -1;
    if (c.out != O_BIT) { mul = lce_new<float>(c.cout, "multiplier", 16); bias = lce_new<float>(c.cout, "bias", 16); for (int i = 0; i < c.cout; i++) { mul[i] = conv_mul(i); bias[i] = conv_bias(i); if (symparams) { mul[i] = (float)(int)lce_int("m", -mrange(), mrange()) * 0.125f; bias[i] = (float)(int)lce_int("b", -8 * mrange(), 8 * mrange()) * 0.0625f; } else if (c.out == O_INT8) { mul[i] = c.cin * c.fh * c.fw > 40 ? mul[i] * 0.25f : mul[i]; bias[i] += 0.03125f; } if (gm) { mul[i] = gm[i]; bias[i] = gb[i]; } } tm = e.Tensor(kTfLiteFloat32, {c.cout}, kTfLiteMmapRo, mul); tb = e.Tensor(kTfLiteFloat32, {c.cout}, kTfLiteMmapRo, bias); lce_protect(mul); lce_protect(bias); }
    else { thr = lce_sym<int32_t>(c.cout, "thresholds", 16); tt = e.Tensor(kTfLiteInt32, {c.cout}, kTfLiteMmapRo, thr); lce_protect(thr); }
    to = e.Tensor(c.out == O_FLOAT ? kTfLiteFloat32 : c.out == O_INT8 ? kTfLiteInt8 : kTfLiteInt32, {1, 1, 1, 1}); if (c.out == O_INT8) e.Quant(to, scale, zp);
    lce_protect(in); lce_protect(fl); e.Io({ti, tf, tm, tb, tt}, {to}); Options(); uint8_t* ob = (uint8_t*)lce_alloc(opts.size(), 0, "options"); std::memcpy(ob, opts.data(), opts.size()); lce_protect(ob); e.Init(reg, ob, opts.size()); }
  // dot product of the +1/-1 window with the +1/-1 filter
  static int Dot(const Conv& c, const uint32_t* in, const uint32_t* fl, int b, int y, int x, int o, int* mis = nullptr) {
    int g = o / (c.cout / c.groups); int acc = 0, n = 0;
    for (int fy = 0; fy < c.fh; fy++) for (int fx = 0; fx < c.fw; fx++) { int iy = y * c.sh + fy * c.dh - c.pt(), ix = x * c.sw + fx * c.dw - c.pl(); bool inside = iy >= 0 && iy < c.ih && ix >= 0 && ix < c.iw;
      if (!inside && c.pad == PAD_ZERO) continue; n += c.cg();
      for (int w = 0; w < c.wf(); w++) { uint32_t iv = inside ? in[((b * c.ih + iy) * c.iw + ix) * c.wi() + g * c.wf() + w] : 0u; acc += __builtin_popcount(iv ^ fl[((o * c.fh + fy) * c.fw + fx) * c.wf() + w]); } }
    if (mis) *mis = acc + (c.fh * c.fw * c.cg() - n) / 2; // zero-padded positions count one half each: dot = positions - 2 * mismatches
    return n - 2 * acc; }
  static int Clamp(int act, int d) { int lo = act == 1 || act == 3 ? 0 : act == 2 ? -1 : INT32_MIN, hi = act == 2 ? 1 : act == 3 ? 6 : INT32_MAX; d = d < hi ? d : hi; return d > lo ? d : lo; }
  static float Want(const Conv& c, int d, float mul, float bias) { return (float)Clamp(c.act, d) * mul + bias; }
  static int8_t WantQ(const Conv& c, int d, float mul, float bias, float scale, int zp) { float v = (float)Clamp(c.act, d) * (mul / scale) + (bias / scale + (float)zp); int r = (int)std::round(v); r = r > 127 ? 127 : r; return (int8_t)(r < -128 ? -128 : r); }
  bool ShapeOk() { return e.DimsEq(to, {c.n, c.oh(), c.ow(), c.out == O_BIT ? cdiv(c.cout, 32) : c.cout}); }
  // the padding-correction cache only distinguishes windows that overhang one of two opposite edges
  bool BothEdges(int y, int x) const { int t = c.pt() - y * c.sh, l = c.pl() - x * c.sw, b = -t - c.ih + c.efh(), r = -l - c.iw + c.efw(); return (t > 0 && b >= 0) || (b > 0 && t >= 0) || (l > 0 && r >= 0) || (r > 0 && l >= 0); }
  void CheckOutput(const char* lab0) {
    for (int b = 0; b < c.n; b++) for (int y = 0; y < c.oh(); y++) for (int x = 0; x < c.ow(); x++) { int px = (b * c.oh() + y) * c.ow() + x; uint32_t word = 0; bool both = c.pad == PAD_ZERO && c.kernel != K_REF && BothEdges(y, x); if (both && skip_both_edges) continue; const char* lab = both ? "output = mathematical convolution (zero padding, window reaches two opposite image edges)" : lab0;
      for (int o = 0; o < c.cout; o++) { int mis = 0; int d = Dot(c, in, fl, b, y, x, o, &mis);
        if (c.out == O_FLOAT) { float v = e.data<float>(to)[px * c.cout + o]; lce_observe(lce_bits(v)); lce_assert(v == Want(c, d, mul[o], bias[o]), lab); }
        else if (c.out == O_INT8) { int8_t v = e.data<int8_t>(to)[px * c.cout + o]; lce_observe(v); lce_assert(v == WantQ(c, d, mul[o], bias[o], scale, zp), lab); }
        else { word |= (uint32_t)(mis > thr[o]) << (o % 32); if (o % 32 == 31 || o == c.cout - 1) { uint32_t v = e.data<uint32_t>(to)[px * cdiv(c.cout, 32) + o / 32]; lce_observe(v); lce_assert(v == word, lab); word = 0; } } } } }
};
#endif
