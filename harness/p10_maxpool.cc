// P10: every output bit of the real binary max pool equals the sign of the maximum over the in-image +1/-1 values of its window.
#include "tfl_env.h"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
static const int kSz[] = {1, 2, 3, 4, 5, 7}; static const int kW[] = {1, 2, 3, 4}; static const int kS[] = {1, 2, 3, 4};
static void Dim(const char* const* nm, bool T, bool same, int idx, int& in, int& f, int& s) {
  in = kSz[lce_choose(nm[0], 0, T ? 5 : 4)]; f = kW[lce_choose(nm[1], 0, T ? 3 : 2)]; s = kS[lce_choose(nm[2], 0, T ? 3 : 2)]; if (!same && f > in) lce_prune(); }
int harness_main() {
  bool T = lce_tier(); int same = (int)lce_choose("same", 0, 1), ih, iw, fh, fw, sh, sw; static const char* H[] = {"ih", "fh", "sh"}; static const char* W[] = {"iw", "fw", "sw"};
  static const int kWide[][8] = {{9, 8, 5, 4, 1, 1, 1, 1}, {8, 9, 3, 2, 5, 4, 1, 2}, {1, 11, 1, 6, 1, 2, 1, 1}, {12, 1, 7, 1, 3, 1, 2, 1}, {2, 3, 2, 2, 1, 1, 3, 1}, {1, 2, 1, 2, 1, 1, 1, 7}, {16, 16, 2, 2, 2, 2, 1, 1}, {6, 6, 6, 6, 1, 1, 1, 1}, {3, 3, 5, 7, 1, 1, 1, 2}, {1, 1, 1, 1, 1, 1, 5, 9}, {10, 7, 1, 1, 6, 5, 1, 1}, {17, 4, 3, 3, 2, 1, 1, 1}}; int ch = 0, n = 0;
  int wide = (int)lce_choose("wide", 0, (long)(sizeof kWide / sizeof *kWide)); if (wide) { auto* w = kWide[wide - 1]; ih = w[0]; iw = w[1]; fh = w[2]; fw = w[3]; sh = w[4]; sw = w[5]; n = w[6]; ch = w[7]; if (!same && (fh > ih || fw > iw)) lce_prune(); }
  else { Dim(H, T, same, 0, ih, fh, sh); Dim(W, T, same, 1, iw, fw, sw); }
  unsigned hh = ((((ih * 7u + iw) * 5u + fh) * 3u + fw) * 11u + sh) * 13u + sw; hh = (hh * 2654435761u) >> 15;
  if (!wide) { ch = 1 + (int)(hh % 3); n = 1 + (int)(hh / 3 % 2); if (!T && (hh / 6) % 4 != 0) lce_prune(); if (T && (hh / 6) % 3 != 0) lce_prune(); }
  if (!wide && ih * iw * ch * n > 120) ch = n = 1;
  lce_go();
  int oh = same ? cdiv(ih, sh) : (ih - fh) / sh + 1, ow = same ? cdiv(iw, sw) : (iw - fw) / sw + 1;
  int ph = same ? (oh - 1) * sh + fh - ih : 0, pw = same ? (ow - 1) * sw + fw - iw : 0; int pt = ph > 0 ? ph / 2 : 0, pl = pw > 0 ? pw / 2 : 0;
  Env e; uint32_t* in = lce_sym<uint32_t>((size_t)n * ih * iw * ch, "input"); int ti = e.Tensor(kTfLiteInt32, {n, ih, iw, ch}, kTfLiteCustom, in), to = e.Tensor(kTfLiteInt32, {1, 1, 1, 1}); lce_protect(in); e.Io({ti}, {to});
  flexbuffers::Builder b; b.Map([&]() { b.Int("filter_height", fh); b.Int("filter_width", fw); b.Int("stride_height", sh); b.Int("stride_width", sw); b.Int("padding", same ? 0 : 1); }); b.Finish(); std::vector<uint8_t> o = b.GetBuffer();
  e.Init(compute_engine::tflite::Register_BMAXPOOL_2D(), o.data(), o.size());
  lce_assert(e.Prepare() == kTfLiteOk, "prepare accepts"); lce_assert(e.DimsEq(to, {n, oh, ow, ch}), "output shape"); e.Allocate(); lce_assert(e.Invoke() == kTfLiteOk, "invoke ok");
  uint32_t* out = e.data<uint32_t>(to); bool edge = false;
  for (int bb = 0; bb < n; bb++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int c = 0; c < ch; c++) {
    uint32_t all = ~0u; // bit set: every in-image value seen so far is -1
    for (int fy = 0; fy < fh; fy++) for (int fx = 0; fx < fw; fx++) { int iy = y * sh + fy - pt, ix = x * sw + fx - pl; if (iy < 0 || iy >= ih || ix < 0 || ix >= iw) { edge = true; continue; } all &= in[((bb * ih + iy) * iw + ix) * ch + c]; }
    uint32_t v = out[((bb * oh + y) * ow + x) * ch + c]; lce_observe(v); lce_assert(v == all, "output = sign of the window maximum"); }
  if (edge) lce_cover("window overlaps the border"); if (same && fh > ih) lce_cover("window larger than the image"); lce_cover("pooled"); e.Free(); return 0; }
