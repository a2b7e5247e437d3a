// P04/P05/P06/P07: every output of the real convolution operator equals the mathematical +1/-1 convolution followed by the output transform.
#include "conv_env.h"
#ifndef KERNEL
#define KERNEL 0
#endif
#ifndef ZEROPAD
#define ZEROPAD 0
#endif
struct Geo { int ih, iw, fh, fw, sh, sw, dh, dw; };
static const Geo kGeo[] = {{1,1,1,1,1,1,1,1},{3,3,3,3,1,1,1,1},{4,3,3,3,1,1,1,1},{2,2,3,3,1,1,1,1},{3,4,2,2,1,1,1,1},{4,4,3,3,2,2,1,1},{5,5,3,3,2,2,1,1},{5,4,3,2,2,1,1,1},{4,5,1,3,1,2,1,1},{5,3,3,1,3,1,1,1},
  {5,5,3,3,1,1,2,2},{5,4,2,3,1,1,2,1},{4,5,3,2,1,1,1,2},{4,4,2,2,2,2,2,1},{3,3,1,1,2,2,1,1},{4,4,1,1,1,2,1,1},{3,2,1,1,1,1,1,1},{2,5,2,2,1,3,1,2},{1,4,3,3,1,1,1,1},{6,1,3,1,2,1,2,1},{3,3,2,3,2,1,1,1},{6,6,3,3,2,3,1,1},{2,3,2,3,1,1,1,1},{7,3,4,2,2,1,1,1},{3,6,3,3,1,2,1,1},{4,3,3,1,1,1,1,1},{3,4,1,3,1,1,1,1},{3,4,1,1,2,1,1,1}};
struct Ch { int cin, groups, cout; };
static const Ch kChG[] = {{32,1,2},{3,1,3},{40,1,1}};
static const Ch kChS[] = {{1,1,1},{2,1,2},{31,1,3},{33,1,4},{64,1,5},{65,1,3},{96,1,2},{128,1,8},{4,1,9},{32,1,13},{8,1,32},{2,1,33},{32,1,40},{6,1,64},{2,1,65},{160,1,2}};
static const Ch kChGr[] = {{64,2,2},{64,2,4},{64,2,6},{128,2,4},{96,3,3},{128,4,8},{96,3,9},{64,2,34},{96,3,12},{192,2,2},{64,2,64},{128,2,10},{96,3,15}};
static const Geo kGeoS[] = {{2,2,1,1,1,1,1,1},{3,3,3,3,1,1,1,1},{3,2,2,2,2,1,1,1},{5,1,1,1,1,1,1,1},{4,4,3,3,2,2,1,1}};
// larger images, filters, strides, dilations and batches with few channels; and more channels than one small tile
struct Wide { Geo g; int n; Ch h; };
static const Wide kWide[] = {{{8,7,5,5,1,1,1,1},1,{2,1,1}},{{1,12,1,7,1,1,1,1},1,{2,1,2}},{{9,9,3,3,4,4,3,3},1,{2,1,1}},{{9,8,3,2,1,1,3,4},1,{2,1,1}},{{12,2,5,2,2,1,2,1},1,{2,1,1}},{{7,7,7,7,1,1,1,1},1,{2,1,1}},{{13,11,1,1,5,4,1,1},2,{2,1,2}},{{2,3,2,2,1,1,1,1},3,{34,1,2}},{{1,1,1,1,1,1,1,1},5,{2,1,3}},{{3,2,1,1,1,1,2,3},1,{66,1,2}},{{1,3,1,2,1,1,1,1},1,{320,1,2}},{{2,1,1,1,1,1,1,1},1,{1056,1,1}},{{1,2,1,1,1,1,1,1},1,{2,1,100}},{{1,1,1,1,1,1,1,1},1,{4,1,160}},{{2,9,2,5,1,3,1,2},1,{2,1,1}},{{17,3,3,3,1,1,1,1},1,{2,1,1}},{{3,18,2,4,2,1,1,1},1,{2,1,1}},
  {{1,2,1,1,1,1,1,1},1,{160,5,5}},{{2,2,2,2,1,1,1,1},2,{256,8,8}},{{1,1,1,1,1,1,1,1},3,{64,2,6}},{{6,7,3,5,1,1,1,1},1,{64,2,2}},{{1,1,1,1,1,1,1,1},1,{64,2,96}}};
int harness_main() {
  ConvRun r; Conv c; c.kernel = KERNEL; int fam = (int)lce_choose("family", 0, 4); Geo g; Ch h; bool T = lce_tier();
#if ZEROPAD
  c.pad = PAD_ZERO;
#else
  c.pad = (int)lce_choose("pad", 0, 1);
#endif
  c.out = ZEROPAD && KERNEL != K_REF ? O_FLOAT : (int)lce_choose("out", 0, 2);
  if (fam == 0) { if (T) { g.ih = lce_choose("ih", 1, 6); g.iw = lce_choose("iw", 1, 6); g.fh = lce_choose("fh", 1, 4); g.fw = lce_choose("fw", 1, 3); g.sh = lce_choose("sh", 1, 3); g.sw = lce_choose("sw", 1, 3); g.dh = lce_choose("dh", 1, 2); g.dw = lce_choose("dw", 1, 2); if ((g.fh == 1 && g.dh > 1) || (g.fw == 1 && g.dw > 1)) lce_prune(); unsigned hh = ((((((g.ih * 7u + g.iw) * 5u + g.fh) * 3u + g.fw) * 11u + g.sh) * 13u + g.sw) * 3u + g.dh) * 5u + g.dw; if ((hh * 2654435761u >> 16) % 6 != 0) lce_prune(); }
    else g = kGeo[lce_choose("geo", 0, (long)(sizeof kGeo / sizeof *kGeo) - 1)]; h = kChG[T ? 0 : lce_choose("ch", 0, c.out == O_INT8 ? 0 : 1)]; if (T && c.out == O_INT8) lce_prune(); if (g.ih != g.iw && g.ih * g.iw <= (T ? 20 : 12)) c.n = 2; }
  else if (fam == 1) { g = kGeoS[lce_choose("geo", 0, T ? 4 : 2)]; h = kChS[lce_choose("ch", 0, (long)(sizeof kChS / sizeof *kChS) - 1)]; c.n = g.ih == 2 ? 2 : 1; }
  else if (fam == 2) { if (KERNEL == K_BGEMM) lce_prune(); g = kGeoS[lce_choose("geo", 0, T ? 4 : 2)]; h = kChGr[lce_choose("ch", 0, T ? 12 : 9)]; }
  else if (fam == 4) { const Wide& w = kWide[lce_choose("wide", 0, (long)(sizeof kWide / sizeof *kWide) - 1)]; g = w.g; h = w.h; c.n = w.n; if (h.groups > 1 && KERNEL == K_BGEMM) lce_prune(); if (ZEROPAD && KERNEL != K_REF && ((g.fh - 1) * g.dh + 1 > g.ih || (g.fw - 1) * g.dw + 1 > g.iw)) lce_prune(); if (!T && c.out == O_INT8 && h.cout <= 8) lce_prune(); }
  else { if (c.out == O_BIT || (ZEROPAD && KERNEL != K_REF)) lce_prune(); g = kGeoS[lce_choose("geo", 0, T ? 4 : 1)]; h = kChG[lce_choose("ch", 0, 1)]; c.act = (int)lce_choose("act", 1, 3); }
  c.ih = g.ih; c.iw = g.iw; c.fh = g.fh; c.fw = g.fw; c.sh = g.sh; c.sw = g.sw; c.dh = g.dh; c.dw = g.dw; c.cin = h.cin; c.cout = h.cout; c.groups = h.groups;
  if (c.pad == PAD_VALID && (c.ih < c.efh() || c.iw < c.efw())) lce_prune();
  if (c.pad == PAD_ZERO && KERNEL == K_REF && c.cin % 2) lce_prune();
  bool big = c.pad == PAD_ZERO && KERNEL != K_REF && (c.efh() > c.ih || c.efw() > c.iw);
  bool refbit = c.pad == PAD_ZERO && KERNEL == K_REF && c.out == O_BIT;
  lce_go();
  r.Build(c); lce_assert(r.e.Prepare() == kTfLiteOk, "prepare accepts"); lce_assert(r.ShapeOk(), "output shape"); r.e.Allocate();
  if (refbit) lce_cover("reference zero padding, bitpacked output");
  lce_assert(r.e.Invoke() == kTfLiteOk, "invoke ok");
  r.CheckOutput("output = mathematical convolution"); if (big) lce_cover("effective filter larger than the image");
  r.e.Free(); lce_cover("evaluated"); return 0; }
