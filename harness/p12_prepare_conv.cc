// P12: preparing a binary convolution node succeeds exactly for valid nodes and then gives the output its shape.
#include "conv_env.h"
#ifndef KERNEL
#define KERNEL 0
#endif
#include <cstdio>
static const TfLiteType kT[] = {kTfLiteInt32, kTfLiteFloat32, kTfLiteInt8, kTfLiteUInt8, kTfLiteBool, kTfLiteInt64};
enum { P_OK, P_NULL, P_TYPE, P_RANK, P_LEN, P_NUM };
static const int kSt[][2] = {{1, 1}, {2, 1}, {1, 3}}; static const int kDil[][2] = {{1, 1}, {2, 1}, {1, 3}};
int harness_main() {
  Env e; bool T = lce_tier(); int dev = 0;
  int out = (int)lce_choose("out", 0, 3); // float, int8, packed, unsupported
  int mode = (int)lce_choose("mode", 0, 3); // 0 ranks/types/options, 1 per-channel parameters, 2 channels and groups, 3 geometry
  int nin = 5, inrank = 4, flrank = 4, intype = 0, fltype = 0, quant = 1, dyn = 0, missing = -1, mulk = P_OK, biask = P_OK, thrk = P_OK, st = 0, dil = 0, same = 1, act = 0, fail = 0; bool init_ok = true; TfLiteType utype = kTfLiteUInt8;
  int64_t cin = 64, ci = 2, cf = 2, cout = 6, ih = 5, iw = 4, fh = 3, fw = 2, padv = 1, n = 2, lm = 6, lb = 6, lt = 6;
  if (mode == 0) { nin = (int)lce_choose("inputs", 4, 6); inrank = (int)lce_choose("input rank", 3, 5); flrank = (int)lce_choose("filter rank", 3, 5); intype = (int)lce_choose("input type", 0, 3); fltype = (int)lce_choose("filter type", 0, 3); missing = (int)lce_choose("missing option", -1, 7); dyn = (int)lce_choose("dynamic input", 0, 1); fail = (int)lce_choose("resize fails", 0, 1); if (out == O_INT8) quant = (int)lce_choose("quantized", 0, 1); if (out == 3) utype = kT[lce_choose("output type", 3, 5)];
    dev = (nin != 5) + (inrank != 4) + (flrank != 4) + (intype != 0) + (fltype != 0) + (missing >= 0) + dyn + fail + !quant; if (dev > (T ? 2 : 1)) lce_prune(); same = (int)lce_choose("same", 0, 1); }
  if (mode == 1) { mulk = (int)lce_choose("multiplier", 0, P_NUM - 1); biask = (int)lce_choose("bias", 0, P_NUM - 1); thrk = (int)lce_choose("thresholds", 0, P_NUM - 1); }
  if (mode == 3) { st = (int)lce_choose("strides", 0, 2); dil = (int)lce_choose("dilations", 0, 2); same = (int)lce_choose("same", 0, 1); act = (int)lce_choose("act", 0, 3); }
  lce_go();
  if (mode == 1) { cout = lce_int("channels out", 1, 12); lm = mulk == P_LEN ? lce_int("multiplier length", 0, 12) : cout; lb = biask == P_LEN ? lce_int("bias length", 0, 12) : cout; lt = thrk == P_LEN ? lce_int("thresholds length", 0, 12) : cout; }
  if (mode == 2) { cin = lce_int("channels in", 1, T ? 200 : 130); ci = (cin + 31) / 32; cf = lce_int("filter words", 0, 5); cout = lce_int("channels out", 1, 8); lm = lb = lt = cout; if (lce_choose("input words", 0, 1)) ci = lce_int("ci", 0, 5); }
  if (mode == 3) { n = lce_int("n", 1, 3); ih = lce_int("ih", 1, 9); iw = lce_int("iw", 1, 9); fh = lce_int("fh", 1, 4); fw = lce_int("fw", 1, 4); padv = lce_int("pad value", -1, 2); cin = lce_int("channels in", 33, 64); }
  int sh = kSt[st][0], sw = kSt[st][1], dh = kDil[dil][0], dw = kDil[dil][1];
  Dims di = {(int)n, (int)ih, (int)iw, (int)ci}, df = {(int)cout, (int)fh, (int)fw, (int)cf}; if (inrank == 3) di.pop_back(); if (inrank == 5) di.push_back(1); if (flrank == 3) df.pop_back(); if (flrank == 5) df.push_back(1);
  int ti = e.Tensor(kT[intype], di, dyn ? kTfLiteDynamic : kTfLiteArenaRw), tf = e.Tensor(kT[fltype], df, kTfLiteMmapRo);
  auto par = [&](int k, TfLiteType ty, int64_t len) { if (k == P_NULL) return -1; Dims d = {(int)len}; if (k == P_RANK) d = {1, (int)len}; return e.Tensor(k == P_TYPE ? (ty == kTfLiteFloat32 ? kTfLiteInt32 : kTfLiteFloat32) : ty, d, kTfLiteMmapRo); };
  int tm = par(mulk, kTfLiteFloat32, lm), tb = par(biask, kTfLiteFloat32, lb), tt = par(thrk, kTfLiteInt32, lt);
  TfLiteType oty = out == O_FLOAT ? kTfLiteFloat32 : out == O_INT8 ? kTfLiteInt8 : out == O_BIT ? kTfLiteInt32 : utype; int to = e.Tensor(oty, {1, 1, 1, 1}); if (out == O_INT8 && quant) e.Quant(to, 0.5f, 3);
  Dims ins = {ti, tf, tm, tb, tt}; if (nin == 4) ins.pop_back(); if (nin == 6) ins.push_back(ti); e.Io(ins, {to});
  static const char* K[] = {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor", "padding", "pad_values", "channels_in", "fused_activation_function"}; int64_t vals[] = {sh, sw, dh, dw, same ? 0 : 1, padv, cin, act};
  flexbuffers::Builder b; b.Map([&]() { for (int i = 0; i < 8; i++) if (i != missing) b.Int(K[i], vals[i]); }); b.Finish(); std::vector<uint8_t> opts = b.GetBuffer();
  e.fail_resize = fail; e.Init(ConvRun::Reg(KERNEL), opts.data(), opts.size()); bool ok = e.Prepare() == kTfLiteOk;
  // ---- the contract
  int64_t efh = (fh - 1) * dh + 1, efw = (fw - 1) * dw + 1, oh = same ? (ih + sh - 1) / sh : ih >= efh ? (ih - efh) / sh + 1 : (ih - efh + sh) / sh, ow = same ? (iw + sw - 1) / sw : iw >= efw ? (iw - efw) / sw + 1 : (iw - efw + sw) / sw;
  int64_t wi = (cin + 31) / 32; bool acc = (nin == 5) & (inrank == 4) & (flrank == 4) & (intype == 0) & (fltype == 0) & (missing < 0) & (fail == 0) & (out != 3);
  acc &= (padv == 0) | (padv == 1); acc &= !(out == O_INT8 && !quant); acc &= !(KERNEL == K_IND && dyn);
  if (out == O_BIT) acc &= (thrk == P_OK) | ((thrk == P_LEN) & (lt == cout)); else acc &= ((mulk == P_OK) | ((mulk == P_LEN) & (lm == cout))) & ((biask == P_OK) | ((biask == P_LEN) & (lb == cout)));
  bool grp = false; for (int64_t g = 1; g <= 7; g++) grp |= (g == 1 ? cf == wi : KERNEL != K_BGEMM) & (cin == g * 32 * cf || g == 1) & (wi == g * cf) & (cf > 0) & (cout % g == 0);
  acc &= grp & (ci == wi); if (same) acc &= (padv != 0) | (KERNEL == K_REF ? cin % 2 == 0 : (out == O_FLOAT) & (act == 0)); else acc &= (oh >= 0) & (ow >= 0);
  lce_assert(ok == acc, "prepare succeeds exactly for valid nodes"); lce_observe(ok);
  if (ok) { const TfLiteTensor& o = e.t[to]; lce_assert(o.dims->size == 4, "output rank"); lce_assert((o.dims->data[0] == n) & (o.dims->data[1] == oh) & (o.dims->data[2] == ow), "output batch, height and width"); lce_assert(o.dims->data[3] == (out == O_BIT ? (cout + 31) / 32 : cout), "output channels"); lce_cover("accepted"); lce_cover(mode == 0 ? "accepted: types" : mode == 1 ? "accepted: parameters" : mode == 2 ? "accepted: channels" : "accepted: geometry"); } else lce_cover("rejected");
  e.Free(); return 0; }
