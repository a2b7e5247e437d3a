// Evaluation of functions of the MLIR stand-in: the documented meaning of the TensorFlow, TensorFlow Lite and Larq operations the rewrites deal in.
#ifndef LCE_MLIR_EVAL_H_
#define LCE_MLIR_EVAL_H_
#include <functional>
#include "mlir_env.h"
extern "C" void lce_unsupported(void);  // not decided: the engine reports the path as inconclusive
namespace mlir {
enum TensorKind { kF32, kI32, kBool, kQ8, kNone };
struct Tensor { Shape s; int k = kNone; std::vector<float> f; std::vector<int32_t> i; double scale = 0; int64_t zp = 0;
  size_t n() const { size_t r = 1; for (auto d : s) r *= (size_t)d; return r; }
  static Tensor of(Type t) { Tensor r; if (!t.isa<ShapedType>()) return r; auto st = t.cast<ShapedType>(); for (auto d : st.getShape()) r.s.push_back(d); Type e = st.getElementType(); if (e.isF32()) { r.k = kF32; r.f.resize(r.n()); } else { r.k = e.isa<quant::QuantizedType>() ? kQ8 : e.isInteger(1) ? kBool : kI32; r.i.resize(r.n()); if (r.k == kQ8) { r.scale = e.impl->scale; r.zp = e.impl->zp; } } return r; } };
inline int cdivE(int64_t a, int64_t b) { return (int)((a + b - 1) / b); }
inline float actE(StringRef a, float x) { if (a == "NONE") return x; float lo = 0, hi = 0; bool ub = true; if (a == "RELU") ub = false; else if (a == "RELU6") hi = 6; else if (a == "RELU_N1_TO_1") { lo = -1; hi = 1; } else lce_unsupported(); x = x < lo ? lo : x; if (ub) x = x > hi ? hi : x; return x; }
inline float roundE(float x) { return std::round(x); }
inline int32_t quantE(float y, double scale, int64_t zp) { float q = roundE((float)(y / (float)scale)) + (float)zp; q = q < -128 ? -128 : q; q = q > 127 ? 127 : q; return (int32_t)(int8_t)q; }
inline float deq(const Tensor& t, size_t i) { return (float)(t.scale * (double)(t.i[i] - (int32_t)t.zp)); }
struct PadE { int before, out; PadE(StringRef p, int in, int f, int st, int d) { int eff = (f - 1) * d + 1; if (p == "SAME") { out = cdivE(in, st); int t = (out - 1) * st + eff - in; before = t > 0 ? t / 2 : 0; } else { out = in < eff ? 0 : (in - eff) / st + 1; before = 0; } } };
struct Eval {
  std::function<Tensor(Operation*, Tensor)> custom;
  std::vector<std::pair<ValueImpl*, Tensor>> env;
  const Tensor& get(Value v) { for (auto& e : env) if (e.first == v.getImpl()) return e.second; lce_fail("an operand is used before it is defined"); abort(); }
  void set(Value v, Tensor t) { env.push_back({v.getImpl(), std::move(t)}); }
  static Tensor fromAttr(Attribute a) { auto d = a.dyn_cast<DenseElementsAttr>(); if (!d) { lce_unsupported(); return {}; } Tensor t = Tensor::of(Type(d.impl->type)); unsigned w = Type(d.impl->type).cast<ShapedType>().getElementType().impl->width; for (size_t i = 0; i < t.n(); i++) { if (t.k == kF32) memcpy(&t.f[i], d.impl->data + 4 * i, 4); else if (t.k == kI32 && w == 64) { int64_t v; memcpy(&v, d.impl->data + 8 * i, 8); t.i[i] = (int32_t)v; } else if (t.k == kI32) memcpy(&t.i[i], d.impl->data + 4 * i, 4); else t.i[i] = (int8_t)d.impl->data[i]; } return t; }
  static DenseElementsAttr toAttr(const Tensor& t, Type ty) { auto* s = DenseElementsAttr::mk(ty.cast<ShapedType>()); unsigned w = ty.cast<ShapedType>().getElementType().impl->width; for (size_t i = 0; i < t.n(); i++) { if (t.k == kF32) memcpy(s->data + 4 * i, &t.f[i], 4); else if (t.k == kI32 && w == 64) { int64_t v = t.i[i]; memcpy(s->data + 8 * i, &v, 8); } else if (t.k == kI32) memcpy(s->data + 4 * i, &t.i[i], 4); else s->data[i] = (unsigned char)t.i[i]; } return DenseElementsAttr(s); }
  static size_t at(const Shape& from, const Shape& to, size_t flat) { size_t r = 0, stride = 1, n = to.size(); for (size_t q = 0; q < n; q++) { size_t d = n - 1 - q, c = flat % (size_t)to[d]; flat /= (size_t)to[d]; if (q < from.size()) { size_t fd = from.size() - 1 - q; if (from[fd] != 1) r += c * stride; stride *= (size_t)from[fd]; } } return r; }
  static bool bit(const Tensor& p, size_t pixel, int c, int words) { return (p.i[pixel * words + c / 32] >> (c % 32)) & 1; }
  template <class F> static Tensor binary(const Tensor& a, const Tensor& b, Tensor r, F f) { auto bc = lce_bcast(ArrayRef<int64_t>(a.s.data(), a.s.size()), ArrayRef<int64_t>(b.s.data(), b.s.size())); if (Shape(bc.begin(), bc.end()) != r.s) { lce_fail("the result type of an elementwise operation is not the broadcast of its operand types"); abort(); } for (size_t i = 0; i < r.n(); i++) f(r, i, a.f[at(a.s, r.s, i)], b.f[at(b.s, r.s, i)]); return r; }
  Tensor arith(Operation* o, Tensor r) { const Tensor &a = get(o->getOperand(0)), &b = get(o->getOperand(1)); StringRef n(o->name); n = n.substr(n.find('.') + 1); StringRef act = o->hasAttr("fused_activation_function") ? str(o, "fused_activation_function") : StringRef("NONE"); int k = n == "add" || n == "AddV2" || n == "Add" ? 0 : n == "sub" || n == "Sub" ? 1 : n == "mul" || n == "Mul" ? 2 : 3;
    if (a.k != kF32 || b.k != kF32) lce_unsupported();
    return binary(a, b, r, [&](Tensor& t, size_t i, float x, float y) { t.f[i] = actE(act, k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y + 0.0f : x / y + 0.0f); }); }
  // binary convolution: the value of clamp(dot) * multiplier + bias, or its sign through the threshold
  Tensor bconv(Operation* o, Tensor r) {
    const Tensor &x = get(o->getOperand(0)), &w = get(o->getOperand(1)), &m = get(o->getOperand(2)), &b = get(o->getOperand(3)), &t = get(o->getOperand(4)); int C = (int)num(o, "channels_in"), sh = (int)num(o, "stride_height"), sw = (int)num(o, "stride_width"), dh = (int)num(o, "dilation_height_factor"), dw = (int)num(o, "dilation_width_factor"), pv = (int)num(o, "pad_values"); StringRef act = str(o, "fused_activation_function"), pad = str(o, "padding");
    int O = (int)w.s[0], fh = (int)w.s[1], fw = (int)w.s[2], words = cdivE(C, 32); int I = w.k == kF32 ? (int)w.s[3] : w.s[3] == words ? C : (int)w.s[3] * 32, wwords = w.k == kF32 ? 0 : (int)w.s[3];
    lce_assert(x.s[3] == words && C % I == 0 && O % (C / I) == 0 && (C == I || I % 32 == 0), "a binary convolution has consistent channel counts"); PadE ph(pad, (int)x.s[1], fh, sh, dh), pw(pad, (int)x.s[2], fw, sw, dw);
    lce_assert(r.s[0] == x.s[0] && r.s[1] == ph.out && r.s[2] == pw.out && r.s[3] == (t.k == kNone ? O : cdivE(O, 32)) && (t.k != kNone) == (r.k == kI32), "a binary convolution has the result type its operands imply"); if (t.k != kNone) lce_assert(t.n() == (size_t)O && (pad == "VALID" || pv == 1), "a bitpacked-output convolution has a threshold per channel and no zero padding"); else lce_assert(m.k == kF32 && b.k == kF32 && m.n() == (size_t)O && b.n() == (size_t)O, "a binary convolution has a multiplier and a bias per channel");
    int og = O / (C / I); size_t oi = 0; if (r.k == kI32) for (auto& v : r.i) v = 0;
    for (int n = 0; n < x.s[0]; n++) for (int y = 0; y < ph.out; y++) for (int z = 0; z < pw.out; z++, oi++) for (int c = 0; c < O; c++) { int g = c / og; int dot = 0;
      for (int p = 0; p < fh; p++) for (int q = 0; q < fw; q++) { int iy = y * sh - ph.before + p * dh, ix = z * sw - pw.before + q * dw; bool in = iy >= 0 && iy < x.s[1] && ix >= 0 && ix < x.s[2]; if (!in && !pv) continue; size_t px = ((size_t)n * x.s[1] + iy) * x.s[2] + ix, wp = ((size_t)c * fh + p) * fw + q;
        for (int k = 0; k < I; k++) { int xb = in ? bit(x, px, g * I + k, words) : 0; int wb = w.k == kF32 ? (int)(w.f[wp * I + k] < 0) : (int)bit(w, wp, k, wwords); dot += 1 - 2 * (xb ^ wb); } }
      if (t.k != kNone) { int pop = (fh * fw * I - dot) / 2; int bt = (fh * fw * I - dot) > 2 * (int64_t)t.i[c]; (void)pop; r.i[oi * r.s[3] + c / 32] |= (int32_t)((uint32_t)bt << (c % 32)); }
      else { float v = actE(act, (float)dot) * m.f[c] + b.f[c] + 0.0f; size_t e = oi * O + c; if (r.k == kF32) r.f[e] = v; else r.i[e] = quantE(v, r.scale, r.zp); } }
    return r; }
  Tensor conv(Operation* o, Tensor r, bool tf, bool dwise) {  // float convolutions; filters OHWI (tfl), HWIO (tf), 1HWO (depthwise)
    const Tensor &x = get(o->getOperand(0)), &w = get(o->getOperand(1)); int sh, sw, dh, dw, fh, fw, O, I; StringRef pad = str(o, "padding"), act = tf ? StringRef("NONE") : str(o, "fused_activation_function"); auto li = [&](const char* n, int k) { return (int)o->getAttrOfType<ArrayAttr>(n)[k].cast<IntegerAttr>().getInt(); };
    if (tf) { sh = li("strides", 1); sw = li("strides", 2); dh = li("dilations", 1); dw = li("dilations", 2); fh = (int)w.s[0]; fw = (int)w.s[1]; I = (int)w.s[2]; O = (int)w.s[3]; } else { sh = (int)num(o, "stride_h"); sw = (int)num(o, "stride_w"); dh = (int)num(o, "dilation_h_factor"); dw = (int)num(o, "dilation_w_factor"); O = (int)(dwise ? w.s[3] : w.s[0]); fh = (int)w.s[1]; fw = (int)w.s[2]; I = dwise ? 1 : (int)w.s[3]; }
    int C = (int)x.s[3], G = C / I, og = O / G; PadE ph(pad, (int)x.s[1], fh, sh, dh), pw(pad, (int)x.s[2], fw, sw, dw); lce_assert(r.s[1] == ph.out && r.s[2] == pw.out && r.s[3] == O, "a convolution has the result type its operands imply"); size_t oi = 0;
    for (int n = 0; n < x.s[0]; n++) for (int y = 0; y < ph.out; y++) for (int z = 0; z < pw.out; z++, oi++) for (int c = 0; c < O; c++) { float d = tf ? 0.0f : get(o->getOperand(2)).f[c];
      for (int p = 0; p < fh; p++) for (int q = 0; q < fw; q++) { int iy = y * sh - ph.before + p * dh, ix = z * sw - pw.before + q * dw; if (iy < 0 || iy >= x.s[1] || ix < 0 || ix >= x.s[2]) continue; for (int k = 0; k < I; k++) { float xv = x.f[(((size_t)n * x.s[1] + iy) * x.s[2] + ix) * C + c / og * I + k]; float wv = tf ? w.f[(((size_t)p * fw + q) * I + k) * O + c] : dwise ? w.f[((size_t)p * fw + q) * O + c] : w.f[(((size_t)c * fh + p) * fw + q) * I + k]; d = d + xv * wv; } }
      r.f[oi * O + c] = actE(act, d); }
    return r; }
  void step(Operation* o) {
    StringRef n(o->name); if (n == "func.return") return; if (o->results.empty()) { lce_unsupported(); return; }
    Tensor r = Tensor::of(Type(o->results[0]->type)); auto in = [&](unsigned i) -> const Tensor& { return get(o->getOperand(i)); };
    if (n == "arith.constant" || n == "tf.Const") r = fromAttr(o->getAttr("value"));
    else if (n == "tfl.no_value") r = Tensor();
    else if (n == "lq.Quantize") { const Tensor& x = in(0); int C = (int)x.s.back(), W = cdivE(C, 32); lce_assert(r.k == kI32 && r.s.size() == x.s.size() && r.s.back() == W && r.n() * C == x.n() * W, "a quantize operation has the result type its operand implies"); for (auto& v : r.i) v = 0; for (size_t i = 0; i < x.n(); i++) { int bt = x.k == kF32 ? (int)(x.f[i] < 0) : x.k == kBool ? (int)!x.i[i] : (int)(x.i[i] < x.zp); size_t c = i % C; r.i[i / C * W + c / 32] |= (int32_t)((uint32_t)bt << (c % 32)); } }
    else if (n == "lq.Dequantize") { const Tensor& x = in(0); int C = (int)r.s.back(), W = cdivE(C, 32); lce_assert(x.k == kI32 && x.s.back() == W && x.n() * C == r.n() * W, "a dequantize operation has the operand type its result implies"); for (size_t i = 0; i < r.n(); i++) { int b = bit(x, i / C, (int)(i % C), W); if (r.k == kF32) r.f[i] = (float)(1 - 2 * b); else if (r.k == kBool) r.i[i] = !b; else { int32_t one = quantE(1.0f, r.scale, r.zp), mone = quantE(-1.0f, r.scale, r.zp); r.i[i] = b ? mone : one; } } }
    else if (n == "lq.Bconv2d") r = bconv(o, r);
    else if (n == "lq.BMaxPool2d" || n == "tfl.max_pool_2d") { const Tensor& x = in(0); int fh = (int)num(o, "filter_height"), fw = (int)num(o, "filter_width"), sh = (int)num(o, n == "lq.BMaxPool2d" ? "stride_height" : "stride_h"), sw = (int)num(o, n == "lq.BMaxPool2d" ? "stride_width" : "stride_w"); StringRef pad = str(o, "padding"), act = n == "lq.BMaxPool2d" ? StringRef("NONE") : str(o, "fused_activation_function"); PadE ph(pad, (int)x.s[1], fh, sh, 1), pw(pad, (int)x.s[2], fw, sw, 1); int C = (int)x.s[3]; lce_assert(r.s[1] == ph.out && r.s[2] == pw.out && r.s[3] == C && r.k == x.k, "a pooling operation has the result type its operand implies"); size_t oi = 0;
      for (int b = 0; b < x.s[0]; b++) for (int y = 0; y < ph.out; y++) for (int z = 0; z < pw.out; z++, oi++) for (int c = 0; c < C; c++) { float mf = 0; int32_t mi = 0; bool first = true; for (int p = 0; p < fh; p++) for (int q = 0; q < fw; q++) { int iy = y * sh - ph.before + p, ix = z * sw - pw.before + q; if (iy < 0 || iy >= x.s[1] || ix < 0 || ix >= x.s[2]) continue; size_t e = (((size_t)b * x.s[1] + iy) * x.s[2] + ix) * C + c; if (x.k == kF32) { float v = x.f[e]; mf = first ? v : v > mf ? v : mf; } else { int32_t v = x.i[e]; mi = first ? v : x.k == kI32 ? mi & v : v > mi ? v : mi; } first = false; }
        if (x.k == kF32) r.f[oi * C + c] = actE(act, mf); else r.i[oi * C + c] = mi; } }
    else if (n == "tfl.add" || n == "tfl.sub" || n == "tfl.mul" || n == "tfl.div" || n == "tf.AddV2" || n == "tf.Add" || n == "tf.Sub" || n == "tf.Mul" || n == "tf.Div" || n == "tf.RealDiv") r = arith(o, r);
    else if (n == "tfl.relu" || n == "tfl.relu6" || n == "tfl.relu_n1_to_1") { StringRef a = n == "tfl.relu" ? "RELU" : n == "tfl.relu6" ? "RELU6" : "RELU_N1_TO_1"; for (size_t i = 0; i < r.n(); i++) r.f[i] = actE(a, in(0).f[i]); }
    else if (n == "tf.GreaterEqual" || n == "tfl.greater_equal" || n == "tfl.less_equal" || n == "tfl.greater" || n == "tfl.less") { int k = n == "tf.GreaterEqual" || n == "tfl.greater_equal" ? 0 : n == "tfl.less_equal" ? 1 : n == "tfl.greater" ? 2 : 3; r = binary(in(0), in(1), r, [&](Tensor& t, size_t i, float x, float y) { t.i[i] = k == 0 ? x >= y : k == 1 ? x <= y : k == 2 ? x > y : x < y; }); }
    else if (n == "tfl.quantize") { const Tensor& x = in(0); for (size_t i = 0; i < r.n(); i++) r.i[i] = quantE(x.k == kF32 ? x.f[i] : deq(x, i), r.scale, r.zp); }
    else if (n == "tfl.dequantize") { const Tensor& x = in(0); for (size_t i = 0; i < r.n(); i++) r.f[i] = deq(x, i); }
    else if (n == "tfl.conv_2d" || n == "tfl.depthwise_conv_2d") r = conv(o, r, false, n != "tfl.conv_2d");
    else if (n == "tf.Conv2D") r = conv(o, r, true, false);
    else if (n == "tfl.pad" || n == "tfl.padv2" || n == "tf.Pad" || n == "tf.PadV2") { const Tensor &x = in(0), &p = in(1); float pv = o->getNumOperands() > 2 ? in(2).f[0] : 0.0f; for (auto& v : r.f) v = pv; for (size_t i = 0; i < x.n(); i++) { size_t rem = i, e = 0, st = 1; for (int d = (int)x.s.size() - 1; d >= 0; d--) { size_t c = rem % (size_t)x.s[d]; rem /= (size_t)x.s[d]; e += (c + (size_t)p.i[2 * d]) * st; st *= (size_t)r.s[d]; } r.f[e] = x.f[i]; } }
    else if (n == "tf.Transpose" || n == "tfl.transpose") { const Tensor &x = in(0), &p = in(1); size_t nd = x.s.size(); std::vector<size_t> str_(nd); size_t st = 1; for (size_t q = nd; q-- > 0;) { str_[q] = st; st *= (size_t)x.s[q]; } for (size_t q = 0; q < nd; q++) lce_assert(r.s[q] == x.s[p.i[q]], "a transpose has the result type its permutation implies"); for (size_t i = 0; i < r.n(); i++) { size_t rem = i, e = 0; for (size_t q = nd; q-- > 0;) { e += rem % (size_t)r.s[q] * str_[p.i[q]]; rem /= (size_t)r.s[q]; } r.f[i] = x.f[e]; } }
    else if (n == "tf.BroadcastTo") { const Tensor &x = in(0), &sh = in(1); r.s.assign(sh.i.begin(), sh.i.end()); Shape want = Tensor::of(Type(o->results[0]->type)).s; lce_assert(r.s == want, "a broadcast has the result type its shape operand implies"); r.k = x.k; { auto bc = lce_bcast(ArrayRef<int64_t>(x.s.data(), x.s.size()), ArrayRef<int64_t>(r.s.data(), r.s.size())); if (Shape(bc.begin(), bc.end()) != r.s) { lce_fail("a broadcast operand has a compatible shape"); abort(); } } r.f.resize(r.k == kF32 ? r.n() : 0); r.i.resize(r.k == kF32 ? 0 : r.n()); for (size_t i = 0; i < r.n(); i++) { if (r.k == kF32) r.f[i] = x.f[at(x.s, r.s, i)]; else r.i[i] = x.i[at(x.s, r.s, i)]; } }
    else if (n == "tf.Relu" || n == "tf.Relu6") { for (size_t i = 0; i < r.n(); i++) r.f[i] = actE(n == "tf.Relu" ? "RELU" : "RELU6", in(0).f[i]); }
    else if (n == "tf.MaxPool") { auto li = [&](const char* a, int k) { return (int)o->getAttrOfType<ArrayAttr>(a)[k].cast<IntegerAttr>().getInt(); }; const Tensor& x = in(0); int fh = li("ksize", 1), fw = li("ksize", 2), sh = li("strides", 1), sw = li("strides", 2); PadE ph(str(o, "padding"), (int)x.s[1], fh, sh, 1), pw(str(o, "padding"), (int)x.s[2], fw, sw, 1); int C = (int)x.s[3]; size_t oi = 0;
      for (int b = 0; b < x.s[0]; b++) for (int y = 0; y < ph.out; y++) for (int z = 0; z < pw.out; z++, oi++) for (int c = 0; c < C; c++) { float m = 0; bool first = true; for (int p = 0; p < fh; p++) for (int q = 0; q < fw; q++) { int iy = y * sh - ph.before + p, ix = z * sw - pw.before + q; if (iy < 0 || iy >= x.s[1] || ix < 0 || ix >= x.s[2]) continue; float v = x.f[(((size_t)b * x.s[1] + iy) * x.s[2] + ix) * C + c]; m = first ? v : v > m ? v : m; first = false; } r.f[oi * C + c] = m; } }
    else if (n == "tf.Shape") { auto& d = in(0).s; for (size_t i = 0; i < d.size(); i++) r.i[i] = (int32_t)d[i]; lce_assert(r.k == kI32 && r.n() == d.size(), "a shape operation gives one integer per dimension"); }
    else if (n == "tf.LogicalNot") { for (size_t i = 0; i < r.n(); i++) r.i[i] = !in(0).i[i]; }
    else if (n == "tf.Select" || n == "tf.SelectV2" || n == "tfl.select_v2") { const Tensor &c = in(0), &a = in(1), &b = in(2); bool row = n == "tf.Select" && c.s.size() == 1 && r.s.size() > 1; for (size_t i = 0; i < r.n(); i++) { int s = c.i[row ? i / (r.n() / (size_t)r.s[0]) : at(c.s, r.s, i)]; float x = a.f[at(a.s, r.s, i)], y = b.f[at(b.s, r.s, i)]; bool whole = !lce_is_symbolic(lce_bits(x)) && !lce_is_symbolic(lce_bits(y)) && x == std::floor(x) && y == std::floor(y) && x * x < 1e6f && y * y < 1e6f; r.f[i] = whole ? (float)((int)y + (s & 1) * ((int)x - (int)y)) : s ? x : y; } }
    else if (n == "tf.Sign" || n == "tfl.sign") { for (size_t i = 0; i < r.n(); i++) { float x = in(0).f[i]; r.f[i] = (float)((int)(x > 0.0f) - (int)(x < 0.0f)); } }
    else if (n == "tf.Identity" || n == "tf.CheckNumerics" || n == "tf.Snapshot" || n == "tf.StopGradient" || n == "tf.PlaceholderWithDefault" || n == "tf.IdentityN") { for (unsigned q = 1; q < o->results.size(); q++) set(o->getResult(q), in(q)); r = in(0); }
    else if (n == "tfl.custom" && custom) r = custom(o, r);
    else { lce_unsupported(); return; }
    set(o->getResult(0), r); }
  std::vector<Tensor> run(const Fn& f, const std::vector<Tensor>& args) { env.clear(); for (size_t i = 0; i < f.args.size(); i++) set(f.args[i], args[i]); std::vector<Operation*> ops(f.body->ops); for (auto* o : ops) step(o); std::vector<Tensor> r; for (auto* v : f.terminator()->operands) r.push_back(get(Value(v))); return r; } };
// symbolic data for an argument
inline Tensor symTensor(Type t, const char* name, int lo = -8, int hi = 8, float unit = 0.5f) { Tensor r = Tensor::of(t); size_t n = r.n(); if (r.k == kF32) for (size_t i = 0; i < n; i++) r.f[i] = (float)lce_int(name, lo, hi) * unit; else if (r.k == kBool) for (size_t i = 0; i < n; i++) r.i[i] = (int32_t)lce_int(name, 0, 1); else if (r.k == kQ8) for (size_t i = 0; i < n; i++) r.i[i] = (int32_t)lce_int(name, -128, 127); else lce_sym_array(r.i.data(), 4, n, name); return r; }
// packed words of C channels: unused bits zero
inline Tensor symPacked(const Shape& s, int C, const char* name) { Tensor r = Tensor::of(ten(s, i32())); lce_sym_array(r.i.data(), 4, r.i.size(), name); int W = (int)s.back(); for (size_t i = 0; i < r.i.size(); i++) { int used = C - (int)(i % W) * 32; if (used < 32) r.i[i] = (int32_t)((uint32_t)r.i[i] & ((1u << used) - 1)); } return r; }
inline void observe(const Tensor& t) { for (size_t i = 0; i < t.n() && i < 4; i++) if (t.k == kF32) { uint32_t u; memcpy(&u, &t.f[i], 4); lce_observe(u); } else if (t.k != kNone) lce_observe((uint32_t)t.i[i]); }
inline bool sameTensor(const Tensor& a, const Tensor& b) { observe(b); if (a.k != b.k || a.s != b.s) return false; bool r = true; for (size_t i = 0; i < a.f.size(); i++) r &= lce_feq(a.f[i], b.f[i]); for (size_t i = 0; i < a.i.size(); i++) r &= a.i[i] == b.i[i]; return r; }
// constant folding of dialects other than Larq's, as their own folders do it
inline Attribute lce_shape_fold(Operation* o) { if (o->name != "tf.Shape") return {}; Tensor t; for (auto d : Type(o->operands[0]->type).cast<ShapedType>().getShape()) t.i.push_back((int32_t)d); t.s = {(int64_t)t.i.size()}; t.k = kI32; return Eval::toAttr(t, Type(o->results[0]->type)); }
inline Attribute lce_eval_fold(Operation* o) { StringRef n(o->name); if (n == "tf.Shape") return lce_shape_fold(o); if (!(n == "tfl.add" || n == "tfl.sub" || n == "tfl.mul" || n == "tfl.div" || n == "tf.Div" || n == "tf.RealDiv" || n == "tf.Transpose" || n == "tf.Mul")) return {}; Eval e; for (auto* v : o->operands) { if (!v->def || v->def->name != "arith.constant") return {}; e.set(Value(v), Eval::fromAttr(v->def->getAttr("value"))); } e.step(o); return Eval::toAttr(e.get(o->getResult(0)), Type(o->results[0]->type)); }
}
#endif
