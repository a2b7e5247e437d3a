// Branch-and-bound interval solver for floating-point queries over few symbols.  Every operation has a monotone or otherwise conservative interval
// extension that rounds exactly like the operation itself; boxes are split until the conjunction is false or true everywhere on them (single points are evaluated exactly).
#pragma once
#include "expr.h"
struct Icp {
  ExprCtx& X; u64 boxes = 0;
  Icp(ExprCtx& x) : X(x) {}
  struct V { u64 ul = 0, uh = 0; i64 sl = 0, sh = 0; bool fs = false, fok = false, fnan = false; double fl = 0, fh = 0; };
  struct F { bool ok, nan; double lo, hi; };
  static V top(unsigned w) { V v; if (w >= 64) { v.uh = ~0ull; v.sl = INT64_MIN; v.sh = INT64_MAX; } else { v.uh = (u64)maskw(w); v.sl = sext64(1ull << (w - 1), w); v.sh = (i64)(maskw(w) >> 1); } return v; }
  static V mkU(unsigned w, u64 lo, u64 hi) { V v = top(w); if (w > 64 || lo > hi) return v; v.ul = lo; v.uh = hi; u64 sb = 1ull << (w - 1); if (!((lo ^ hi) & sb)) { v.sl = sext64(lo, w); v.sh = sext64(hi, w); } return v; }
  static V mkS(unsigned w, i64 lo, i64 hi) { V v = top(w); if (w > 64 || lo > hi) return v; v.sl = lo; v.sh = hi; if (lo >= 0 || hi < 0) { u64 m = (u64)maskw(w); v.ul = (u64)lo & m; v.uh = (u64)hi & m; } return v; }
  static V mkB(int b) { return b < 0 ? top(1) : mkU(1, (u64)b, (u64)b); }
  static F fv(const V& v, unsigned w) { F r{false, false, 0, 0}; if (v.fs) return F{v.fok, v.fnan, v.fl, v.fh}; if (w != 32 && w != 64) return r; u64 sb = 1ull << (w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; if ((v.ul ^ v.uh) & sb) return r; u64 a = v.ul & ~sb, b = v.uh & ~sb;
    if (b <= inf) { double x = ExprCtx::asD(a, w), y = ExprCtx::asD(b, w); if (v.ul & sb) { r.lo = -y; r.hi = -x; } else { r.lo = x; r.hi = y; } r.ok = true; } else if (a > inf) r.nan = true; return r; }
  static V mkF(unsigned w, double lo, double hi) { V v = top(w); if (std::isnan(lo) || std::isnan(hi) || lo > hi) return v; if (lo > 0) v = mkU(w, (u64)ExprCtx::fbits(lo, w), (u64)ExprCtx::fbits(hi, w)); else if (hi < 0) v = mkU(w, (u64)ExprCtx::fbits(hi, w), (u64)ExprCtx::fbits(lo, w)); v.fs = v.fok = true; v.fl = lo; v.fh = hi; return v; }
  // sign: sign bit of every value (also of zeros), -1 unknown
  static V mkFs(unsigned w, double lo, double hi, int sign) { V v = mkF(w, lo, hi); if (!v.fs || lo > 0 || hi < 0) return v; if (sign == 0 && lo >= 0) { V r = mkU(w, (u64)ExprCtx::fbits(0.0, w), (u64)ExprCtx::fbits(std::fabs(hi), w)); r.fs = r.fok = true; r.fl = lo; r.fh = hi; return r; } if (sign == 1 && hi <= 0) { V r = mkU(w, (u64)ExprCtx::fbits(-0.0, w), (u64)ExprCtx::fbits(-std::fabs(lo), w)); r.fs = r.fok = true; r.fl = lo; r.fh = hi; return r; } return v; }
  static int sg(const V& v, unsigned w) { u64 sb = 1ull << (w - 1); if (!((v.ul ^ v.uh) & sb)) return (v.ul & sb) != 0; if (v.fs && v.fok) { if (v.fl > 0) return 0; if (v.fh < 0) return 1; } return -1; }
  static int sx(int a, int b) { return a < 0 || b < 0 ? -1 : a ^ b; }
  static Expr* strip(Expr* e) { u64 sb = 1ull << (e->width - 1); while ((e->op == E_XOR && e->nk == 1 && (u64)e->c == sb) || (e->op == E_AND && e->nk == 1 && (u64)e->c == sb - 1)) e = e->k[0]; if (e->op == E_ZEXT && e->k[0]->op == E_EXTRACT && e->k[0]->aux == 0 && e->k[0]->width + 1 == e->width && e->k[0]->k[0]->width == e->width) return strip(e->k[0]->k[0]); return e; }
  static V mkNan(unsigned w) { V v = top(w); v.fs = v.fnan = true; return v; }
  static double rd(double v, unsigned w) { return w == 32 ? (double)(float)v : v; }
  std::vector<Expr*> topo; std::unordered_map<Expr*, uint32_t> ix; std::vector<V> val; std::vector<uint32_t> kidIx; std::vector<uint32_t> kidAt;
  void collect(const std::vector<Expr*>& conj) { topo.clear(); ix.clear(); std::vector<std::pair<Expr*, unsigned>> st; for (Expr* e : conj) { if (ix.count(e)) continue; st.push_back({e, 0}); while (!st.empty()) { auto& t = st.back(); if (ix.count(t.first)) { st.pop_back(); continue; } if (t.second < t.first->nk) { Expr* k = t.first->k[t.second++]; if (!ix.count(k)) st.push_back({k, 0}); continue; } ix[t.first] = (uint32_t)topo.size(); topo.push_back(t.first); st.pop_back(); } }
    val.assign(topo.size(), V()); af.assign(topo.size(), A()); afAt.assign(topo.size(), 0); afNow = 0; symIx.clear(); kidIx.clear(); kidAt.clear(); for (Expr* e : topo) { kidAt.push_back((uint32_t)kidIx.size()); for (unsigned i = 0; i < e->nk; i++) kidIx.push_back(ix[e->k[i]]); } }
  // Affine forms over the symbols' values, value = sum a[i]*s[i] + b, off by at most e; computed only where plain intervals cannot decide a comparison.  Rounding is
  // accounted for by half a unit in the last place of the largest magnitude in the operation's interval; the forms' own arithmetic by a relative slack.
  struct A { bool ok = false; long double a[3] = {0, 0, 0}, b = 0, e = 0; };
  std::vector<A> af; std::vector<u64> afAt; std::vector<uint32_t> symIx; u64 afNow = 0;
  long double symMax(size_t i) { F f = fv(val[symIx[i]], topo[symIx[i]]->width); return f.ok ? std::max(std::fabs(f.lo), std::fabs(f.hi)) : INFINITY; }
  void slack(A& r) { long double m = std::fabs(r.b); for (size_t i = 0; i < symIx.size(); i++) if (r.a[i] != 0) m += std::fabs(r.a[i]) * symMax(i); r.e = r.e * (1 + 0x1p-60L) + m * 0x1p-60L; if (!(r.e < INFINITY)) r.ok = false; }
  static void combine(A& r, const A& x, const A& y, long double sy) { for (int i = 0; i < 3; i++) r.a[i] = x.a[i] + sy * y.a[i]; r.b = x.b + sy * y.b; r.e = x.e + y.e; r.ok = true; }
  static void scale(A& r, const A& x, long double c) { for (int i = 0; i < 3; i++) r.a[i] = x.a[i] * c; r.b = x.b * c; r.e = x.e * std::fabs(c); r.ok = true; }
  void rounding(A& r, const F& f, unsigned w, bool tiny) { long double m = std::max(std::fabs((long double)f.lo), std::fabs((long double)f.hi)); r.e += m * (w == 32 ? 0x1p-24L : 0x1p-53L) + (tiny ? (w == 32 ? 0x1p-150L : 0x1p-1075L) : 0); }
  A affine(uint32_t at) { if (afAt[at] == afNow) return af[at]; A r; Expr* e = topo[at]; unsigned w = e->width; const uint32_t* k = kidIx.data() + kidAt[at]; F f{false, false, 0, 0}; if (w == 32 || w == 64) f = fv(val[at], w); bool fin = f.ok && !f.nan && std::isfinite(f.lo) && std::isfinite(f.hi); auto pt = [&](uint32_t j) { F g = fv(val[j], topo[j]->width); return g.ok && g.lo == g.hi; };
    if (fin) { for (size_t i = 0; i < symIx.size(); i++) if (symIx[i] == at) { r.ok = true; r.a[i] = 1; } u64 sb = 1ull << (w - 1);
      if (!r.ok && f.lo != f.hi) switch (e->op) {
        case E_FADD: { A x = affine(k[0]), y = affine(k[1]); if (x.ok && y.ok) { combine(r, x, y, 1); rounding(r, f, w, false); } break; }
        case E_FMUL: { int c = pt(k[0]) ? 0 : pt(k[1]) ? 1 : -1; if (c >= 0) { A x = affine(k[1 - c]); if (x.ok) { scale(r, x, fv(val[k[c]], w).lo); rounding(r, f, w, true); } } break; }
        case E_FDIV: { if (pt(k[1]) && fv(val[k[1]], w).lo != 0) { A x = affine(k[0]); if (x.ok) { scale(r, x, 1 / (long double)fv(val[k[1]], w).lo); rounding(r, f, w, true); } } break; }
        case E_FEXT: r = affine(k[0]); break;
        case E_FTRUNC: { r = affine(k[0]); if (r.ok) rounding(r, f, w, true); break; }
        case E_FROUND: { r = affine(k[0]); if (r.ok) r.e += 1; break; }
        case E_XOR: if (e->nk == 1 && (u64)e->c == sb) { A x = affine(k[0]); if (x.ok) scale(r, x, -1); } break;
        case E_AND: if (e->nk == 1 && (u64)e->c == sb - 1) { F g = fv(val[k[0]], w); if (g.ok && (g.lo >= 0 || g.hi <= 0)) { A x = affine(k[0]); if (x.ok) scale(r, x, g.lo >= 0 ? 1 : -1); } } break;
        case E_ZEXT: { Expr* t = e->k[0]; if (t->op == E_EXTRACT && t->aux == 0 && t->width + 1 == w && t->k[0]->width == w) { auto it = ix.find(t->k[0]); if (it != ix.end()) { F g = fv(val[it->second], w); if (g.ok && (g.lo >= 0 || g.hi <= 0)) { A x = affine(it->second); if (x.ok) scale(r, x, g.lo >= 0 ? 1 : -1); } } } break; }
        case E_ITE: { const V& c = val[k[0]]; if (c.ul == 1) r = affine(k[1]); else if (c.uh == 0) r = affine(k[2]); break; }
        default: break; }
      if (r.ok) slack(r);
      // the plain interval may be tighter
      long double half = ((long double)f.hi - f.lo) / 2; if (!r.ok) { r = A(); r.ok = true; r.b = ((long double)f.lo + f.hi) / 2; r.e = half; slack(r); } }
    afAt[at] = afNow; return af[at] = r; }
  // sum of two correlated values: intersect the plain interval with the range of the affine form
  void tighten(const uint32_t* k, unsigned w, double& lo, double& hi) { if (!std::isfinite(lo) || !std::isfinite(hi)) return; A x = affine(k[0]), y = affine(k[1]), r; if (!x.ok || !y.ok) return; combine(r, x, y, 1); F f{true, false, lo, hi}; rounding(r, f, w, false); slack(r); for (int q = 0; q < 3; q++) if (x.a[q] != 0 || y.a[q] != 0) r.e += (std::fabs(x.a[q]) + std::fabs(y.a[q])) * symMax(q) * 0x1p-60L; r.e += (std::fabs(x.b) + std::fabs(y.b)) * 0x1p-60L; if (!r.ok) return;
    long double l = r.b, h = r.b; for (size_t q = 0; q < symIx.size(); q++) if (r.a[q] != 0) { F g = fv(val[symIx[q]], topo[symIx[q]]->width); if (!g.ok) return; long double p = r.a[q] * g.lo, s = r.a[q] * g.hi; l += std::min(p, s); h += std::max(p, s); r.e += (std::fabs(p) + std::fabs(s)) * 0x1p-60L; } l -= r.e; h += r.e; if (std::isnan(l) || std::isnan(h)) return; double nl = rd((double)l, w), nh = rd((double)h, w); if (nl > nh) return; lo = std::max(lo, nl); hi = std::min(hi, nh); }
  // 1 = x < y everywhere, 2 = x <= y, 3 = x > y, 4 = x >= y, 0 = unknown
  int affineCmp(uint32_t i, uint32_t j) { A x = affine(i), y = affine(j), d; if (!x.ok || !y.ok) return 0; combine(d, x, y, -1); for (int q = 0; q < 3; q++) if (x.a[q] != 0 || y.a[q] != 0) { long double m = symMax(q); d.e += (std::fabs(x.a[q]) + std::fabs(y.a[q])) * m * 0x1p-60L; } d.e += (std::fabs(x.b) + std::fabs(y.b)) * 0x1p-60L;
    long double lo = d.b, hi = d.b; for (size_t q = 0; q < symIx.size(); q++) if (d.a[q] != 0) { F f = fv(val[symIx[q]], topo[symIx[q]]->width); if (!f.ok) return 0; long double p = d.a[q] * f.lo, s = d.a[q] * f.hi; lo += std::min(p, s); hi += std::max(p, s); d.e += (std::fabs(p) + std::fabs(s)) * 0x1p-60L; } lo -= d.e; hi += d.e; if (std::isnan(lo) || std::isnan(hi)) return 0; return hi < 0 ? 1 : lo > 0 ? 3 : hi <= 0 ? 2 : lo >= 0 ? 4 : 0; }
  // comparison of a field of a floating-point value (exponent with all ones, mantissa or magnitude with zero) that is known without knowing the sign
  int fpField(Expr* x, const V& c) { if (x->op != E_EXTRACT || c.ul != c.uh) return -1; Expr* s = x->k[0]; unsigned sw = s->width, m = sw == 32 ? 23 : 52; if (sw != 32 && sw != 64) return -1; auto it = ix.find(s); if (it == ix.end()) return -1; const V& v = val[it->second]; if (!v.fs) return -1; bool fin = v.fok && !std::isinf(v.fl) && !std::isinf(v.fh);
    if (x->aux == m && x->width == sw - 1 - m && c.ul == (u64)maskw(x->width)) return v.fnan ? 1 : fin ? 0 : -1; if (x->aux == 0 && c.ul == 0 && x->width == m) return v.fnan ? 0 : -1; if (x->aux == 0 && c.ul == 0 && x->width == sw - 1) return v.fnan || (v.fok && (v.fl > 0 || v.fh < 0)) ? 0 : v.fok && v.fl == 0 && v.fh == 0 ? 1 : -1; return -1; }
  // value of node `at` where the condition `cond` is known to be `truth`: comparisons with a constant narrow the compared node and what is computed from it directly
  V again(uint32_t at, uint32_t x, int depth) { if (at == x || !depth) return val[at]; Expr* e = topo[at]; if (!e->nk || e->nk > 3 || e->op == E_SYM) return val[at]; const uint32_t* k = kidIx.data() + kidAt[at]; bool ch = false; V old[3]; for (unsigned i = 0; i < e->nk; i++) old[i] = val[k[i]]; for (unsigned i = 0; i < e->nk; i++) { V n = again(k[i], x, depth - 1); if (n.ul != old[i].ul || n.uh != old[i].uh || n.sl != old[i].sl || n.sh != old[i].sh || n.fl != old[i].fl || n.fh != old[i].fh) { ch = true; val[k[i]] = n; } else if (k[i] == x) ch = true; }
    V r = ch ? one(e, k) : val[at]; for (unsigned i = 0; i < e->nk; i++) if (k[i] != x) val[k[i]] = old[i]; return r; }
  V under(uint32_t cond, bool truth, uint32_t at) { Expr* c = topo[cond]; if (c->op == E_XOR && c->nk == 1 && (c->c & 1)) return under(kidIx[kidAt[cond]], !truth, at); if (c->op != E_SLT && c->op != E_FLT && c->op != E_FLE) return val[at];
    uint32_t p = kidIx[kidAt[cond]], q = kidIx[kidAt[cond] + 1]; bool left; uint32_t x; if (topo[q]->op == E_CONST) { x = p; left = true; } else if (topo[p]->op == E_CONST) { x = q; left = false; } else return val[at]; unsigned w = topo[x]->width; V save = val[x]; const V& kc = val[left ? q : p]; V n;
    if (c->op == E_SLT) { i64 lo = save.sl, hi = save.sh, v = kc.sl; if (left) { if (truth) hi = std::min(hi, v - 1); else lo = std::max(lo, v); } else { if (truth) lo = std::max(lo, v + 1); else hi = std::min(hi, v); } if (w > 64 || lo > hi || v == INT64_MAX || v == INT64_MIN) return val[at]; n = mkS(w, lo, hi); }
    else { F f = fv(save, w), g = fv(kc, w); if (!f.ok || !g.ok || f.nan || g.nan) return val[at]; double lo = f.lo, hi = f.hi; if (left == truth) hi = std::min(hi, g.lo); else lo = std::max(lo, g.lo); if (lo > hi) return val[at]; n = mkF(w, lo, hi); }
    val[x] = n; V r = again(at, x, 3); val[x] = save; return r; }
  V one(Expr* e, const uint32_t* k) {
    unsigned w = e->width; if (w > 64) return top(w); auto K = [&](unsigned i) -> const V& { return val[k[i]]; }; auto kw = [&](unsigned i) { return (unsigned)e->k[i]->width; };
    switch (e->op) {
      case E_LIN: { i128 lo = sext128(e->c, w), hi = lo, ul = (i128)e->c, uh = ul; for (unsigned i = 0; i < e->nk; i++) { i128 c = sext128(e->coef[i], w); if (c > ((i128)1 << 50) || c < -((i128)1 << 50)) return top(w); const V& x = K(i); i128 a = c * x.sl, b = c * x.sh; lo += std::min(a, b); hi += std::max(a, b); a = c * (i128)x.ul; b = c * (i128)x.uh; ul += std::min(a, b); uh += std::max(a, b); }
        i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1, um = (i128)maskw(w); if (lo >= mn && hi <= mx) return mkS(w, (i64)lo, (i64)hi); if (ul >= 0 && uh <= um) return mkU(w, (u64)ul, (u64)uh); if (lo >= 0 && hi <= um) return mkU(w, (u64)lo, (u64)hi); if (ul >= mn && uh <= mx) return mkS(w, (i64)ul, (i64)uh); return top(w); }
      case E_MUL: { const V &x = K(0), &y = K(1); i128 p[4] = {(i128)x.sl * y.sl, (i128)x.sl * y.sh, (i128)x.sh * y.sl, (i128)x.sh * y.sh}; i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1; if (lo >= mn && hi <= mx) return mkS(w, (i64)lo, (i64)hi); return top(w); }
      case E_UDIV: { const V &x = K(0), &y = K(1); if (y.ul == 0) return top(w); return mkU(w, x.ul / y.uh, x.uh / y.ul); }
      case E_AND: case E_OR: case E_XOR: { if (w == 1) { int r = (int)e->c; if (e->op == E_AND) { for (unsigned i = 0; i < e->nk; i++) { if (K(i).uh == 0) return mkB(0); if (K(i).ul == 0) r = r == 0 ? 0 : -1; } return r == 0 ? mkB(0) : mkB(r); } if (e->op == E_OR) { for (unsigned i = 0; i < e->nk; i++) { if (K(i).ul == 1) return mkB(1); if (K(i).uh == 1) r = r == 1 ? 1 : -1; } return mkB(r); } for (unsigned i = 0; i < e->nk; i++) { if (K(i).ul != K(i).uh) return top(1); r ^= (int)K(i).ul; } return mkB(r); }
        u64 sb = 1ull << (w - 1), c = (u64)e->c; if (e->nk == 1 && (w == 32 || w == 64) && ((e->op == E_XOR && c == sb) || (e->op == E_AND && c == sb - 1))) { const V& x = K(0); F f = fv(x, w); V v = top(w); if (e->op == E_XOR) { if (!((x.ul ^ x.uh) & sb)) v = mkU(w, x.ul ^ sb, x.uh ^ sb); if (f.ok) { v.fs = v.fok = true; v.fl = -f.hi; v.fh = -f.lo; } } else { v = (x.ul ^ x.uh) & sb ? mkU(w, 0, sb - 1) : mkU(w, x.ul & ~sb, x.uh & ~sb); if (f.ok) { v.fs = v.fok = true; v.fl = f.lo <= 0 && f.hi >= 0 ? 0 : std::min(std::fabs(f.lo), std::fabs(f.hi)); v.fh = std::max(std::fabs(f.lo), std::fabs(f.hi)); if (v.fh < 9e307 && x.ul != x.uh && (x.ul ^ x.uh) & sb) v = mkF(w, v.fl, v.fh); } } if (f.nan) { v.fs = true; v.fok = false; v.fnan = true; } return v; }
        // bits above the first uncertain bit of any operand are known
        u64 unk = 0; for (unsigned i = 0; i < e->nk; i++) unk |= K(i).ul ^ K(i).uh; u64 low = unk ? (~0ull >> __builtin_clzll(unk)) : 0; u64 r = c; for (unsigned i = 0; i < e->nk; i++) r = e->op == E_AND ? r & K(i).ul : e->op == E_OR ? r | K(i).ul : r ^ K(i).ul; u64 lo = r & ~low, hi = (r | low) & (u64)maskw(w); if (e->op == E_AND) { hi = std::min(hi, c); for (unsigned i = 0; i < e->nk; i++) hi = std::min(hi, K(i).uh); } if (e->op == E_OR) { lo = std::max(lo, c); for (unsigned i = 0; i < e->nk; i++) lo = std::max(lo, K(i).ul); } return mkU(w, lo, hi); }
      case E_CONCAT: { u64 lo = 0, hi = 0; for (unsigned i = 0; i < e->nk; i++) { lo = kw(i) >= 64 ? K(i).ul : (lo << kw(i)) | K(i).ul; hi = kw(i) >= 64 ? K(i).uh : (hi << kw(i)) | K(i).uh; } return mkU(w, lo, hi); }
      case E_EXTRACT: { if (kw(0) > 64) return top(w); if (e->aux == 0 && w < 64 && w > 1 && K(0).sl < 0 && K(0).sl >= sext64(1ull << (w - 1), w) && K(0).sh <= (i64)(maskw(w) >> 1)) return mkS(w, K(0).sl, K(0).sh); u64 a = K(0).ul >> e->aux, b = K(0).uh >> e->aux; if (w >= 64) return mkU(w, a, b); if ((a >> w) != (b >> w)) return top(w); u64 m = (u64)maskw(w); return mkU(w, a & m, b & m); }
      case E_ZEXT: { V v = mkU(w, K(0).ul, K(0).uh); if ((w == 32 || w == 64) && e->k[0]->op == E_EXTRACT && e->k[0]->aux == 0 && e->k[0]->width + 1 == w && e->k[0]->k[0]->width == w) { /* fabs */ auto it = ix.find(e->k[0]->k[0]); if (it != ix.end()) { const V& x = val[it->second]; if (x.fs && x.fnan) return mkNan(w); F f = fv(x, w); if (f.ok && x.fs) { double l = f.lo <= 0 && f.hi >= 0 ? 0 : std::min(std::fabs(f.lo), std::fabs(f.hi)), h = std::max(std::fabs(f.lo), std::fabs(f.hi)); if (h <= (w == 32 ? 3.4e38 : 1e308)) return mkFs(w, l, h, 0); } } } return v; }
      case E_SEXT: return mkS(w, K(0).sl, K(0).sh);
      case E_ITE: { const V& c = K(0); if (c.ul == 1) return K(1); if (c.uh == 0) return K(2); V a = under(k[0], true, k[1]), b = under(k[0], false, k[2]); V v; v.ul = std::min(a.ul, b.ul); v.uh = std::max(a.uh, b.uh); v.sl = std::min(a.sl, b.sl); v.sh = std::max(a.sh, b.sh); if (w == 32 || w == 64) { F f = fv(a, w), g = fv(b, w); if (f.ok && g.ok) { v.fs = v.fok = true; v.fl = std::min(f.lo, g.lo); v.fh = std::max(f.hi, g.hi); } else if (f.nan && g.nan) v.fs = v.fnan = true; } return v; }
      case E_EQ: { if (kw(0) > 64) return top(1); const V &a = K(0), &b = K(1); if (e->k[0]->op == E_EXTRACT || e->k[1]->op == E_EXTRACT) { int r = fpField(e->k[0], b); if (r < 0) r = fpField(e->k[1], a); if (r >= 0) return mkB(r); } if (a.ul > b.uh || b.ul > a.uh || a.sl > b.sh || b.sl > a.sh) return mkB(0); if (a.ul == a.uh && b.ul == b.uh) return mkB(a.ul == b.ul); return top(1); }
      case E_ULT: { if (kw(0) > 64) return top(1); const V &a = K(0), &b = K(1); return a.uh < b.ul ? mkB(1) : a.ul >= b.uh ? mkB(0) : top(1); }
      case E_SLT: { if (kw(0) > 64) return top(1); const V &a = K(0), &b = K(1); return a.sh < b.sl ? mkB(1) : a.sl >= b.sh ? mkB(0) : top(1); }
      case E_FADD: { F a = fv(K(0), w), b = fv(K(1), w); if (a.nan || b.nan) return mkNan(w); if (!a.ok || !b.ok) return top(w); double inf = INFINITY; if ((a.lo == -inf && b.hi == inf) || (a.hi == inf && b.lo == -inf)) return top(w); double lo = rd(a.lo + b.lo, w), hi = rd(a.hi + b.hi, w); if (a.lo != a.hi && b.lo != b.hi && (a.hi <= 0) != (b.hi <= 0)) tighten(k, w, lo, hi); int p = sg(K(0), w), q = sg(K(1), w); return mkFs(w, lo, hi, lo >= 0 && (p == 0 || q == 0) ? 0 : p == 1 && q == 1 ? 1 : -1); }
      case E_FMUL: { F a = fv(K(0), w), b = fv(K(1), w); if (a.nan || b.nan) return mkNan(w); if (!a.ok || !b.ok || std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(b.lo) || std::isinf(b.hi)) return top(w); double p[4] = {rd(a.lo * b.lo, w), rd(a.lo * b.hi, w), rd(a.hi * b.lo, w), rd(a.hi * b.hi, w)}; return mkFs(w, *std::min_element(p, p + 4), *std::max_element(p, p + 4), sx(sg(K(0), w), sg(K(1), w))); }
      case E_FDIV: { F a = fv(K(0), w), b = fv(K(1), w); if (a.nan || b.nan) return mkNan(w); if (!a.ok || !b.ok || (b.lo <= 0 && b.hi >= 0) || std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(b.lo) || std::isinf(b.hi)) return top(w); if (strip(e->k[0]) == strip(e->k[1])) { int g = sx(sg(K(0), w), sg(K(1), w)); return g < 0 ? mkF(w, -1, 1) : g ? mkF(w, -1, -1) : mkF(w, 1, 1); } double p[4] = {rd(a.lo / b.lo, w), rd(a.lo / b.hi, w), rd(a.hi / b.lo, w), rd(a.hi / b.hi, w)}; return mkFs(w, *std::min_element(p, p + 4), *std::max_element(p, p + 4), sx(sg(K(0), w), sg(K(1), w))); }
      case E_FSQRT: { F a = fv(K(0), w); if (!a.ok || a.lo < 0) return top(w); return mkF(w, rd(std::sqrt(a.lo), w), rd(std::sqrt(a.hi), w)); }
      case E_FEQ: case E_FLT: case E_FLE: case E_FUNO: { F a = fv(K(0), e->aux), b = fv(K(1), e->aux); if (a.nan || b.nan) return mkB(e->op == E_FUNO); if (!a.ok || !b.ok) return top(1); if (e->op == E_FUNO) return mkB(0);
        int r = -1; if (e->op == E_FLT) r = a.hi < b.lo ? 1 : a.lo >= b.hi ? 0 : -1; else if (e->op == E_FLE) r = a.hi <= b.lo ? 1 : a.lo > b.hi ? 0 : -1; else r = a.hi < b.lo || b.hi < a.lo ? 0 : a.lo == a.hi && b.lo == b.hi && a.lo == b.lo ? 1 : -1; if (r >= 0) return mkB(r);
        int q = affineCmp(k[0], k[1]); if (!q) return top(1); if (e->op == E_FLT) return q == 1 ? mkB(1) : q >= 3 ? mkB(0) : top(1); if (e->op == E_FLE) return q <= 2 ? mkB(1) : q == 3 ? mkB(0) : top(1); return q == 1 || q == 3 ? mkB(0) : top(1); }
      case E_FEXT: { F a = fv(K(0), 32); if (a.nan) return mkNan(w); return a.ok ? mkFs(64, a.lo, a.hi, sg(K(0), 32)) : top(w); }
      case E_FTRUNC: { F a = fv(K(0), 64); if (a.nan) return mkNan(w); return a.ok ? mkFs(32, (double)(float)a.lo, (double)(float)a.hi, sg(K(0), 64)) : top(w); }
      case E_FROUND: { F a = fv(K(0), w); if (a.nan) return mkNan(w); if (!a.ok) return top(w); auto r = [&](double x) { return ExprCtx::asD((u64)ExprCtx::evalFP(E_FROUND, w, w, e->aux2, ExprCtx::fbits(x, w), 0, 0), w); }; return mkFs(w, r(a.lo), r(a.hi), sg(K(0), w)); }
      case E_SI2F: case E_UI2F: { if (kw(0) > 64) return top(w); const V& a = K(0); bool s = e->op == E_SI2F; auto r = [&](u64 x) { return ExprCtx::asD((u64)ExprCtx::evalFP(e->op, w, kw(0), 0, x & (u64)maskw(kw(0)), 0, 0), w); }; double lo = s ? r((u64)a.sl) : r(a.ul); return mkFs(w, lo, s ? r((u64)a.sh) : r(a.uh), lo >= 0 ? 0 : -1); }
      case E_F2SI: { F a = fv(K(0), e->aux); if (!a.ok) return top(w); double lim = w <= 32 ? 2147483648.0 : 9223372036854775808.0, lo = std::trunc(a.lo), hi = std::trunc(a.hi); if (lo < -lim || hi >= lim) return top(w); i64 l = (i64)lo, h = (i64)hi; if (w < 32 && (l < sext64(1ull << (w - 1), w) || h > (i64)(maskw(w) >> 1))) return top(w); return mkS(w, l, h); }
      default: return top(w); } }
  struct Box { u64 lo[3], hi[3]; };
  // 0 = unsatisfiable, 1 = satisfiable (model filled), 2 = undecided
  int solve(const std::vector<Expr*>& conj, const std::vector<uint32_t>& syms, std::vector<u128>* model, u64 budget, double deadline, double (*now)()) {
    size_t n = syms.size(); if (n < 1 || n > 3) return 2; collect(conj); std::vector<uint32_t> cIx;  for (uint32_t s : syms) { Expr* e = X.symexprs[s]; if (e->width > 64 || !ix.count(e)) return 2; symIx.push_back(ix[e]); } for (Expr* e : conj) cIx.push_back(ix[e]);
    std::vector<char> dyn(topo.size(), 0); for (uint32_t s : symIx) dyn[s] = 2; for (size_t i = 0; i < topo.size(); i++) { if (topo[i]->op == E_CONST) { val[i] = topo[i]->width <= 64 ? mkU(topo[i]->width, (u64)topo[i]->c, (u64)topo[i]->c) : top(topo[i]->width); continue; } if (topo[i]->op != E_SYM) dyn[i] = 1; }
    std::vector<uint32_t> work; for (size_t i = 0; i < topo.size(); i++) if (dyn[i] == 1) work.push_back((uint32_t)i);
    std::vector<Box> st; Box b; for (unsigned m = 0; m < (1u << n); m++) { bool ok = true; for (size_t i = 0; i < n && ok; i++) { Expr* e = X.symexprs[syms[i]]; unsigned w = e->width; u64 M = (u64)maskw(w); i64 l, h; if (m >> i & 1) { l = e->smin; h = std::min<i64>(e->smax, -1); } else { l = std::max<i64>(e->smin, 0); h = e->smax; } if (l > h) { ok = false; break; } b.lo[i] = std::max((u64)l & M, e->umin); b.hi[i] = std::min((u64)h & M, e->umax); if (b.lo[i] > b.hi[i]) ok = false; } if (ok) st.push_back(b); }
    std::vector<u128> asg(X.symexprs.size(), 0); for (size_t i = 0; i < asg.size(); i++) { Expr* e = X.symexprs[i]; if (e->width <= 64 && (e->smin > 0 || e->smax < 0)) asg[i] = (u128)(u64)e->smin & maskw(e->width); }
    u64 used = 0, cnt = 0; while (!st.empty()) { b = st.back(); st.pop_back(); used += topo.size(); boxes++; if (used > budget || (++cnt % 4096 == 0 && now() > deadline)) return 2; bool pt = true; size_t wide = 0; u64 ww = 0; for (size_t i = 0; i < n; i++) { u64 d = b.hi[i] - b.lo[i]; if (d) pt = false; if (d > ww) { ww = d; wide = i; } }
      bool all = true, none = false; if (pt) { for (size_t i = 0; i < n; i++) asg[syms[i]] = b.lo[i]; std::unordered_map<Expr*, u128> memo; for (Expr* e : conj) if (!(X.eval(e, asg, memo) & 1)) { none = true; break; } used += 20 * topo.size(); }
      else { for (size_t i = 0; i < n; i++) val[symIx[i]] = mkU(X.symexprs[syms[i]]->width, b.lo[i], b.hi[i]); afNow++; for (uint32_t i : work) val[i] = one(topo[i], kidIx.data() + kidAt[i]); for (uint32_t c : cIx) { if (val[c].uh == 0) { none = true; break; } if (val[c].ul == 0) all = false; } }
      if (none) continue; if (pt || all) { for (size_t i = 0; i < n; i++) asg[syms[i]] = b.lo[i]; std::unordered_map<Expr*, u128> memo; for (Expr* e : conj) if (!(X.eval(e, asg, memo) & 1)) { fprintf(stderr, "internal error: interval evaluation disagrees with evaluation\n"); exit(3); } if (model) *model = asg; return 1; }
      u64 mid = b.lo[wide] + ww / 2; Box c = b; b.hi[wide] = mid; c.lo[wide] = mid + 1; st.push_back(c); st.push_back(b); }
    return 0; }
};
