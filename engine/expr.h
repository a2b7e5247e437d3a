// Hash-consed bit-vector / floating point expression DAG with normalising constructors.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  E_CONST, E_SYM,
  E_LIN,            // const + sum coef_i * kid_i  (mod 2^w)
  E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR,    // n-ary, sorted, constant folded into cval
  E_SHL, E_LSHR, E_ASHR, // symbolic shift amounts (constants are rewritten where useful)
  E_CONCAT,         // kid0 = high, kid1 = low (n-ary, high first)
  E_EXTRACT,        // aux = low bit
  E_ZEXT, E_SEXT, E_ITE, E_EQ, E_ULT, E_SLT,
  // floating point; aux = operand width (32/64)
  E_FADD, E_FMUL, E_FDIV, E_FREM, E_FSQRT, E_FMA, E_FEQ, E_FLT, E_FLE, E_FUNO,
  E_F2SI, E_F2UI, E_SI2F, E_UI2F, E_FEXT, E_FTRUNC, E_FROUND /*aux2 mode*/,
};
static const char* opname[] = {"const","sym","lin","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","slt","fadd","fmul","fdiv","frem","fsqrt","fma","feq","flt","fle","funo","f2si","f2ui","si2f","ui2f","fext","ftrunc","fround"};
enum { RM_FLOOR, RM_CEIL, RM_TRUNC, RM_RINT /*half even*/, RM_ROUND /*half away*/ };

struct Expr {
  Op op; uint16_t width; uint16_t aux; uint8_t aux2; bool hasfp;
  uint32_t id; uint32_t nk;
  u128 c;                 // constant value / LIN constant / AND,OR,XOR constant
  Expr** k; u128* coef;   // coef only for LIN
  u64 umin, umax; i64 smin, smax;  // for width<=64
  u64 h;
  mutable std::vector<uint32_t>* syms;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= (1ull << w) - 1; return (i64)((v ^ m) - m); }
static inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct SymInfo { std::string name; unsigned width; unsigned seq; };

struct ExprCtx {
  std::vector<char*> chunks; size_t chunkpos = 0, chunkcap = 0; size_t bytes = 0;
  std::unordered_multimap<u64, Expr*>* tab = nullptr;
  // open addressing hash set
  std::vector<Expr*> set; size_t setn = 0;
  uint32_t nextid = 1;
  std::vector<Expr*> symexprs; std::vector<SymInfo> syminfo;
  u64 nrewrites = 0;
  bool raw = false;  // raw mode: constructors only fold constants
  struct MemoKey { Expr* e; uint32_t lo, w; bool operator==(const MemoKey& o) const { return e == o.e && lo == o.lo && w == o.w; } };
  struct MemoHash { size_t operator()(const MemoKey& m) const { return ((u64)m.e->id * 0x9E3779B97F4A7C15ull) ^ ((u64)m.lo << 20) ^ m.w * 1315423911u; } };
  std::unordered_map<MemoKey, Expr*, MemoHash> exmemo;
  ExprCtx() { set.resize(1 << 14); }
  void reset() {
    frmemo.clear();
    for (Expr* e : set) if (e && e->syms) delete e->syms;
    for (char* c : chunks) free(c);
    chunks.clear(); chunkpos = chunkcap = 0; bytes = 0;
    set.assign(1 << 14, nullptr); setn = 0; nextid = 1; symexprs.clear(); syminfo.clear(); exmemo.clear();
  }
  void* alloc(size_t n) {
    n = (n + 15) & ~(size_t)15; bytes += n;
    if (chunkpos + n > chunkcap) { size_t cap = std::max<size_t>(1 << 20, n); char* p = (char*)aligned_alloc(16, cap); chunks.push_back(p); chunkpos = 0; chunkcap = cap; }
    char* r = chunks.back() + chunkpos; chunkpos += n; return r;
  }
  static u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
  // scratch node
  Expr* intern(Op op, unsigned w, unsigned aux, unsigned aux2, u128 c, Expr* const* k, const u128* coef, size_t nk) {
    u64 h = mix(op * 131 + w, aux * 7 + aux2); h = mix(h, (u64)c); h = mix(h, (u64)(c >> 64));
    for (size_t i = 0; i < nk; i++) { h = mix(h, k[i]->id); if (coef) h = mix(h, (u64)coef[i]); }
    size_t m = set.size() - 1; size_t p = h & m;
    while (set[p]) {
      Expr* e = set[p];
      if (e->h == h && e->op == op && e->width == w && e->aux == aux && e->aux2 == aux2 && e->c == c && e->nk == nk &&
          (nk == 0 || memcmp(e->k, k, nk * sizeof(Expr*)) == 0) && (!coef || memcmp(e->coef, coef, nk * sizeof(u128)) == 0)) return e;
      p = (p + 1) & m;
    }
    Expr* e = (Expr*)alloc(sizeof(Expr));
    e->op = op; e->width = w; e->aux = aux; e->aux2 = aux2; e->id = nextid++; e->nk = nk; e->c = c; e->h = h; e->syms = nullptr;
    e->k = nullptr; e->coef = nullptr; e->hasfp = op >= E_FADD;
    if (nk) { e->k = (Expr**)alloc(nk * sizeof(Expr*)); memcpy(e->k, k, nk * sizeof(Expr*)); for (size_t i = 0; i < nk; i++) e->hasfp |= k[i]->hasfp; }
    if (coef) { e->coef = (u128*)alloc(nk * sizeof(u128)); memcpy(e->coef, coef, nk * sizeof(u128)); }
    range(e);
    set[p] = e; setn++;
    if (setn * 2 > set.size()) { std::vector<Expr*> o; o.swap(set); set.resize(o.size() * 2); size_t mm = set.size() - 1; for (Expr* x : o) if (x) { size_t q = x->h & mm; while (set[q]) q = (q + 1) & mm; set[q] = x; } }
    return e;
  }
  void full(Expr* e) { unsigned w = e->width; if (w > 64) { e->umin = 0; e->umax = ~0ull; e->smin = INT64_MIN; e->smax = INT64_MAX; return; }
    e->umin = 0; e->umax = (u64)maskw(w); e->smin = sext64(1ull << (w - 1), w); e->smax = (i64)(maskw(w) >> 1); }
  void fromU(Expr* e, u64 lo, u64 hi) { // set unsigned range, derive signed
    unsigned w = e->width; e->umin = std::max(e->umin, lo); e->umax = std::min(e->umax, hi);
    u64 sm = (u64)(maskw(w) >> 1);
    if (e->umax <= sm || e->umin > sm) { e->smin = std::max(e->smin, sext64(e->umin, w)); e->smax = std::min(e->smax, sext64(e->umax, w)); } }
  void fromS(Expr* e, i64 lo, i64 hi) {
    unsigned w = e->width; e->smin = std::max(e->smin, lo); e->smax = std::min(e->smax, hi);
    if (e->smin >= 0 || e->smax < 0) { u64 m = (u64)maskw(w); e->umin = std::max(e->umin, (u64)e->smin & m); e->umax = std::min(e->umax, (u64)e->smax & m); } }
  void range(Expr* e) {
    full(e); unsigned w = e->width; if (w > 64) return;
    switch (e->op) {
      case E_CONST: e->umin = e->umax = (u64)e->c; e->smin = e->smax = sext64((u64)e->c, w); break;
      case E_ZEXT: fromU(e, e->k[0]->umin, e->k[0]->umax); break;
      case E_SEXT: fromS(e, e->k[0]->smin, e->k[0]->smax); break;
      case E_ITE: fromU(e, std::min(e->k[1]->umin, e->k[2]->umin), std::max(e->k[1]->umax, e->k[2]->umax));
                  { i64 alo = e->k[1]->smin, ahi = e->k[1]->smax, blo = e->k[2]->smin, bhi = e->k[2]->smax; Expr* q = e->k[0]; Expr* x = nullptr; i64 C = 0;
                    if (q->op == E_SLT && q->k[1]->op == E_CONST) { x = q->k[0]; C = sext64((u64)q->k[1]->c, x->width); } else if (q->op == E_EXTRACT && q->aux + 1 == q->k[0]->width) x = q->k[0];
                    auto refine = [&](Expr* br, bool lt, i64& lo, i64& hi) { i128 g = 0, k0 = 0; if (br == x) g = 1; else if (br->op == E_LIN && br->width == x->width && x->width <= 64) { k0 = sext128(br->c, w); if (x->op == E_LIN) { if (x->c || x->nk != br->nk) return; for (unsigned i = 0; i < x->nk; i++) { i128 p = sext128(x->coef[i], w), q = sext128(br->coef[i], w); if (br->k[i] != x->k[i] || p == 0 || q % p || (g && q / p != g)) return; g = q / p; } } else if (br->nk == 1 && br->k[0] == x) g = sext128(br->coef[0], w); } if (!g || g > (1 << 30) || g < -(1 << 30) || k0 > ((i128)1 << 60) || k0 < -((i128)1 << 60)) return;
                        i128 H = (i128)1 << (w - 1); i128 e1 = g * x->smin + k0, e2 = g * x->smax + k0; if (std::min(e1, e2) < -H || std::max(e1, e2) >= H) return; i128 xl = x->smin, xh = x->smax; if (lt) xh = std::min<i128>(xh, (i128)C - 1); else xl = std::max<i128>(xl, C); if (xl > xh) return; i128 p = g * xl + k0, q = g * xh + k0; lo = std::max<i128>(lo, std::min(p, q)); hi = std::min<i128>(hi, std::max(p, q)); };
                      if (x) { refine(e->k[1], true, alo, ahi); refine(e->k[2], false, blo, bhi); }
                    fromS(e, std::min(alo, blo), std::max(ahi, bhi)); } break;
      case E_AND: { u64 m = (u64)e->c; for (unsigned i = 0; i < e->nk; i++) m = std::min(m, e->k[i]->umax); fromU(e, 0, m); break; }
      case E_OR: { u64 m = (u64)e->c, lo = (u64)e->c; for (unsigned i = 0; i < e->nk; i++) { m |= e->k[i]->umax; lo = std::max(lo, e->k[i]->umin); }
                   u64 r = m ? (~0ull >> __builtin_clzll(m)) : 0; fromU(e, lo, r); break; }
      case E_XOR: { u64 m = (u64)e->c; for (unsigned i = 0; i < e->nk; i++) m |= e->k[i]->umax; u64 r = m ? (~0ull >> __builtin_clzll(m)) : 0; fromU(e, 0, r); break; }
      case E_LIN: {
        i128 lo = sext128(e->c, w), hi = lo, ulo = (i128)e->c, uhi = ulo; bool ok = true, uok = true;
        for (unsigned i = 0; i < e->nk; i++) {
          i128 cs = sext128(e->coef[i], w); Expr* x = e->k[i]; if (cs > ((i128)1 << 50) || cs < -((i128)1 << 50)) { ok = uok = false; break; }
          i128 a = cs * x->smin, b = cs * x->smax; lo += std::min(a, b); hi += std::max(a, b);
          if (lo < -((i128)1 << 100) || hi > ((i128)1 << 100)) ok = false;
          i128 ua = cs * (i128)x->umin, ub = cs * (i128)x->umax; ulo += std::min(ua, ub); uhi += std::max(ua, ub);
          if (ulo < -((i128)1 << 100) || uhi > ((i128)1 << 100)) uok = false;
          if (!ok && !uok) break;
        }
        i128 smn = -((i128)1 << (w - 1)), smx = ((i128)1 << (w - 1)) - 1;
        if (ok && lo >= smn && hi <= smx) fromS(e, (i64)lo, (i64)hi);
        else if (ok && lo >= 0 && hi <= (i128)maskw(w)) fromU(e, (u64)lo, (u64)hi);
        if (uok && ulo >= 0 && uhi <= (i128)maskw(w)) fromU(e, (u64)ulo, (u64)uhi);
        else if (uok && ulo >= smn && uhi <= smx) fromS(e, (i64)ulo, (i64)uhi);
        break; }
      case E_MUL: { i128 c[4] = {(i128)e->k[0]->smin * e->k[1]->smin, (i128)e->k[0]->smin * e->k[1]->smax, (i128)e->k[0]->smax * e->k[1]->smin, (i128)e->k[0]->smax * e->k[1]->smax};
        i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
        if (lo >= -((i128)1 << (w - 1)) && hi <= ((i128)1 << (w - 1)) - 1) fromS(e, (i64)lo, (i64)hi); break; }
      case E_UDIV: if (e->k[1]->umin > 0) fromU(e, e->k[0]->umin / e->k[1]->umax, e->k[0]->umax / e->k[1]->umin); break;
      case E_UREM: if (e->k[1]->umin > 0) fromU(e, 0, std::min(e->k[0]->umax, e->k[1]->umax - 1)); else fromU(e, 0, e->k[0]->umax); break;
      case E_SDIV: if (e->k[1]->smin > 0) { i64 a = e->k[0]->smin, b = e->k[0]->smax, d1 = e->k[1]->smin, d2 = e->k[1]->smax;
                   fromS(e, a < 0 ? a / d1 : a / d2, b < 0 ? b / d2 : b / d1); } break;
      case E_SREM: if (e->k[1]->smin > 0) { i64 m = e->k[1]->smax - 1; fromS(e, e->k[0]->smin >= 0 ? 0 : std::max(e->k[0]->smin, -m), e->k[0]->smax < 0 ? 0 : std::min(e->k[0]->smax, m)); } break;
      case E_LSHR: fromU(e, 0, e->k[0]->umax); if (e->k[1]->op == E_CONST && e->k[1]->c < 64) fromU(e, e->k[0]->umin >> (u64)e->k[1]->c, e->k[0]->umax >> (u64)e->k[1]->c); break;
      case E_ASHR: if (e->k[1]->op == E_CONST && e->k[1]->c < w) fromS(e, e->k[0]->smin >> (u64)e->k[1]->c, e->k[0]->smax >> (u64)e->k[1]->c); else fromS(e, std::min<i64>(e->k[0]->smin, 0), std::max<i64>(e->k[0]->smax, 0)); break;
      case E_EXTRACT: if (e->aux == 0 && e->k[0]->width <= 64) { if (e->k[0]->umax <= (u64)maskw(w)) fromU(e, e->k[0]->umin, e->k[0]->umax);
                        if (e->k[0]->smin >= e->smin && e->k[0]->smax <= e->smax) fromS(e, e->k[0]->smin, e->k[0]->smax); } else if (e->k[0]->width <= 64 && e->aux + w == e->k[0]->width) fromS(e, e->k[0]->smin >> e->aux, e->k[0]->smax >> e->aux); break;
      case E_CONCAT: { if (e->k[0]->width <= 64) { unsigned lw = w - e->k[0]->width; fromU(e, e->k[0]->umin << lw, (e->k[0]->umax << lw) | (u64)maskw(lw)); } break; }
      default: break;
    }
  }
  // ---------- constructors
  Expr* cst(u128 v, unsigned w) { v &= maskw(w); return intern(E_CONST, w, 0, 0, v, nullptr, nullptr, 0); }
  Expr* tru() { return cst(1, 1); }
  Expr* fls() { return cst(0, 1); }
  Expr* sym(const std::string& name, unsigned w) {
    unsigned id = symexprs.size(); Expr* e = intern(E_SYM, w, 0, 0, id, nullptr, nullptr, 0); symexprs.push_back(e); syminfo.push_back({name, w, id}); return e; }
  Expr* symRange(const std::string& name, unsigned w, i64 lo, i64 hi) { Expr* e = sym(name, w); fromS(e, lo, hi); return e; }
  static bool isC(Expr* e) { return e->op == E_CONST; }

  // --- linear sums
  struct Term { Expr* e; u128 c; };
  void linTerms(Expr* e, u128 mul, u128& c0, std::vector<Term>& out, unsigned w) {
    u128 M = maskw(w);
    if (isC(e)) { c0 = (c0 + e->c * mul) & M; return; }
    if (e->op == E_XOR && e->nk == 1 && e->c == 1 && w > 1 && w <= 64 && e->k[0]->umax <= 1) { c0 = (c0 + mul) & M; linTerms(e->k[0], (0 - mul) & M, c0, out, w); return; } // x ^ 1 = 1 - x for x in {0, 1}
    if (e->op == E_LIN) { c0 = (c0 + e->c * mul) & M; for (unsigned i = 0; i < e->nk; i++) out.push_back({e->k[i], (e->coef[i] * mul) & M}); return; }
    if (e->op == E_ITE && isC(e->k[1]) && isC(e->k[2])) {
      c0 = (c0 + e->k[2]->c * mul) & M; Expr* b = w == 1 ? e->k[0] : zext(e->k[0], w); u128 d = ((e->k[1]->c - e->k[2]->c) * mul) & M;
      if (b->op == E_LIN || isC(b)) linTerms(b, d, c0, out, w); else out.push_back({b, d}); return; }
    out.push_back({e, mul & M});
  }
  Expr* mkLin(u128 c0, std::vector<Term>& t, unsigned w) {
    u128 M = maskw(w);
    std::sort(t.begin(), t.end(), [](const Term& a, const Term& b) { return a.e->id < b.e->id; });
    size_t n = 0;
    for (size_t i = 0; i < t.size();) { Expr* e = t[i].e; u128 c = 0; while (i < t.size() && t[i].e == e) { c += t[i].c; i++; } c &= M; if (c) t[n++] = {e, c}; }
    t.resize(n); c0 &= M;
    if (w == 1) { Expr* r = cst(c0, 1); for (auto& x : t) r = xor_(r, x.e); return r; }
    if (n == 0) return cst(c0, w);
    if (n == 1 && c0 == 0 && t[0].c == 1) return t[0].e;
    std::vector<Expr*> k(n); std::vector<u128> cf(n); for (size_t i = 0; i < n; i++) { k[i] = t[i].e; cf[i] = t[i].c; }
    return intern(E_LIN, w, 0, 0, c0, k.data(), cf.data(), n);
  }
  // merge of two already sorted linear forms (fast path)
  Expr* add2(Expr* a, Expr* b, u128 mb) {
    unsigned w = a->width; u128 M = maskw(w);
    if (isC(a) && isC(b)) return cst(a->c + b->c * mb, w);
    u128 c0 = 0; std::vector<Term> ta, tb;
    linTerms(a, 1, c0, ta, w); linTerms(b, mb & M, c0, tb, w);
    std::vector<Term> t; t.reserve(ta.size() + tb.size());
    t.insert(t.end(), ta.begin(), ta.end()); t.insert(t.end(), tb.begin(), tb.end());
    if (t.size() > 8 && std::is_sorted(ta.begin(), ta.end(), [](const Term& x, const Term& y) { return x.e->id < y.e->id; }) && std::is_sorted(tb.begin(), tb.end(), [](const Term& x, const Term& y) { return x.e->id < y.e->id; })) {
      std::inplace_merge(t.begin(), t.begin() + ta.size(), t.end(), [](const Term& x, const Term& y) { return x.e->id < y.e->id; });
    }
    return mkLin(c0, t, w);
  }
  Expr* add(Expr* a, Expr* b) { return add2(a, b, 1); }
  Expr* sub(Expr* a, Expr* b) { if (a == b) return cst(0, a->width); return add2(a, b, maskw(a->width)); }
  Expr* mulc(Expr* a, u128 c) { unsigned w = a->width; c &= maskw(w); if (c == 0) return cst(0, w); if (c == 1) return a; u128 c0 = 0; std::vector<Term> t; linTerms(a, c, c0, t, w); return mkLin(c0, t, w); }
  Expr* mul(Expr* a, Expr* b) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) return mulc(a, b->c);
    if (a->width == 1) return and_(a, b);
    // pull out a single coefficient
    if (a->op == E_LIN && a->nk == 1 && a->c == 0) return mulc(mul(a->k[0], b), a->coef[0]);
    if (b->op == E_LIN && b->nk == 1 && b->c == 0) return mulc(mul(a, b->k[0]), b->coef[0]);
    // distribute boolean zext:  zext(p)*x = ite(p,x,0)
    if (a->op == E_ZEXT && a->k[0]->width == 1) return ite(a->k[0], b, cst(0, b->width));
    if (b->op == E_ZEXT && b->k[0]->width == 1) return ite(b->k[0], a, cst(0, a->width));
    if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) std::swap(a, b);
    if (b->op == E_ITE && isC(b->k[1]) && isC(b->k[2])) { u128 d = (b->k[1]->c - b->k[2]->c) & maskw(a->width); return add(mulc(a, b->k[2]->c), mulc(ite(b->k[0], a, cst(0, a->width)), d)); }
    if (a->width <= 64 && a->width > 8) { // sums of many bits stay one factor: m * (c0 + g*P) = c0*m + g*(m*P)
      auto bits = [](Expr* e) { if (e->op != E_LIN) return 0; int n = 0; for (unsigned i = 0; i < e->nk; i++) if (e->k[i]->op == E_ZEXT && e->k[i]->k[0]->width == 1) n++; return n; }; int na = bits(a), nb = bits(b);
      if (na >= 5 || nb >= 5) { if (na >= 5) std::swap(a, b); u128 c0, g; Expr* P; if (!(bits(a) >= 5) && primitive(b, c0, g, P)) return add(mulc(a, c0), mulc(mul(a, P), g));
        if (b->op == E_LIN && a->op == E_LIN && bits(a) < 5) { Expr* r = mulc(b, a->c); for (unsigned i = 0; i < a->nk; i++) r = add(r, mulc(mul(a->k[i], b), a->coef[i])); return r; }
        if (a->id > b->id) std::swap(a, b); Expr* k[2] = {a, b}; return intern(E_MUL, a->width, 0, 0, 0, k, nullptr, 2); } }
    if (b->op == E_LIN && b->nk * (a->op == E_LIN ? a->nk : 1) <= 64) { // distribute
      Expr* r = mulc(a, b->c); for (unsigned i = 0; i < b->nk; i++) r = add(r, mulc(mul(a, b->k[i]), b->coef[i])); return r; }
    if (a->op == E_LIN && a->nk <= 64) { Expr* r = mulc(b, a->c); for (unsigned i = 0; i < a->nk; i++) r = add(r, mulc(mul(a->k[i], b), a->coef[i])); return r; }
    if (a->id > b->id) std::swap(a, b);
    Expr* k[2] = {a, b}; return intern(E_MUL, a->width, 0, 0, 0, k, nullptr, 2);
  }
  Expr* bin(Op op, Expr* a, Expr* b) { Expr* k[2] = {a, b}; return intern(op, a->width, 0, 0, 0, k, nullptr, 2); }
  Expr* udiv(Expr* a, Expr* b) {
    unsigned w = a->width; if (isC(b) && b->c) { if (isC(a)) return cst(a->c / b->c, w); if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return lshr(a, cst(s, w)); } }
    if (w <= 64 && a->umax < b->umin) return cst(0, w);
    if (isC(b) && b->c) if (Expr* q = divLin(a, b->c, false)) return q;
    return bin(E_UDIV, a, b); }
  // exact splitting: (c*X + r)/c where all coefs multiples of c and no wrap
  Expr* divLin(Expr* a, u128 d, bool sg) {
    unsigned w = a->width; if (a->op != E_LIN || w > 64) return nullptr;
    if (!(a->smin >= 0 && a->smax < INT64_MAX)) return nullptr;
    std::vector<Term> q; for (unsigned i = 0; i < a->nk; i++) { i128 cs = sext128(a->coef[i], w); if (cs % (i128)d != 0) return nullptr; q.push_back({a->k[i], (u128)(cs / (i128)d) & maskw(w)}); }
    i128 c0 = sext128(a->c, w); i128 fd = c0 / (i128)d; if (c0 % (i128)d != 0 && c0 < 0) fd -= 1;
    // a = d*(S + fd) + rem, 0<=rem<d ; a>=0 -> floor(a/d) = S+fd provided the integer sum does not wrap: require small ranges
    i128 lo = c0, hi = c0; for (unsigned i = 0; i < a->nk; i++) { i128 cs = sext128(a->coef[i], w); i128 x = cs * a->k[i]->smin, y = cs * a->k[i]->smax; lo += std::min(x, y); hi += std::max(x, y); }
    if (lo < -((i128)1 << (w - 1)) || hi >= ((i128)1 << (w - 1))) return nullptr;
    return mkLin((u128)fd, q, w);
  }
  Expr* sdiv(Expr* a, Expr* b) {
    unsigned w = a->width; if (isC(b) && b->c) { if (isC(a)) { i128 x = sext128(a->c, w), y = sext128(b->c, w); return cst((u128)(x / y), w); } if (b->c == 1) return a;
      if (w <= 64 && a->smin >= 0 && sext128(b->c, w) > 0) return udiv(a, b); }
    if (w <= 64 && a->smin >= 0 && b->smin > 0) return udiv(a, b);
    return bin(E_SDIV, a, b); }
  Expr* urem(Expr* a, Expr* b) {
    unsigned w = a->width; if (isC(b) && b->c) { if (isC(a)) return cst(a->c % b->c, w); if (b->c == 1) return cst(0, w);
      if ((b->c & (b->c - 1)) == 0) return and_(a, cst(b->c - 1, w)); }
    if (w <= 64 && a->umax < b->umin) return a;
    if (isC(b) && b->c) if (Expr* q = divLin(a, b->c, false)) return sub(a, mulc(q, b->c));
    return bin(E_UREM, a, b); }
  Expr* srem(Expr* a, Expr* b) {
    unsigned w = a->width; if (isC(b) && b->c && isC(a)) { i128 x = sext128(a->c, w), y = sext128(b->c, w); return cst((u128)(x % y), w); }
    if (w <= 64 && a->smin >= 0 && b->smin > 0) return urem(a, b);
    return bin(E_SREM, a, b); }
  // --- bitwise
  Expr* not_(Expr* a) { return xor_(a, cst(maskw(a->width), a->width)); }
  Expr* nary(Op op, unsigned w, u128 c, std::vector<Expr*>& k) {
    return intern(op, w, 0, 0, c, k.data(), nullptr, k.size()); }
  static bool byId(Expr* a, Expr* b) { return a->id < b->id; }
  bool isNot(Expr* e, Expr*& x) { if (e->op == E_XOR && e->width == 1 && e->c == 1 && e->nk >= 1) { x = e; return true; } return false; }
  void flat(Op op, Expr* e, u128& c, std::vector<Expr*>& k) {
    if (isC(e)) { if (op == E_AND) c &= e->c; else if (op == E_OR) c |= e->c; else c ^= e->c; return; }
    if (e->op == op) { if (op == E_AND) c &= e->c; else if (op == E_OR) c |= e->c; else c ^= e->c; k.insert(k.end(), e->k, e->k + e->nk); return; }
    k.push_back(e);
  }
  Expr* and_(Expr* a, Expr* b) {
    unsigned w = a->width; if (a == b) return a; u128 M = maskw(w), c = M; std::vector<Expr*> k; flat(E_AND, a, c, k); flat(E_AND, b, c, k);
    if (c == 0) return cst(0, w);
    std::sort(k.begin(), k.end(), byId); k.erase(std::unique(k.begin(), k.end()), k.end());
    if (k.empty()) return cst(c, w);
    if (w == 1) { for (Expr* e : k) { Expr* n = not_(e); if (std::binary_search(k.begin(), k.end(), n, byId)) { for (Expr* f : k) if (f == n) return cst(0, 1); } } }
    if (k.size() == 1) {
      if (c == M) return k[0];
      if (w <= 64) { u128 kz = ~(u128)possible(k[0]) & M; if (((~c & M) & ~kz) == 0) return k[0]; if ((c & ~kz) == 0) return cst(0, w); }
      // contiguous mask -> zext/shift form
      u128 lowm = c & (~c + 1); unsigned sh = 0; while (!((lowm >> sh) & 1)) sh++;
      u128 cc = c >> sh; if ((cc & (cc + 1)) == 0) { unsigned n = 0; while (n < 128 && ((cc >> n) & 1)) n++; Expr* x = extract(k[0], sh, n); return shlc(zext(x, w), sh); }
    }
    if (c == M && k.size() == 2) { // x & ite(p, -1, 0) etc.
      for (int i = 0; i < 2; i++) { Expr* m = k[i]; if (m->op == E_SEXT && m->k[0]->width == 1) return ite(m->k[0], k[1 - i], cst(0, w)); } }
    return nary(E_AND, w, c, k);
  }
  Expr* or_(Expr* a, Expr* b) {
    unsigned w = a->width; if (a == b) return a; u128 M = maskw(w);
    if (w == 1) return not_(and_(not_(a), not_(b)));
    u128 c = 0; std::vector<Expr*> k; flat(E_OR, a, c, k); flat(E_OR, b, c, k);
    for (auto& x : k) if (x->op == E_ITE && isC(x->k[1]) && isC(x->k[2]) && x->k[2]->c == 0 && (x->k[1]->c & (x->k[1]->c - 1)) == 0) x = shlc(zext1(x->k[0], w), ctz(x->k[1]->c));
    if (c == M) return cst(M, w);
    std::sort(k.begin(), k.end(), byId); k.erase(std::unique(k.begin(), k.end()), k.end());
    if (k.empty()) return cst(c, w);
    if (k.size() == 1 && c == 0) return k[0];
    return nary(E_OR, w, c, k);
  }
  Expr* xor_(Expr* a, Expr* b) {
    unsigned w = a->width; if (a == b) return cst(0, w); u128 c = 0; std::vector<Expr*> k; flat(E_XOR, a, c, k); flat(E_XOR, b, c, k);
    std::sort(k.begin(), k.end(), byId); std::vector<Expr*> r; for (size_t i = 0; i < k.size();) { size_t j = i; while (j < k.size() && k[j] == k[i]) j++; if ((j - i) & 1) r.push_back(k[i]); i = j; }
    if (r.empty()) return cst(c, w);
    if (r.size() == 1 && c == 0) return r[0];
    if (r.size() == 1 && c == maskw(w) && w > 1) { // ~x : linear form  -x-1
      if (r[0]->op == E_LIN) return sub(cst(maskw(w), w), r[0]); }
    if (r.size() == 1 && r[0]->op == E_ITE && isC(r[0]->k[1]) && isC(r[0]->k[2])) return ite(r[0]->k[0], cst(r[0]->k[1]->c ^ c, w), cst(r[0]->k[2]->c ^ c, w));
    return nary(E_XOR, w, c, r);
  }
  // mask of bits that may be one (width<=64)
  u64 possible(Expr* e, int d = 0) {
    unsigned w = e->width; u64 M = (u64)maskw(w); if (w > 64) return ~0ull;
    u64 hi = e->umax ? (~0ull >> __builtin_clzll(e->umax)) : 0; u64 r = M & hi;
    if (d > 40) return r;
    switch (e->op) {
      case E_CONST: return (u64)e->c;
      case E_ZEXT: return r & possible(e->k[0], d + 1);
      case E_AND: { u64 m = (u64)e->c; for (unsigned i = 0; i < e->nk; i++) m &= possible(e->k[i], d + 1); return r & m; }
      case E_OR: case E_XOR: { u64 m = (u64)e->c; for (unsigned i = 0; i < e->nk; i++) m |= possible(e->k[i], d + 1); return r & m; }
      case E_ITE: return r & (possible(e->k[1], d + 1) | possible(e->k[2], d + 1));
      case E_LIN: { u128 sum = e->c; u64 low = (u64)e->c; // trailing zeros + disjointness
        u64 seen = (u64)e->c; bool disj = true;
        for (unsigned i = 0; i < e->nk; i++) { u128 cf = e->coef[i]; u64 p = possible(e->k[i], d + 1); u64 m;
          if ((cf & (cf - 1)) == 0) { unsigned s = 0; while (!((cf >> s) & 1)) s++; m = (p << s) & M; if (s >= 64) m = 0; }
          else { disj = false; u64 l = (u64)cf & (~(u64)cf + 1); u64 pl = p & (~p + 1); m = pl && l ? M & ~((l * pl) - 1) : M; if (!p) m = 0; }
          if (seen & m) disj = false; seen |= m; low |= m; if (!disj && i > 64) return r; }
        (void)sum; if (disj) return r & seen; if (!low) return 0; u64 l = low & (~low + 1); return r & ~(l - 1); }
      case E_CONCAT: { u64 m = 0; for (unsigned i = 0; i < e->nk; i++) { m = e->k[i]->width >= 64 ? 0 : m << e->k[i]->width; m |= possible(e->k[i], d + 1); } return r & m; }
      case E_SHL: if (isC(e->k[1]) && e->k[1]->c < 64) return r & (possible(e->k[0], d + 1) << (u64)e->k[1]->c); return r;
      case E_LSHR: if (isC(e->k[1]) && e->k[1]->c < 64) return r & (possible(e->k[0], d + 1) >> (u64)e->k[1]->c); return r;
      default: return r;
    }
  }
  bool disjointLin(Expr* e) { // LIN whose terms never carry: equals OR of shifted terms
    if (e->op != E_LIN || e->width > 64) return false; u64 seen = (u64)e->c; u64 M = (u64)maskw(e->width);
    for (unsigned i = 0; i < e->nk; i++) { u128 cf = e->coef[i]; if (cf & (cf - 1)) return false; unsigned s = 0; while (!((cf >> s) & 1)) s++; u64 m = s >= 64 ? 0 : (possible(e->k[i]) << s) & M; if (seen & m) return false; seen |= m; }
    return true; }
  Expr* shlc(Expr* a, unsigned s) { if (s == 0) return a; if (s >= a->width) return cst(0, a->width); return mulc(a, (u128)1 << s); }
  Expr* shl(Expr* a, Expr* b) { unsigned w = a->width; if (isC(b)) { if (b->c >= w) return cst(0, w); return shlc(a, (unsigned)b->c); }
    if (isC(a) && a->c == 0) return a; return bin(E_SHL, a, b); }
  Expr* lshr(Expr* a, Expr* b) { unsigned w = a->width; if (isC(b)) { if (b->c >= w) return cst(0, w); unsigned s = (unsigned)b->c; if (s == 0) return a; return zext(extract(a, s, w - s), w); }
    if (isC(a) && a->c == 0) return a; return bin(E_LSHR, a, b); }
  Expr* ashr(Expr* a, Expr* b) { unsigned w = a->width; if (isC(b)) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; if (s == 0) return a; if (isC(a)) return cst((u128)(sext128(a->c, w) >> s), w);
      if (a->op == E_LIN && w <= 64 && s < 62) { bool ok = true; i128 lo = sext128(a->c, w), hi = lo; for (unsigned i = 0; i < a->nk && ok; i++) { i128 cs = sext128(a->coef[i], w); if ((a->coef[i] & (((u128)1 << s) - 1)) || cs > ((i128)1 << 50) || cs < -((i128)1 << 50)) ok = false; i128 p = cs * a->k[i]->smin, q = cs * a->k[i]->smax; lo += std::min(p, q); hi += std::max(p, q); }
        if (ok && lo >= -((i128)1 << (w - 1)) && hi <= ((i128)1 << (w - 1)) - 1) { std::vector<Term> t; for (unsigned i = 0; i < a->nk; i++) t.push_back({a->k[i], (u128)(sext128(a->coef[i], w) >> s) & maskw(w)}); return mkLin((u128)(sext128(a->c, w) >> s) & maskw(w), t, w); } }
      if (w <= 64 && a->smin >= 0) return lshr(a, b); return sext(extract(a, s, w - s), w); }
    if (isC(a) && a->c == 0) return a; return bin(E_ASHR, a, b); }
  // --- width changes
  Expr* zext(Expr* a, unsigned w) {
    if (a->width == w) return a; if (isC(a)) return cst(a->c, w);
    if (a->op == E_ZEXT) return zext(a->k[0], w);
    if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], cst(a->k[1]->c, w), cst(a->k[2]->c, w));
    if (a->width == 1 && a->op == E_XOR && a->c == 1) { // 1 - zext(x)
      Expr* x = not_(a); return sub(cst(1, w), zext(x, w)); }
    if (a->op == E_XOR && a->nk == 1 && a->c == 1 && a->width <= 64 && w <= 64 && a->k[0]->umax <= 1) return sub(cst(1, w), zext(a->k[0], w));
    if (a->op == E_LIN && a->width <= 64) { // distribute when exact: coefs as signed ints, range nonneg, no wrap
      i128 lo = (i128)sext128(a->c, a->width), hi = lo; bool ok = true; (void)ok;
      for (unsigned i = 0; i < a->nk; i++) { i128 cs = sext128(a->coef[i], a->width); i128 x = cs * (i128)a->k[i]->umin, y = cs * (i128)a->k[i]->umax; lo += std::min(x, y); hi += std::max(x, y); if (hi > ((i128)1 << 100) || lo < -((i128)1 << 100)) return raw1(E_ZEXT, a, w); }
      if (lo >= 0 && hi <= (i128)maskw(a->width)) { std::vector<Term> t; u128 c0 = (u128)sext128(a->c, a->width) & maskw(w);
        for (unsigned i = 0; i < a->nk; i++) linTerms(zext(a->k[i], w), (u128)sext128(a->coef[i], a->width) & maskw(w), c0, t, w); return mkLin(c0, t, w); }
      // try treating unsigned coefficients
      lo = hi = (i128)a->c; for (unsigned i = 0; i < a->nk; i++) { if (a->coef[i] > ((u128)1 << 36)) return raw1(E_ZEXT, a, w); hi += (i128)a->coef[i] * (i128)a->k[i]->umax; if (hi > ((i128)1 << 100)) return raw1(E_ZEXT, a, w); }
      if (hi <= (i128)maskw(a->width)) { std::vector<Term> t; u128 c0 = a->c; for (unsigned i = 0; i < a->nk; i++) linTerms(zext(a->k[i], w), a->coef[i], c0, t, w); return mkLin(c0, t, w); }
    }
    return raw1(E_ZEXT, a, w);
  }
  Expr* raw1(Op op, Expr* a, unsigned w) { return intern(op, w, 0, 0, 0, &a, nullptr, 1); }
  Expr* sext(Expr* a, unsigned w) {
    if (a->width == w) return a; if (isC(a)) return cst((u128)sext128(a->c, a->width), w);
    if (a->op == E_SEXT) return sext(a->k[0], w);
    if (a->width <= 64 && a->width > 1 && a->smin >= 0) return zext(a, w);
    if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], cst((u128)sext128(a->k[1]->c, a->width), w), cst((u128)sext128(a->k[2]->c, a->width), w));
    if (a->op == E_ITE && w <= 64 && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    if (a->width == 1) return mulc(zext(a, w), maskw(w));
    if (a->op == E_LIN && a->width <= 64) {
      i128 lo = sext128(a->c, a->width), hi = lo;
      for (unsigned i = 0; i < a->nk; i++) { i128 cs = sext128(a->coef[i], a->width); i128 x = cs * a->k[i]->smin, y = cs * a->k[i]->smax; lo += std::min(x, y); hi += std::max(x, y); if (hi > ((i128)1 << 100) || lo < -((i128)1 << 100)) return raw1(E_SEXT, a, w); }
      i128 h = (i128)1 << (a->width - 1);
      if (lo >= -h && hi < h) { std::vector<Term> t; u128 c0 = (u128)sext128(a->c, a->width) & maskw(w);
        for (unsigned i = 0; i < a->nk; i++) linTerms(sext(a->k[i], w), (u128)sext128(a->coef[i], a->width) & maskw(w), c0, t, w); return mkLin(c0, t, w); } }
    if (a->op == E_MUL && a->width <= 64 && w <= 64) { Expr *x = a->k[0], *y = a->k[1]; i128 c[4] = {(i128)x->smin * y->smin, (i128)x->smin * y->smax, (i128)x->smax * y->smin, (i128)x->smax * y->smax}; i128 h = (i128)1 << (a->width - 1); if (*std::min_element(c, c + 4) >= -h && *std::max_element(c, c + 4) < h) return mul(sext(x, w), sext(y, w)); }
    return raw1(E_SEXT, a, w);
  }
  Expr* trunc(Expr* a, unsigned w) { return extract(a, 0, w); }
  Expr* extract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->width) return a;
    if (isC(a)) return cst(a->c >> lo, w);
    if (a->op == E_SYM) return intern(E_EXTRACT, w, lo, 0, 0, &a, nullptr, 1);
    if (a->width <= 64 && lo < 64 && (a->umax >> lo) == 0) return cst(0, w);
    MemoKey mk{a, lo, w}; auto it = exmemo.find(mk); if (it != exmemo.end()) return it->second;
    Expr* r = extract_(a, lo, w); exmemo.emplace(mk, r); return r;
  }
  Expr* extract_(Expr* a, unsigned lo, unsigned w) {
    switch (a->op) {
      case E_EXTRACT: return extract(a->k[0], lo + a->aux, w);
      case E_CONCAT: { std::vector<Expr*> parts; unsigned pos = 0; // low to high
        for (int i = a->nk - 1; i >= 0; i--) { unsigned kw = a->k[i]->width; unsigned s = std::max(lo, pos), e = std::min(lo + w, pos + kw); if (s < e) parts.push_back(extract(a->k[i], s - pos, e - s)); pos += kw; }
        Expr* r = parts[0]; for (size_t i = 1; i < parts.size(); i++) r = concat(parts[i], r); return r; }
      case E_ZEXT: { Expr* x = a->k[0]; if (lo >= x->width) return cst(0, w); if (lo + w <= x->width) return extract(x, lo, w); return zext(extract(x, lo, x->width - lo), w); }
      case E_SEXT: { Expr* x = a->k[0]; if (lo + w <= x->width) return extract(x, lo, w); if (lo >= x->width) return sext(extract(x, x->width - 1, 1), w); return sext(extract(x, lo, x->width - lo), w); }
      case E_AND: case E_OR: case E_XOR: { Expr* r = cst(a->c >> lo, w); 
        for (unsigned i = 0; i < a->nk; i++) { Expr* x = extract(a->k[i], lo, w); r = a->op == E_AND ? and_(r, x) : a->op == E_OR ? or_(r, x) : xor_(r, x); } return r; }
      case E_ITE: return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
      case E_LIN: {
        if (lo == 0) { std::vector<Term> t; u128 c0 = a->c & maskw(w); for (unsigned i = 0; i < a->nk; i++) { if ((a->coef[i] & maskw(w)) == 0) continue; linTerms(extract(a->k[i], 0, w), a->coef[i] & maskw(w), c0, t, w); } return mkLin(c0, t, w); }
        if (disjointLin(a)) { // no carries
          Expr* r = cst(a->c >> lo, w);
          for (unsigned i = 0; i < a->nk; i++) { unsigned s = 0; while (!((a->coef[i] >> s) & 1)) s++;
            Expr* x = a->k[i]; // bits [s, s+xw) of the sum hold x
            unsigned xw = x->width; // truncated at a->width
            unsigned b = std::max(lo, s), e = std::min(lo + w, std::min<unsigned>(s + xw, a->width)); if (b >= e) continue;
            Expr* y = extract(x, b - s, e - b); r = or_(r, shlc(zext(y, w), b - lo)); }
          return r; }
        break; }
      case E_MUL: if (lo == 0) return mul(extract(a->k[0], 0, w), extract(a->k[1], 0, w)); break;
      default: break;
    }
    return intern(E_EXTRACT, w, lo, 0, 0, &a, nullptr, 1);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->width + lo->width;
    if (isC(hi) && isC(lo)) return cst((hi->c << lo->width) | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    // adjacent extracts
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width) return extract(hi->k[0], lo->aux, w);
    if (lo->op == E_CONCAT) { Expr* l0 = lo->k[0]; if (hi->op == E_EXTRACT && l0->op == E_EXTRACT && hi->k[0] == l0->k[0] && hi->aux == l0->aux + l0->width) {
        Expr* m = extract(hi->k[0], l0->aux, hi->width + l0->width); std::vector<Expr*> k; k.push_back(m); k.insert(k.end(), lo->k + 1, lo->k + lo->nk); if (k.size() == 1) return m; return intern(E_CONCAT, w, 0, 0, 0, k.data(), nullptr, k.size()); } }
    std::vector<Expr*> k; if (hi->op == E_CONCAT) k.insert(k.end(), hi->k, hi->k + hi->nk); else k.push_back(hi);
    if (lo->op == E_CONCAT) k.insert(k.end(), lo->k, lo->k + lo->nk); else k.push_back(lo);
    return intern(E_CONCAT, w, 0, 0, 0, k.data(), nullptr, k.size());
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c ? a : b; if (a == b) return a;
    if (c->op == E_XOR && c->c == 1 && c->width == 1) { Expr* n = not_(c); return ite(n, b, a); }
    unsigned w = a->width;
    if (w == 1) { if (isC(a) && isC(b)) return a->c ? c : not_(c); if (isC(a)) return a->c ? or_(c, b) : and_(not_(c), b); if (isC(b)) return b->c ? or_(not_(c), a) : and_(c, a);
      if (a == not_(b)) return xor_(c, b); if (a == c) return or_(c, b); if (b == c) return and_(c, a); }
    else if (isC(a) && isC(b)) { if (b->c == 0 && a->c == 1) return zext1(c, w); if (a->c == 0 && b->c == 1) return sub(cst(1, w), zext1(c, w)); if (b->c == 0 && (a->c & (a->c - 1)) == 0 && w <= 64 && w != 32 && w != 64) return shlc(zext1(c, w), ctz(a->c)); }
    if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
    if (w > 1 && w <= 64) { // the condition's own bit inside the branches is known
      auto known = [&](Expr* e, bool v) -> Expr* { if (e->op == E_ZEXT && e->k[0] == c) return cst(v, w); if (e->op != E_LIN) return e; for (unsigned i = 0; i < e->nk; i++) if (e->k[i]->op == E_ZEXT && e->k[i]->k[0] == c) return add(sub(e, mulc(e->k[i], e->coef[i])), cst(v ? e->coef[i] : 0, w)); return e; };
      a = known(a, true); b = known(b, false); }
    if (a == b) return a;
    // clamps that cannot bind: one branch pins L to a single value v, where the constant branch agrees with the affine one
    if (w <= 64 && (isC(a) != isC(b))) { Expr* L = nullptr; i128 C = 0; if (c->op == E_SLT && isC(c->k[1])) { L = c->k[0]; C = sext128(c->k[1]->c, L->width); } else if (c->op == E_EXTRACT && c->width == 1 && c->k[0]->width <= 64 && c->aux == c->k[0]->width - 1) { L = c->k[0]; C = 0; }
      if (L && L->width == w) { Expr* aff = isC(a) ? b : a; Expr* con = isC(a) ? a : b; bool onTrue = isC(a); i128 v = 0; bool pin = false; if (onTrue && (i128)L->smin == C - 1) { v = C - 1; pin = true; } if (!onTrue && (i128)L->smax == C) { v = C; pin = true; }
        if (pin) { Expr* z = sub(L, cst((u128)v, w)); Expr* d = sub(aff, con); if (z == d) return aff; u128 kf = 0; Expr* t0 = z->op == E_LIN ? z->k[0] : z; u128 zc = z->op == E_LIN ? z->coef[0] : 1; if (d->op == E_LIN) for (unsigned i = 0; i < d->nk; i++) if (d->k[i] == t0) { i128 q = sext128(d->coef[i], w), r = sext128(zc, w); if (r && q % r == 0) kf = (u128)(q / r) & maskw(w); } if (kf && mulc(z, kf) == d) return aff; } } }
    if (w <= 64 && isC(a) != isC(b)) { Expr* L = isC(a) ? b : a; Expr* K = isC(a) ? a : b; u128 c0, g; Expr* P;
      (void)c0; (void)g; (void)P; i128 kv = sext128(K->c, w), H = (i128)1 << (w - 1);
      if (w >= 8 && L->op == E_LIN && (i128)L->smin - kv >= -(H - 1) && (i128)L->smax - kv <= H - 1) { Expr* D = sub(L, K); // K + g*ite(c, (L-K)/g, 0)
        if (D->op == E_LIN && D->smin >= -(i64)(H - 1)) { i128 d = sext128(D->c, w); if (d < 0) d = -d; bool ok = true; i128 lo = sext128(D->c, w), hi = lo; for (unsigned i = 0; i < D->nk && ok; i++) { i128 x = sext128(D->coef[i], w); if (x > ((i128)1 << 40) || x < -((i128)1 << 40)) ok = false; i128 p = x * D->k[i]->smin, q = x * D->k[i]->smax; lo += std::min(p, q); hi += std::max(p, q); if (x < 0) x = -x; while (x) { i128 t = d % x; d = x; x = t; } }
          if (ok && d && lo > -H && hi < H) { if (sext128(D->coef[0], w) < 0) d = -d; if (d != 1 || K->c) { std::vector<Term> t; for (unsigned i = 0; i < D->nk; i++) t.push_back({D->k[i], (u128)(sext128(D->coef[i], w) / d) & maskw(w)}); Expr* Q = mkLin((u128)(sext128(D->c, w) / d) & maskw(w), t, w); Expr* z = cst(0, w); return add(mulc(ite(c, isC(a) ? z : Q, isC(a) ? Q : z), (u128)d & maskw(w)), K); } } } }
      // a branch that is zero at X = C-1 may move the boundary down: X < C ? X-(C-1) : 0   =   X < C-1 ? X-(C-1) : 0
      if (K->c == 0 && c->op == E_SLT && isC(c->k[1]) && c->k[0]->width <= 64 && c->k[0]->smin > INT64_MIN / 2) { Expr* X = c->k[0]; i128 C = sext128(c->k[1]->c, X->width); Expr* D = L; std::unordered_map<Expr*, i128> m; auto base = [](Expr* e) { while (e->op == E_SEXT || e->op == E_ZEXT) e = e->k[0]; return e; };
        if (D->op == E_LIN && sext128(D->c, w) == -(C - 1) && (X->op == E_LIN ? X->nk == D->nk && X->c == 0 : D->nk == 1)) { bool ok = true; i128 lo = 0, hi = 0; for (unsigned i = 0; i < D->nk; i++) { i128 q = sext128(D->coef[i], w); if (q > ((i128)1 << 40) || q < -((i128)1 << 40)) { ok = false; break; } i128 p1 = q * D->k[i]->smin, p2 = q * D->k[i]->smax; lo += std::min(p1, p2); hi += std::max(p1, p2); m[base(D->k[i])] = q; }
          if (ok && m.size() == D->nk) { i128 H1 = (i128)1 << (w - 1), H2 = (i128)1 << (X->width - 1); if (lo < -H1 || hi >= H1 || lo < -H2 || hi >= H2) ok = false; for (unsigned i = 0; i < (X->op == E_LIN ? X->nk : 1u) && ok; i++) { Expr* xt = X->op == E_LIN ? X->k[i] : X; i128 xc = X->op == E_LIN ? sext128(X->coef[i], X->width) : 1; auto f = m.find(base(xt)); Expr* dt = nullptr; if (f == m.end() || f->second != xc) { ok = false; break; } for (unsigned j = 0; j < D->nk; j++) if (base(D->k[j]) == base(xt)) dt = D->k[j]; if (dt->smin != xt->smin || dt->smax != xt->smax) ok = false; if (dt != xt && dt->smin < 0 && !((dt->op == E_SEXT || dt == base(xt)) && (xt->op == E_SEXT || xt == base(xt)))) ok = false; if (dt != xt && xt->op != E_ZEXT && dt->op == E_ZEXT && xt->smin < 0) ok = false; }
            if (ok) { Expr* n = slt(X, cst((u128)(C - 1), X->width)); return ite(n, a, b); } } } }
      // x < k+1 ? x : k   =  x < k ? x : k      and   x < k ? k : x  stays
      if (c->op == E_SLT && isC(c->k[1]) && c->k[0] == L && isC(b)) { i128 C = sext128(c->k[1]->c, w); if (C == sext128(K->c, w) + 1) { Expr* n = slt(L, K); return ite(n, a, b); } }
      if (c->op == E_SLT && isC(c->k[1]) && c->k[0] == L && isC(a)) { i128 C = sext128(c->k[1]->c, w); if (C == sext128(K->c, w) + 1) { Expr* n = slt(L, K); return ite(n, a, b); } } }
    Expr* k[3] = {c, a, b}; return intern(E_ITE, w, 0, 0, 0, k, nullptr, 3);
  }
  static unsigned ctz(u128 v) { unsigned s = 0; while (!((v >> s) & 1)) s++; return s; }
  Expr* zext1(Expr* c, unsigned w) { return raw1(E_ZEXT, c, w); }
  // --- comparisons
  Expr* eq(Expr* a, Expr* b) {
    if (a == b) return tru(); unsigned w = a->width;
    if (isC(a) && isC(b)) return cst(a->c == b->c, 1);
    if (w == 1) return not_(xor_(a, b));
    if (w <= 64 && (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin)) return fls();
    if (isC(a)) std::swap(a, b);
    if ((w == 32 || w == 64) && (a->op == E_SI2F || a->op == E_FMUL || b->op == E_SI2F || b->op == E_FMUL || (a->op == E_ITE && a->hasfp) || (b->op == E_ITE && b->hasfp))) { Dy x, y; if (dyOf(a, w, x) && dyOf(b, w, y) && dyAlign(x, y, w)) return eq(x.i, y.i); }
    if (a->op == E_LIN || b->op == E_LIN) { Expr* d = sub(a, b); if (isC(d)) return cst(d->c == 0, 1); if (w <= 64 && (d->umin > 0)) return fls(); if (w <= 64 && (d->smin > 0 || d->smax < 0)) return fls();
      // parity-like: gcd power of two of the coefficients does not divide the constant
      if (d->op == E_LIN) { u128 g = 0; for (unsigned i = 0; i < d->nk; i++) g |= d->coef[i]; u128 l = g & (~g + 1); if (d->c & (l - 1)) return fls();
        // single boolean term
        if (d->nk == 1 && d->k[0]->op == E_ZEXT && d->k[0]->k[0]->width == 1) { u128 v1 = (d->c + d->coef[0]) & maskw(w); bool z0 = d->c == 0, z1 = v1 == 0; Expr* p = d->k[0]->k[0]; if (z0 && z1) return tru(); if (!z0 && !z1) return fls(); return z1 ? p : not_(p); }
        if (d->nk == 1 && w <= 64) { i128 g = sext128(d->coef[0], w), c = sext128(d->c, w); Expr* t = d->k[0]; i128 p = g * t->smin, q = g * t->smax; i128 H = (i128)1 << (w - 1); i128 mn = std::min(p, q) + c, mx = std::max(p, q) + c; if (g > -((i128)1 << 50) && g < ((i128)1 << 50) && g != 1 && mn > -H && mx < H) { if (c % g) return fls(); return eq(t, cst((u128)(-c / g), w)); } }
        // canonical sign: make it lhs == 0 with the first coefficient "positive"
        i128 f = sext128(d->coef[0], w); if (f < 0) d = mulc(d, maskw(w));
        if (d->op != E_LIN) { a = d; b = cst(0, w); }
        else if (d->nk == 1 && d->coef[0] == 1) { a = d->k[0]; b = cst(~d->c + 1, w); }
        else { a = d; b = cst(0, w); } }
      else { a = d; b = cst(0, w); } }
    if (isC(b)) {
      if (a->op == E_ZEXT) { Expr* x = a->k[0]; if (b->c > maskw(x->width)) return fls(); return eq(x, cst(b->c, x->width)); }
      if (a->op == E_SEXT) { Expr* x = a->k[0]; if (cst((u128)sext128(b->c & maskw(x->width), x->width), w) != b) return fls(); return eq(x, cst(b->c, x->width)); }
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
      if (a->op == E_XOR && a->c) { u128 c = a->c; Expr* x = xor_(a, cst(c, w)); return eq(x, cst(b->c ^ c, w)); }
      if (a->op == E_CONCAT) { Expr* r = tru(); unsigned pos = 0; for (int i = a->nk - 1; i >= 0; i--) { unsigned kw = a->k[i]->width; r = and_(r, eq(a->k[i], cst(b->c >> pos, kw))); pos += kw; } return r; }
      if (w == 1) return b->c ? a : not_(a);
    } else if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->width == b->k[0]->width) return eq(a->k[0], b->k[0]);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    Expr* k[2] = {a, b}; return intern(E_EQ, 1, 0, 0, 0, k, nullptr, 2);
  }
  Expr* ult(Expr* a, Expr* b) {
    if (a == b) return fls(); unsigned w = a->width; if (isC(a) && isC(b)) return cst(a->c < b->c, 1);
    if (w <= 64) { if (a->umax < b->umin) return tru(); if (a->umin >= b->umax) return fls(); }
    if (isC(b) && b->c == 1) return eq(a, cst(0, w));
    if (isC(a) && a->c == 0) return not_(eq(b, cst(0, w)));
    if (w == 1) return and_(not_(a), b);
    if (w <= 64 && a->smin >= 0 && b->smin >= 0) return slt(a, b);
    if (a->op == E_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], ult(a->k[1], b), ult(a->k[2], b));
    Expr* k[2] = {a, b}; return intern(E_ULT, 1, 0, 0, 0, k, nullptr, 2);
  }
  Expr* slt(Expr* a, Expr* b) {
    if (a == b) return fls(); unsigned w = a->width; if (isC(a) && isC(b)) return cst(sext128(a->c, w) < sext128(b->c, w), 1);
    if (w <= 64) { if (a->smax < b->smin) return tru(); if (a->smin >= b->smax) return fls(); }
    if (isC(b) && b->c == 0 && a->op != E_LIN) return extract(a, w - 1, 1);
    if (isC(a) && a->c == maskw(w) && b->op != E_LIN) return not_(extract(b, w - 1, 1));
    if (w <= 64 && (a->op == E_LIN || b->op == E_LIN)) { // difference without overflow
      if ((a->smin > INT64_MIN / 4 && a->smax < INT64_MAX / 4 && b->smin > INT64_MIN / 4 && b->smax < INT64_MAX / 4)) {
        i64 lo = a->smin - b->smax, hi = a->smax - b->smin; i64 H = (i64)(maskw(w) >> 1);
        if (lo >= -H && hi <= H) { Expr* d = sub(a, b); if (isC(d)) return cst(sext128(d->c, w) < 0, 1); if (d->smax < 0) return tru(); if (d->smin >= 0) return fls();
          // canonicalise: linpart < -const
          if (d->op == E_LIN) { i128 c0 = sext128(d->c, w); Expr* l = sub(d, cst(d->c, w)); i128 k = -c0; i128 dlo = std::max(lo, d->smin), dhi = std::min(hi, d->smax); bool lokay = dlo - c0 >= -(i128)H && dhi - c0 <= (i128)H && l->smin > INT64_MIN / 4 && l->smax < INT64_MAX / 4 && k > -(i128)H && k < (i128)H && l->smin >= -H && l->smax <= H;
            // also divide by gcd
            if (lokay && l->op == E_LIN) { i128 g = 0; for (unsigned i = 0; i < l->nk; i++) { i128 x = sext128(l->coef[i], w); if (x < 0) x = -x; while (x) { i128 t = g % x; g = x; x = t; } }
              i128 L = 0, Hh = 0; bool fit = true; for (unsigned i = 0; i < l->nk; i++) { i128 cs = sext128(l->coef[i], w); i128 p = cs * l->k[i]->smin, q = cs * l->k[i]->smax; L += std::min(p, q); Hh += std::max(p, q); } if (L < -(i128)H || Hh > (i128)H) fit = false;
              if (g > 1 && fit) { std::vector<Term> t; for (unsigned i = 0; i < l->nk; i++) t.push_back({l->k[i], (u128)(sext128(l->coef[i], w) / g) & maskw(w)}); i128 kk = k >= 0 ? (k + g - 1) / g : -((-k) / g); // l/g < k/g  <=> l' < ceil(k/g)
                l = mkLin(0, t, w); k = kk; }
              // sign canonical: first coef positive;  -m < k  <=>  m > -k <=> not(m < 1-k)
              if (l->op == E_LIN && sext128(l->coef[0], w) < 0) { Expr* m = mulc(l, maskw(w)); if (m->smin >= -H && m->smax <= H) return not_(sltRaw(m, cst((u128)(1 - k), w))); }
              return sltRaw(l, cst((u128)k, w)); }
            if (lokay) return sltRaw(l, cst((u128)k, w)); } } } }
    if (isC(a) && a->c == maskw(w)) return not_(extract(b, w - 1, 1));
    return sltRaw(a, b);
  }
  // L = c0 + g*P with P primitive (first coefficient positive), for a LIN without wrap-around; null if L is already primitive
  bool primitive(Expr* e, u128& c0, u128& g, Expr*& P) { unsigned w = e->width; if (e->op != E_LIN || w > 64 || w < 8) return false; i128 d = 0; i128 lo = sext128(e->c, w), hi = lo, plo = 0, phi = 0;
    for (unsigned i = 0; i < e->nk; i++) { i128 x = sext128(e->coef[i], w); if (x > ((i128)1 << 40) || x < -((i128)1 << 40)) return false; i128 p = x * e->k[i]->smin, q = x * e->k[i]->smax; plo += std::min(p, q); phi += std::max(p, q); if (x < 0) x = -x; while (x) { i128 t = d % x; d = x; x = t; } }
    lo += plo; hi += phi; i128 H = ((i128)1 << (w - 1)) - 1; if (lo < -H || hi > H || plo < -H || phi > H) return false; if (sext128(e->coef[0], w) < 0) d = -d; if (d == 1 && e->c == 0) return false;
    std::vector<Term> t; for (unsigned i = 0; i < e->nk; i++) t.push_back({e->k[i], (u128)(sext128(e->coef[i], w) / d) & maskw(w)}); c0 = e->c; g = (u128)d & maskw(w); P = mkLin(0, t, w); return true; }
  Expr* sltRaw(Expr* a, Expr* b) { unsigned w = a->width; if (w <= 64) { if (a->smax < b->smin) return tru(); if (a->smin >= b->smax) return fls(); }
    if (isC(b) && b->c == 0) return extract(a, w - 1, 1);
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->width == b->k[0]->width) return slt(a->k[0], b->k[0]);
    if (a->op == E_SEXT && isC(b)) { Expr* x = a->k[0]; return slt(x, cst(b->c, x->width)); } // range check above guarantees b fits
    if (b->op == E_SEXT && isC(a)) { Expr* x = b->k[0]; return slt(cst(a->c, x->width), x); }
    if (a->op == E_ZEXT && isC(b)) { Expr* x = a->k[0]; return ult(x, cst(b->c, x->width)); }
    if (b->op == E_ZEXT && isC(a)) { Expr* x = b->k[0]; return ult(cst(a->c, x->width), x); }
    if (a->op == E_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], slt(a->k[1], b), slt(a->k[2], b));
    // x < c  ==> not( c-1 < x )  : canonical constant on the right only
    if (isC(a)) { Expr* c1 = cst(a->c + 1, w); return not_(sltRaw(b, c1)); } // a<b <=> !(b < a+1); a!=MAX as range check failed
    Expr* k[2] = {a, b}; return intern(E_SLT, 1, 0, 0, 0, k, nullptr, 2); }
  Expr* ule(Expr* a, Expr* b) { return not_(ult(b, a)); }
  Expr* sle(Expr* a, Expr* b) { return not_(slt(b, a)); }
  Expr* popcount(Expr* a) { unsigned w = a->width; std::vector<Term> t; u128 c0 = 0; for (unsigned i = 0; i < w; i++) { Expr* b = zext(extract(a, i, 1), w); linTerms(b, 1, c0, t, w); } return mkLin(c0, t, w); }
  // --- floating point
  static double asD(u64 b, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
  static float asF(u64 b) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; }
  static u64 bitsF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
  static u64 bitsD(double f) { u64 x; memcpy(&x, &f, 8); return x; }
  static u64 fbits(double d, unsigned w) { return w == 32 ? bitsF((float)d) : bitsD(d); }
  static u128 evalFP(Op op, unsigned w, unsigned aux, unsigned aux2, u128 a0, u128 b0, u128 c0) {
    u64 a = (u64)a0, b = (u64)b0;
    switch (op) {
      case E_FADD: return w == 32 ? bitsF(asF(a) + asF(b)) : bitsD(asD(a, 64) + asD(b, 64));
      case E_FMUL: return w == 32 ? bitsF(asF(a) * asF(b)) : bitsD(asD(a, 64) * asD(b, 64));
      case E_FDIV: return w == 32 ? bitsF(asF(a) / asF(b)) : bitsD(asD(a, 64) / asD(b, 64));
      case E_FREM: return w == 32 ? bitsF(fmodf(asF(a), asF(b))) : bitsD(fmod(asD(a, 64), asD(b, 64)));
      case E_FSQRT: return w == 32 ? bitsF(sqrtf(asF(a))) : bitsD(sqrt(asD(a, 64)));
      case E_FMA: return w == 32 ? bitsF(fmaf(asF(a), asF(b), asF((u64)c0))) : bitsD(fma(asD(a, 64), asD(b, 64), asD((u64)c0, 64)));
      case E_FEQ: return asD(a, aux) == asD(b, aux);
      case E_FLT: return asD(a, aux) < asD(b, aux);
      case E_FLE: return asD(a, aux) <= asD(b, aux);
      case E_FUNO: return std::isnan(asD(a, aux)) || std::isnan(asD(b, aux));
      case E_F2SI: { double d = asD(a, aux); unsigned cw = w <= 32 ? 32 : 64; double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0; double t = ::trunc(d);
        u64 r; if (!(t >= -lim && t < lim)) r = cw == 32 ? 0x80000000ull : 0x8000000000000000ull; else r = (u64)(i64)t; return (u128)r & maskw(w); }
      case E_F2UI: { double d = asD(a, aux); double t = ::trunc(d); u64 r; if (t >= 18446744073709551616.0 || t != t) r = 0x8000000000000000ull; else if (t < 0) r = t < -9223372036854775808.0 ? 0x8000000000000000ull : (u64)(i64)t; else r = (u64)t; return (u128)r & maskw(w); }
      case E_SI2F: { i64 v = sext64(a, aux); return w == 32 ? bitsF((float)v) : bitsD((double)v); }
      case E_UI2F: { u64 v = a; return w == 32 ? bitsF((float)v) : bitsD((double)v); }
      case E_FEXT: return bitsD((double)asF(a));
      case E_FTRUNC: return bitsF((float)asD(a, 64));
      case E_FROUND: { double d = asD(a, w), r; switch (aux2) { case RM_FLOOR: r = floor(d); break; case RM_CEIL: r = ceil(d); break; case RM_TRUNC: r = ::trunc(d); break; case RM_RINT: r = nearbyint(d); break; default: r = round(d); } return fbits(r, w); }
      default: abort();
    }
  }
  bool small24(Expr* e, unsigned w) { i64 L = w == 32 ? (1 << 24) : (1ll << 53); return e->width <= 64 && e->smin >= -L && e->smax <= L; }
  // integer view of a float expression: returns integer expr (width 64) if e == SI2F(int) exactly with small range (never -0)
  Expr* intOf(Expr* e, unsigned w) {
    if (e->op == E_SI2F && small24(e->k[0], w)) return sext(e->k[0], 64);
    if (e->op == E_CONST) { double d = asD((u64)e->c, w); i64 L = w == 32 ? (1 << 24) : (1ll << 53); if (d == d && std::fabs(d) <= (double)L && d == std::floor(d) && !(d == 0 && std::signbit(d))) return cst((u64)(i64)d, 64); }
    if (e->op == E_ITE) { Expr* a = intOf(e->k[1], w); if (!a) return nullptr; Expr* b = intOf(e->k[2], w); if (!b) return nullptr; return ite(e->k[0], a, b); }
    return nullptr;
  }
  // dyadic view: e == i * 2^-s exactly, never -0 (i is 64 bits wide and small enough that everything below is exact)
  struct Dy { Expr* i; int s; };
  static constexpr int DYMAX = 20;
  bool dyConst(u64 bits, unsigned w, Dy& d) { double v = asD(bits, w); if (!(v == v) || (v == 0 && std::signbit(v))) return false; double L = w == 32 ? (double)(1 << 24) : (double)(1ll << 53); for (int q = 0; q <= DYMAX; q++) { double t = std::ldexp(v, q); if (std::fabs(t) > L) return false; if (t == std::floor(t)) { d.i = cst((u64)(i64)t, 64); d.s = q; return true; } } return false; }
  bool pow2Neg(Expr* e, unsigned w, int& s) { if (e->op != E_CONST) return false; double v = asD((u64)e->c, w); for (int q = 1; q <= DYMAX; q++) if (v == std::ldexp(1.0, -q)) { s = q; return true; } return false; }
  Expr* shl64(Expr* i, int n) { return n ? mul(i, cst(1ull << n, 64)) : i; }
  bool dyOf(Expr* e, unsigned w, Dy& d, int depth = 0) {
    if (e->op == E_SI2F && small24(e->k[0], w)) { d.i = sext(e->k[0], 64); d.s = 0; return true; }
    if (e->op == E_CONST) return dyConst((u64)e->c, w, d);
    if (e->op == E_FMUL) { for (int q = 0; q < 2; q++) { int sh; if (pow2Neg(e->k[1 - q], w, sh) && e->k[q]->op == E_SI2F && small24(e->k[q]->k[0], w)) { d.i = sext(e->k[q]->k[0], 64); d.s = sh; return true; } } return false; }
    if (e->op == E_ITE && depth < 12) { Dy a, b; if (!dyOf(e->k[1], w, a, depth + 1) || !dyOf(e->k[2], w, b, depth + 1)) return false; if (!dyAlign(a, b, w)) return false; d.i = ite(e->k[0], a.i, b.i); d.s = a.s; return true; }
    return false; }
  bool dyAlign(Dy& a, Dy& b, unsigned w) { int m = std::max(a.s, b.s); Expr* x = shl64(a.i, m - a.s); Expr* y = shl64(b.i, m - b.s); if (!small24(x, w) || !small24(y, w)) return false; a.i = x; b.i = y; a.s = b.s = m; return true; }
  // product view: like dyOf but the value may be -0 when i == 0
  bool dyProd(Expr* e, unsigned w, Dy& d, int depth = 0) {
    if (dyOf(e, w, d)) return true;
    if (e->op == E_CONST && e->c == ((u128)1 << (w - 1))) { d.i = cst(0, 64); d.s = 0; return true; }
    if (depth > 6) return false;
    if (e->op == E_FMUL) { Dy a, b; if (dyProd(e->k[0], w, a, depth + 1) && dyProd(e->k[1], w, b, depth + 1) && a.s + b.s <= DYMAX) { Expr* r = mul(a.i, b.i); if (small24(r, w)) { d.i = r; d.s = a.s + b.s; return true; } } return false; }
    if (e->op == E_FEXT || e->op == E_FTRUNC) { unsigned ww = e->k[0]->width; if (!dyProd(e->k[0], ww, d, depth + 1)) return false; return small24(d.i, w); }
    if (e->op == E_XOR && e->nk == 1 && e->c == ((u128)1 << (w - 1))) { Dy a; if (dyProd(e->k[0], w, a, depth + 1)) { d.i = sub(cst(0, 64), a.i); d.s = a.s; return true; } }
    return false; }
  bool evenLin(Expr* e) { if (e->op == E_CONST) return !(e->c & 1); if (e->op == E_LIN) { if (e->c & 1) return false; for (unsigned q = 0; q < e->nk; q++) if (e->coef[q] & 1) return false; return true; } if (e->op == E_ITE) return evenLin(e->k[1]) && evenLin(e->k[2]); return false; }
  Expr* halfLin(Expr* e) { if (e->op == E_CONST) return cst((u64)(sext64((u64)e->c, 64) >> 1), 64); if (e->op == E_LIN) { Expr* r = cst((u64)(sext64((u64)e->c, 64) >> 1), 64); for (unsigned q = 0; q < e->nk; q++) r = add(r, mul(e->k[q], cst((u64)(sext64((u64)e->coef[q], 64) >> 1), 64))); return r; } return ite(e->k[0], halfLin(e->k[1]), halfLin(e->k[2])); }
  Expr* mkDy(Dy d, unsigned w) { while (d.s > 0 && evenLin(d.i)) { Expr* h = halfLin(d.i); if (!(small24(h, w) && h->smin >= -(1ll << 53) )) break; d.i = h; d.s--; }
    if (isC(d.i)) { double v = std::ldexp((double)sext64((u64)d.i->c, 64), -d.s); return cst(fbits(v, w), w); }
    Expr* f = si2fw(d.i, w); if (!d.s) return f; Expr* k = cst(fbits(std::ldexp(1.0, -d.s), w), w); Expr *x = f, *y = k; if (x->id > y->id) std::swap(x, y); return fpRaw(E_FMUL, w, w, 0, x, y, nullptr); }
  Expr* si2fw(Expr* i, unsigned w) { // i width 64 -> narrow to 32 when possible for canonical form
    if (i->smin >= INT32_MIN && i->smax <= INT32_MAX) i = extract(i, 0, 32);
    return fp(E_SI2F, w, 32 <= i->width ? i->width : i->width, 0, i); }
  bool iteConst(Expr* e) { return e->op == E_ITE && ((isC(e->k[1]) || iteConst(e->k[1])) && (isC(e->k[2]) || iteConst(e->k[2]))); }
  Expr* fp(Op op, unsigned w, unsigned aux, unsigned aux2, Expr* a, Expr* b = nullptr, Expr* c = nullptr) {
    if (isC(a) && (!b || isC(b)) && (!c || isC(c))) return cst(evalFP(op, w, aux, aux2, a->c, b ? b->c : 0, c ? c->c : 0), w);
    unsigned fw = (op == E_FEQ || op == E_FLT || op == E_FLE || op == E_FUNO) ? aux : w;
    if (!c) {
      if (iteConst(a) && (!b || isC(b))) return ite(a->k[0], fp(op, w, aux, aux2, a->k[1], b), fp(op, w, aux, aux2, a->k[2], b));
      if (b && iteConst(b) && isC(a)) return ite(b->k[0], fp(op, w, aux, aux2, a, b->k[1]), fp(op, w, aux, aux2, a, b->k[2]));
    }
    switch (op) {
      case E_FADD: {
        if (isC(b) && b->c == ((u128)1 << (w - 1)) /* -0.0 */) return isNaNable(a) ? fpRaw(op, w, aux, aux2, a, b, c) : a;
        { Dy x, y, t; if (dyProd(a, w, x) && dyProd(b, w, y) && (dyOf(a, w, t) || dyOf(b, w, t)) && dyAlign(x, y, w)) { Expr* q = add(x.i, y.i); if (small24(q, w)) return mkDy(Dy{q, x.s}, w); } }
        if (a->id > b->id) std::swap(a, b); break; }
      case E_FMUL: { Dy x, y; if (dyOf(a, w, x) && dyOf(b, w, y) && (isC(x.i) || isC(y.i)) && x.s + y.s <= DYMAX) { Expr* k = isC(x.i) ? x.i : y.i; Expr* v = isC(x.i) ? y.i : x.i; i64 kv = sext64((u64)k->c, 64); if (kv > 0 || (kv != 0 && (v->smin > 0 || v->smax < 0))) { Expr* r = mul(v, k); if (small24(r, w)) return mkDy(Dy{r, x.s + y.s}, w); } }
        if (isC(b) && b->c == fbits(1.0, w) && !isNaNable(a)) return a; if (isC(a) && a->c == fbits(1.0, w) && !isNaNable(b)) return b;
        if (a->id > b->id) std::swap(a, b); break; }
      case E_FDIV: if (isC(b)) { double v = asD((u64)b->c, w); int ex_; double m = std::frexp(v, &ex_); if (v == v && (m == 0.5 || m == -0.5) && ex_ > -30 && ex_ < 30) return fp(E_FMUL, w, aux, 0, a, cst(fbits(1.0 / v, w), w)); }
        if (isC(b) && b->c == fbits(1.0, w) && !isNaNable(a)) return a; break;
      case E_FEQ: case E_FLT: case E_FLE: { { FR x = frange(a, fw), y = x.ok ? frange(b, fw) : x; if (x.ok && y.ok) {
          if (op == E_FEQ ? (x.hi < y.lo || y.hi < x.lo) : op == E_FLT ? x.lo >= y.hi : x.lo > y.hi) return fls();
          if (op == E_FLT ? x.hi < y.lo : op == E_FLE && x.hi <= y.lo) return tru(); } } Dy dx, dy_; if (dyProd(a, fw, dx) && dyProd(b, fw, dy_) && dyAlign(dx, dy_, fw)) { Expr *x = dx.i, *y = dy_.i; return op == E_FEQ ? eq(x, y) : op == E_FLT ? slt(x, y) : sle(x, y); }
        if (a == b && op == E_FLT) return fls();
        if (op == E_FLT && isC(b) && (b->c == 0 || b->c == ((u128)1 << (fw - 1)))) return and_(and_(extract(a, fw - 1, 1), not_(isNan(a))), not_(eq(extract(a, 0, fw - 1), cst(0, fw - 1))));
        if (op == E_FLE && isC(a) && (a->c == 0 || a->c == ((u128)1 << (fw - 1)))) return and_(not_(isNan(b)), or_(not_(extract(b, fw - 1, 1)), eq(extract(b, 0, fw - 1), cst(0, fw - 1))));
        if (op == E_FLT && isC(a) && (a->c == 0 || a->c == ((u128)1 << (fw - 1)))) return and_(and_(not_(extract(b, fw - 1, 1)), not_(isNan(b))), not_(eq(extract(b, 0, fw - 1), cst(0, fw - 1))));
        if (op == E_FLE && isC(b) && (b->c == 0 || b->c == ((u128)1 << (fw - 1)))) return and_(not_(isNan(a)), or_(extract(a, fw - 1, 1), eq(extract(a, 0, fw - 1), cst(0, fw - 1))));
        if (op == E_FEQ && isC(b) && (b->c == 0 || b->c == ((u128)1 << (fw - 1)))) return eq(extract(a, 0, fw - 1), cst(0, fw - 1));
        if (op == E_FEQ && isC(a) && (a->c == 0 || a->c == ((u128)1 << (fw - 1)))) return eq(extract(b, 0, fw - 1), cst(0, fw - 1));
        if (op == E_FEQ && a == b) return not_(isNan(a));
        if (op == E_FEQ && a->id > b->id) std::swap(a, b); break; }
      case E_FUNO: { Expr* x = isNan(a); Expr* y = isNan(b); return or_(x, y); }
      case E_F2SI: { Expr* x = intOf(a, aux); { Dy d; int mode = RM_TRUNC; Expr* q = a; bool ok = true; if (a->op == E_FROUND) { mode = a->aux2; q = a->k[0]; } if (mode == RM_RINT) ok = false; if (!x && ok && dyProd(q, aux, d)) x = dyRound(d, mode); } if (x) { if (w == 64) return x; if (x->smin >= sext64(1ull << (w - 1), w) && x->smax <= (i64)(maskw(w) >> 1)) return extract(x, 0, w); } break; }
      case E_F2UI: { Expr* x = intOf(a, aux); if (x && x->smin >= 0) { if (w == 64) return x; if ((u64)x->smax <= (u64)maskw(w)) return extract(x, 0, w); } break; }
      case E_SI2F: { if (a->op == E_SEXT && a->k[0]->width >= 32) return fp(op, w, a->k[0]->width, 0, a->k[0]); if (a->width <= 64 && a->width > 32 && a->smin >= INT32_MIN && a->smax <= INT32_MAX) return fp(op, w, 32, 0, extract(a, 0, 32)); if (a->width < 32) return fp(op, w, 32, 0, sext(a, 32)); break; }
      case E_UI2F: { if (a->width <= 64 && a->umax <= (u64)INT64_MAX) { Expr* x = a->width < 64 ? zext(a, 64) : a; return fp(E_SI2F, w, 64, 0, x); } break; }
      case E_FEXT: { Dy d; if (dyOf(a, 32, d)) return mkDy(d, 64); if (a->op == E_ITE) return ite(a->k[0], fp(op, w, aux, aux2, a->k[1]), fp(op, w, aux, aux2, a->k[2])); break; }
      case E_FTRUNC: { if (a->op == E_FEXT) return a->k[0]; Dy d; if (dyOf(a, 64, d) && small24(d.i, 32)) return mkDy(d, 32);
        if (a->op == E_ITE && (a->k[1]->op == E_FEXT || a->k[2]->op == E_FEXT)) return ite(a->k[0], fp(op, w, aux, aux2, a->k[1]), fp(op, w, aux, aux2, a->k[2]));
        if (a->op == E_XOR && a->nk == 1 && a->c == (u128)1 << 63) { Expr* t = fp(E_FTRUNC, 32, aux, 0, a->k[0]); return xor_(t, cst((u128)1 << 31, 32)); } break; }
      case E_FROUND: { Expr* x = intOf(a, w); if (x) return a; if (a->op == E_FROUND) return a; break; }
      default: break;
    }
    return fpRaw(op, w, aux, aux2, a, b, c);
  }
  // Conservative value range of a floating-point expression (endpoint arithmetic in the expression's own precision: rounding is monotone).  false: may be NaN or unknown.
  struct FR { bool ok; double lo, hi; };
  std::unordered_map<Expr*, FR> frmemo;
  FR frange(Expr* e, unsigned w, int depth = 0) {
    FR no{false, 0, 0}; if ((w != 32 && w != 64) || e->width != w || depth > 60) return no;
    if (e->op == E_CONST) { double v = asD((u64)e->c, w); return std::isnan(v) ? no : FR{true, v, v}; }
    auto it = frmemo.find(e); if (it != frmemo.end()) return it->second;
    FR r = no; auto K = [&](int i) { return frange(e->k[i], w, depth + 1); }; auto rd = [&](double v) { return w == 32 ? (double)(float)v : v; };
    switch (e->op) {
      case E_SI2F: if (e->k[0]->width <= 64) { i64 a = e->k[0]->smin, b = e->k[0]->smax; r = w == 32 ? FR{true, (double)(float)a, (double)(float)b} : FR{true, (double)a, (double)b}; } break;
      case E_FADD: { FR a = K(0), b = K(1); if (a.ok && b.ok && std::isfinite(a.lo) && std::isfinite(a.hi) && std::isfinite(b.lo) && std::isfinite(b.hi)) r = w == 32 ? FR{true, (double)((float)a.lo + (float)b.lo), (double)((float)a.hi + (float)b.hi)} : FR{true, a.lo + b.lo, a.hi + b.hi}; break; }
      case E_FMUL: { FR a = K(0), b = K(1); if (a.ok && b.ok && std::isfinite(a.lo) && std::isfinite(a.hi) && std::isfinite(b.lo) && std::isfinite(b.hi)) { double q[4] = {rd(a.lo * b.lo), rd(a.lo * b.hi), rd(a.hi * b.lo), rd(a.hi * b.hi)}; r = FR{true, *std::min_element(q, q + 4), *std::max_element(q, q + 4)}; } break; }
      case E_FEXT: r = frange(e->k[0], 32, depth + 1); break;
      case E_FTRUNC: { FR a = frange(e->k[0], 64, depth + 1); if (a.ok) r = FR{true, (double)(float)a.lo, (double)(float)a.hi}; break; }
      case E_FROUND: { FR a = K(0); if (a.ok) { auto f = [&](double v) { return asD((u64)evalFP(E_FROUND, w, e->aux, e->aux2, fbits(v, w), 0, 0), w); }; r = FR{true, f(a.lo), f(a.hi)}; } break; }
      case E_ITE: { FR a = frange(e->k[1], w, depth + 1), b = frange(e->k[2], w, depth + 1); if (a.ok && b.ok) r = FR{true, std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
      case E_XOR: if (e->nk == 1 && e->c == (u128)1 << (w - 1)) { FR a = K(0); if (a.ok) r = FR{true, -a.hi, -a.lo}; } break;
      case E_AND: if (e->nk == 1 && e->c == maskw(w) >> 1) { FR a = K(0); if (a.ok) r = FR{true, 0.0, std::max(std::fabs(a.lo), std::fabs(a.hi))}; } break;
      default: break;
    }
    frmemo[e] = r; return r; }
  bool isNaNable(Expr* e) { return !frange(e, e->width).ok; }
  Expr* dyRound(Dy d, int mode) { if (!d.s) return d.i; Expr* z = cst(0, 64); Expr* neg = slt(d.i, z); Expr* n = sub(z, d.i); Expr* sh = cst(d.s, 64); Expr* half = cst(1ull << (d.s - 1), 64); Expr* one = cst((1ull << d.s) - 1, 64);
    if (mode == RM_FLOOR) return ashr(d.i, sh); if (mode == RM_CEIL) return ashr(add(d.i, one), sh);
    (void)n; i64 P = 1ll << d.s; // coefficients divisible by 2^s: only the constant is rounded
    if (mode == RM_TRUNC) return ashr(add(d.i, mulc(zext(neg, 64), (u64)(P - 1))), sh);
    if (d.i->op == E_LIN) { bool mul = true; for (unsigned i = 0; i < d.i->nk; i++) mul &= (d.i->coef[i] & (u64)(P - 1)) == 0; i64 c = sext64((u64)d.i->c, 64) + P / 2; if (mul && (c & (P - 1)) != 0) return ashr(add(d.i, half), sh); }
    return ashr(sub(add(d.i, half), zext(neg, 64)), sh); }
  Expr* isNan(Expr* a) { // bit level test on the ieee encoding
    unsigned w = a->width; unsigned mb = w == 32 ? 23 : 52;
    if (isC(a)) return cst(std::isnan(asD((u64)a->c, w)), 1);
    if (a->op == E_SI2F || a->op == E_UI2F || frange(a, w).ok) return fls();
    if (a->op == E_FEXT) return isNan(a->k[0]);
    if (a->op == E_ITE) return ite(a->k[0], isNan(a->k[1]), isNan(a->k[2]));
    if (a->op == E_XOR && a->nk == 1 && a->c == ((u128)1 << (w - 1))) return isNan(a->k[0]);
    Expr* ex = extract(a, mb, w - 1 - mb); Expr* m = extract(a, 0, mb);
    return and_(eq(ex, cst(maskw(w - 1 - mb), w - 1 - mb)), not_(eq(m, cst(0, mb)))); }
  Expr* fpRaw(Op op, unsigned w, unsigned aux, unsigned aux2, Expr* a, Expr* b, Expr* c) {
    Expr* k[3] = {a, b, c}; return intern(op, w, aux, aux2, 0, k, nullptr, c ? 3 : b ? 2 : 1); }
  Expr* fneg(Expr* a) { Expr* r = nullptr; unsigned w = a->width; 
    if (a->op == E_SI2F && a->k[0]->width <= 64 && (a->k[0]->smin > 0 || a->k[0]->smax < 0) && small24(a->k[0], w)) { r = si2fw(sub(cst(0, 64), sext(a->k[0], 64)), w); return r; }
    if (a->op == E_ITE && iteConst(a)) return ite(a->k[0], fneg(a->k[1]), fneg(a->k[2]));
    return xor_(a, cst((u128)1 << (w - 1), w)); }
  Expr* fsub(Expr* a, Expr* b) { unsigned w = a->width;
    Expr* x = intOf(a, w); Expr* y = x ? intOf(b, w) : nullptr; if (x && y) { Expr* s = sub(x, y); if (small24(s, w)) return si2fw(s, w); }
    return fp(E_FADD, w, w, 0, a, xor_(b, cst((u128)1 << (w - 1), w))); }
  Expr* fabs_(Expr* a) { unsigned w = a->width; return and_(a, cst(maskw(w) >> 1, w)); }

  // ---------- concrete evaluation under an assignment (memo per call)
  // one operation on given operand values
  template <class F> static u128 evalOp(Expr* e, F K) {
    unsigned w = e->width; u128 M = maskw(w), r = 0;
    switch (e->op) {
      case E_LIN: r = e->c; for (unsigned i = 0; i < e->nk; i++) r += e->coef[i] * K(i); break;
      case E_MUL: r = K(0) * K(1); break;
      case E_UDIV: { u128 b = K(1); r = b ? K(0) / b : M; break; }
      case E_UREM: { u128 b = K(1); r = b ? K(0) % b : K(0); break; }
      case E_SDIV: { i128 a = sext128(K(0), w), b = sext128(K(1), w); r = b ? (u128)(a / b) : (a < 0 ? 1 : M); break; }
      case E_SREM: { i128 a = sext128(K(0), w), b = sext128(K(1), w); r = b ? (u128)(a % b) : (u128)a; break; }
      case E_AND: r = e->c; for (unsigned i = 0; i < e->nk; i++) r &= K(i); break;
      case E_OR: r = e->c; for (unsigned i = 0; i < e->nk; i++) r |= K(i); break;
      case E_XOR: r = e->c; for (unsigned i = 0; i < e->nk; i++) r ^= K(i); break;
      case E_SHL: { u128 s = K(1); r = s >= w ? 0 : K(0) << (unsigned)s; break; }
      case E_LSHR: { u128 s = K(1); r = s >= w ? 0 : K(0) >> (unsigned)s; break; }
      case E_ASHR: { u128 s = K(1); r = (u128)(sext128(K(0), w) >> (unsigned)(s >= w ? w - 1 : s)); break; }
      case E_CONCAT: for (unsigned i = 0; i < e->nk; i++) r = (r << e->k[i]->width) | K(i); break;
      case E_EXTRACT: r = K(0) >> e->aux; break;
      case E_ZEXT: r = K(0); break;
      case E_SEXT: r = (u128)sext128(K(0), e->k[0]->width); break;
      case E_ITE: r = K(0) ? K(1) : K(2); break;
      case E_EQ: r = K(0) == K(1); break;
      case E_ULT: r = K(0) < K(1); break;
      case E_SLT: r = sext128(K(0), e->k[0]->width) < sext128(K(1), e->k[0]->width); break;
      default: r = evalFP(e->op, w, e->aux, e->aux2, K(0), e->nk > 1 ? K(1) : 0, e->nk > 2 ? K(2) : 0);
    }
    return r & M; }
  u128 eval(Expr* e, const std::vector<u128>& asg, std::unordered_map<Expr*, u128>& memo) {
    if (e->op == E_CONST) return e->c;
    if (e->op == E_SYM) return (e->c < asg.size() ? asg[(size_t)e->c] : 0) & maskw(e->width);
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    u128 r = evalOp(e, [&](int i) { return eval(e->k[i], asg, memo); }); memo[e] = r; return r;
  }
  const std::vector<uint32_t>& symsOf(Expr* e) {
    if (e->syms) return *e->syms;
    // iterative collection to avoid blowup: collect with DFS and visited
    std::vector<uint32_t> out; std::vector<Expr*> st{e}; std::unordered_map<Expr*, char> seen;
    while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (seen.count(x)) continue; seen[x] = 1; if (x->op == E_SYM) out.push_back((uint32_t)x->c); else if (x->syms) out.insert(out.end(), x->syms->begin(), x->syms->end()); else for (unsigned i = 0; i < x->nk; i++) st.push_back(x->k[i]); }
    std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
    e->syms = new std::vector<uint32_t>(out); return *e->syms;
  }
  std::string str(Expr* e, int d = 4) {
    char b[64]; if (isC(e)) { snprintf(b, 64, "0x%llx:%u", (unsigned long long)(u64)e->c, e->width); return b; }
    if (e->op == E_SYM) return syminfo[(size_t)e->c].name;
    if (d == 0) return "..";
    std::string s = "("; s += opname[e->op]; if (e->op == E_EXTRACT) { snprintf(b, 64, "[%u+:%u]", e->aux, e->width); s += b; }
    else { snprintf(b, 64, ":%u", e->width); s += b; }
    if (e->op == E_LIN || ((e->op == E_AND || e->op == E_XOR || e->op == E_OR))) { snprintf(b, 64, " #%llx", (unsigned long long)(u64)e->c); s += b; }
    for (unsigned i = 0; i < e->nk && i < 6; i++) { s += " "; if (e->op == E_LIN) { snprintf(b, 64, "%lld*", (long long)(i64)sext128(e->coef[i], e->width)); s += b; } s += str(e->k[i], d - 1); }
    if (e->nk > 6) s += " ..."; return s + ")";
  }
};
