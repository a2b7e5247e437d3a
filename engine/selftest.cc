// Differential self-test of the expression layer: every constructor result must evaluate like the plain operation.
#include "expr.h"
#include "icp.h"
#include <random>
static ExprCtx X; static std::mt19937_64 R(1);
struct N { Expr* e; std::vector<u128> v; }; // values under the NA assignments
static const int NA = 24; static long affs = 0, affs2 = 0;
static std::vector<std::vector<u128>> asg;
static u128 rnd(unsigned w) { if ((w == 32 || w == 64) && R() % 3 == 0) { static const double fs[] = {0, -0.0, 1, -1, 0.5, -0.25, 3.75, -7, 100, 0.125, 2, -2, 4, 1e10, -3e-5, 0.1}; double d = fs[R() % 16]; return ExprCtx::fbits(d, w); } u64 m = R() % 6; u64 v = R(); if (m == 0) v = 0; if (m == 1) v = ~0ull; if (m == 2) v = R() % 5; if (m == 3) v = 1ull << (R() % 64); return (u128)v & maskw(w); }
int main(int argc, char** argv) {
  long total = argc > 1 ? atol(argv[1]) : 20000; unsigned ws[] = {1, 8, 16, 32, 64}; long bad = 0;
  for (long round = 0; round < total / 100; round++) {
    X.reset(); asg.assign(NA, {}); std::vector<N> pool;
    for (int i = 0; i < 8; i++) { unsigned w = ws[R() % 5]; N n; bool rg = w > 1 && R() % 2; i64 lo = sext64(1ull << (w - 1), w), hi = (i64)(maskw(w) >> 1); if (rg) { lo = (i64)(R() % 40) - 20; hi = lo + R() % 60; } n.e = rg ? X.symRange("s", w, lo, hi) : X.sym("s", w);
      for (int a = 0; a < NA; a++) { u128 v = rnd(w); if (rg) v = (u128)(u64)(lo + (i64)((u64)v % (u64)(hi - lo + 1))) & maskw(w); asg[a].push_back(v); n.v.push_back(v); } pool.push_back(n); }
    for (int i = 0; i < 6; i++) { unsigned w = ws[R() % 5]; u128 c = rnd(w); N n; n.e = X.cst(c, w); n.v.assign(NA, c); pool.push_back(n); }
    for (int st = 0; st < 100; st++) {
      N& a = pool[R() % pool.size()]; N* b = nullptr; for (int t = 0; t < 20; t++) { N& q = pool[R() % pool.size()]; if (q.e->width == a.e->width) { b = &q; break; } } if (!b) b = &a;
      N& c = pool[R() % pool.size()]; unsigned w = a.e->width; N n; n.v.resize(NA); u128 M = maskw(w); int op = R() % 44; u64 fpk[4] = {0,0,0,0}; u128 (*f)(u128, u128, unsigned) = nullptr; const char* nm = "?"; int kind = 0; unsigned p1 = 0, p2 = 0; N* bb = b;
      switch (op) {
#define BIN(k, m, x) case k: nm = #m; n.e = X.m(a.e, b->e); f = [](u128 p, u128 q, unsigned w) -> u128 { (void)w; return x; }; break;
        BIN(0, add, p + q) BIN(1, sub, p - q) BIN(2, mul, p * q) BIN(3, and_, p & q) BIN(4, or_, p | q) BIN(5, xor_, p ^ q)
        BIN(6, udiv, q ? p / q : maskw(w)) BIN(7, urem, q ? p % q : p)
        BIN(8, sdiv, q ? (u128)(sext128(p, w) / sext128(q, w)) : (sext128(p, w) < 0 ? 1 : maskw(w))) BIN(9, srem, q ? (u128)(sext128(p, w) % sext128(q, w)) : p)
        BIN(10, shl, q >= w ? 0 : p << (unsigned)q) BIN(11, lshr, q >= w ? 0 : p >> (unsigned)q) BIN(12, ashr, (u128)(sext128(p, w) >> (unsigned)(q >= w ? w - 1 : q)))
        BIN(13, eq, p == q) BIN(14, ult, p < q) BIN(15, slt, sext128(p, w) < sext128(q, w)) BIN(16, ule, p <= q) BIN(17, sle, sext128(p, w) <= sext128(q, w))
        case 18: nm = "zext"; kind = 1; p1 = w == 64 ? 128 : ws[R() % 5]; if (p1 < w) continue; n.e = X.zext(a.e, p1); break;
        case 19: nm = "sext"; kind = 2; p1 = w == 64 ? 128 : ws[R() % 5]; if (p1 < w) continue; n.e = X.sext(a.e, p1); break;
        case 20: case 21: { nm = "extract"; kind = 3; p1 = w == 1 ? 1 : ws[R() % 5]; if (p1 > w) continue; p2 = w == p1 ? 0 : R() % (w - p1 + 1); if (R() % 2) p2 = p2 / 8 * 8; n.e = X.extract(a.e, p2, p1); break; }
        case 22: case 23: { nm = "ite"; kind = 4; N* cc = nullptr; for (auto& q : pool) if (q.e->width == 1 && R() % 3 == 0) cc = &q; if (!cc) continue; n.e = X.ite(cc->e, a.e, b->e); for (int i = 0; i < NA; i++) n.v[i] = cc->v[i] ? a.v[i] : b->v[i]; break; }
        case 24: { nm = "concat"; kind = 5; if (w + c.e->width > 64) continue; unsigned t = w + c.e->width; if (t != 16 && t != 32 && t != 64) continue; n.e = X.concat(a.e, c.e); bb = &c; break; }
        case 25: nm = "popcount"; kind = 6; n.e = X.popcount(a.e); break;
        case 26: { nm = "sub-eq0"; kind = 7; n.e = X.eq(X.sub(a.e, b->e), X.cst(0, w)); break; }
        case 28: case 29: case 30: case 31: case 32: case 33: case 34: case 35: case 36: { if (w != 32 && w != 64) continue; static const Op os[] = {E_FADD, E_FMUL, E_FDIV, E_FLT, E_FLE, E_FEQ, E_FADD, E_FADD, E_FMUL}; Op o = os[op - 28]; nm = opname[o]; kind = 9; bool cmp = o == E_FLT || o == E_FLE || o == E_FEQ; fpk[0] = o; fpk[1] = cmp ? 1 : w; fpk[2] = w; n.e = X.fp(o, cmp ? 1 : w, w, 0, a.e, b->e); break; }
        case 37: { if (w > 64 || w < 8) continue; unsigned t = R() % 2 ? 32 : 64; nm = "si2f"; kind = 10; fpk[0] = E_SI2F; fpk[1] = t; fpk[2] = w; n.e = X.fp(E_SI2F, t, w, 0, a.e); break; }
        case 38: { if (w != 32 && w != 64) continue; static const unsigned tw[] = {8, 16, 32, 64}; unsigned t = tw[R() % 4]; nm = "f2si"; kind = 10; fpk[0] = E_F2SI; fpk[1] = t; fpk[2] = w; n.e = X.fp(E_F2SI, t, w, 0, a.e); break; }
        case 39: { if (w != 32) continue; nm = "fext"; kind = 10; fpk[0] = E_FEXT; fpk[1] = 64; fpk[2] = 32; n.e = X.fp(E_FEXT, 64, 32, 0, a.e); break; }
        case 40: { if (w != 64) continue; nm = "ftrunc"; kind = 10; fpk[0] = E_FTRUNC; fpk[1] = 32; fpk[2] = 64; n.e = X.fp(E_FTRUNC, 32, 64, 0, a.e); break; }
        case 41: { if (w != 32 && w != 64) continue; unsigned m = R() % 5; nm = "fround"; kind = 10; fpk[0] = E_FROUND; fpk[1] = w; fpk[2] = w; fpk[3] = m; n.e = X.fp(E_FROUND, w, w, m, a.e); break; }
        case 42: { if (w != 32 && w != 64) continue; nm = "fneg"; kind = 11; n.e = X.fneg(a.e); break; }
        case 43: { if (w != 32 && w != 64) continue; if (R() % 2) { nm = "fsub"; kind = 12; n.e = X.fsub(a.e, b->e); } else { nm = "isnan"; kind = 13; n.e = X.isNan(a.e); } break; }
        case 27: { nm = "neg"; kind = 8; n.e = X.not_(a.e); break; }
      }
      for (int i = 0; i < NA; i++) { u128 p = a.v[i], q = bb->v[i], r; unsigned ow = n.e->width;
        switch (kind) { case 9: r = ExprCtx::evalFP((Op)fpk[0], fpk[1], fpk[2], 0, p, q, 0); break; case 10: r = ExprCtx::evalFP((Op)fpk[0], fpk[1], fpk[2], fpk[3], p, 0, 0); break; case 11: r = p ^ ((u128)1 << (w - 1)); break; case 12: r = ExprCtx::evalFP(E_FADD, w, w, 0, p, q ^ ((u128)1 << (w - 1)), 0); break; case 13: r = std::isnan(w == 32 ? (double)ExprCtx::asF(p) : ExprCtx::asD(p, 64)); break; case 0: r = f(p, q, w); break; case 1: r = p; break; case 2: r = (u128)sext128(p, w); break; case 3: r = p >> p2; break; case 4: r = n.v[i]; break; case 5: r = (p << c.e->width) | q; break; case 6: r = __builtin_popcountll((u64)p); break; case 7: r = p == q; break; default: r = ~p; }
        r &= maskw(ow); n.v[i] = r; std::unordered_map<Expr*, u128> memo; u128 g = X.eval(n.e, asg[i], memo);
        if (ow == n.e->width && g != r && kind >= 9 && (ow == 32 || ow == 64) && std::isnan(ExprCtx::asD((u64)g, ow)) && std::isnan(ExprCtx::asD((u64)r, ow))) { r = g; n.v[i] = g; } bool rangeok = ow > 64 || ((u64)r >= n.e->umin && (u64)r <= n.e->umax && sext64((u64)r, ow) >= n.e->smin && sext64((u64)r, ow) <= n.e->smax && ((u64)r & ~X.possible(n.e)) == 0);
        if (g != r || !rangeok) { if (bad++ < 5) printf("MISMATCH op=%s w=%u got=%llx want=%llx range=%d  a=%s b=%s -> %s\n", nm, w, (unsigned long long)g, (unsigned long long)r, rangeok, X.str(a.e, 6).c_str(), X.str(bb->e, 6).c_str(), X.str(n.e, 6).c_str()); break; } }
      (void)M; if (n.e->width <= 64) { bool okw = false; for (unsigned x : ws) okw |= x == n.e->width; if (okw) pool.push_back(n); }
    }
    // interval extension: the value of every expression lies in the interval computed from any box containing the inputs
    Icp I(X); for (auto& n : pool) { if (n.e->width > 64) continue; I.collect({n.e}); for (size_t i = 0; i < I.topo.size(); i++) if (I.topo[i]->op == E_SYM && (I.topo[i]->width == 32 || I.topo[i]->width == 64) && I.symIx.size() < 3) I.symIx.push_back((uint32_t)i); for (int rep = 0; rep < 3; rep++) { I.afNow++; int a0 = R() % NA, a1 = R() % 3 ? (int)(R() % NA) : a0; for (size_t i = 0; i < I.topo.size(); i++) { Expr* x = I.topo[i]; if (x->op == E_CONST) I.val[i] = x->width <= 64 ? Icp::mkU(x->width, (u64)x->c, (u64)x->c) : Icp::top(x->width); else if (x->op == E_SYM) { u64 p = (u64)asg[a0][(size_t)x->c], q = (u64)asg[a1][(size_t)x->c]; I.val[i] = Icp::mkU(x->width, std::min(p, q), std::max(p, q)); } else I.val[i] = I.one(x, I.kidIx.data() + I.kidAt[i]); }
      const Icp::V& v = I.val[I.ix[n.e]]; for (int a : {a0, a1}) { u64 r = (u64)n.v[a]; unsigned w = n.e->width; bool ok = r >= v.ul && r <= v.uh && sext64(r, w) >= v.sl && sext64(r, w) <= v.sh; if (v.fs && (w == 32 || w == 64)) { double d = ExprCtx::asD(r, w); if (v.fnan) ok &= std::isnan(d); if (v.fok) ok &= d >= v.fl && d <= v.fh; } static long double inf = INFINITY; if (ok && (w == 32 || w == 64)) { Icp::A f = I.affine(I.ix[n.e]); if (f.ok) { long double want = ExprCtx::asD(r, w), got = f.b; for (size_t q = 0; q < I.symIx.size(); q++) got += f.a[q] == 0 ? 0 : f.a[q] * ExprCtx::asD((u64)asg[a][(size_t)I.topo[I.symIx[q]]->c], I.topo[I.symIx[q]]->width); affs++; if (f.a[0] != 0 || f.a[1] != 0) affs2++; if (std::isnan(want) || std::fabs(want - got) > f.e + std::fabs(got) * 0x1p-60L || !(f.e < inf)) { if (bad++ < 5) printf("AFFINE MISMATCH %s value %Lg form %Lg off %Lg\n", X.str(n.e, 5).c_str(), want, got, f.e); } } }
        if (!ok && bad++ < 5) printf("INTERVAL MISMATCH %s w=%u value %llx u[%llx,%llx] f[%d %d %g,%g]\n", X.str(n.e, 5).c_str(), w, (unsigned long long)r, (unsigned long long)v.ul, (unsigned long long)v.uh, v.fs, v.fok, v.fl, v.fh); } } } }
  printf("expr selftest: %ld mismatches (%ld affine forms, %ld with symbols)\n", bad, affs, affs2); return bad != 0; }
