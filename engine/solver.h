// Z3 back end.
#pragma once
#include "expr.h"
#include "icp.h"
#include <z3++.h>
#include <chrono>
#include <atomic>
#include <mutex>
#include <thread>
#include <memory>
#include <map>
#include <set>
#include <vector>

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

struct Solver {
  ExprCtx& X; std::unique_ptr<z3::context> z;
  std::unordered_map<Expr*, Z3_ast> caches[6]; u64 nabs = 0;
  // large sums of bits are replaced by one bounded integer in the first (over-approximating) query
  struct Core { Expr* sum; i64 lo, hi; std::string name; }; std::map<std::vector<std::pair<Expr*, i64>>, int> coreIx; std::vector<Core> cores;
 std::vector<z3::expr> keep;
  u64 nicp = 0, nboxes = 0, icpBudget = 20000000; u64 nq = 0, nsat = 0, nunsat = 0, nunk = 0, nfp = 0, nuf = 0; double tsolve = 0; double tmax = 0;
  unsigned timeoutMs = 20000, fpTimeoutMs = 120000;
  std::map<std::string, z3::func_decl*> ufs;
  double endAt = 1e18; std::atomic<int64_t>* softMs = nullptr; double softBase = 0; double end() const { return softMs ? std::min(endAt, softBase + (double)*softMs / 1000) : endAt; } std::mutex zm; std::atomic<double> qStart{0}; bool watching = false;
  // Z3 does not always honour its own timeout: a watchdog interrupts queries that outlive the run or take very long
  void watch() { if (watching) return; watching = true; std::thread([this] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(400)); double q = qStart; if (q && (nowS() > end() || nowS() - q > 150)) { std::lock_guard<std::mutex> g(zm); if (z) Z3_interrupt(*z); } } }).detach(); }
  Solver(ExprCtx& x) : X(x) { z = std::make_unique<z3::context>(); }
  void reset() { inc.reset(); incSyms.clear(); incN = 0; mcache.clear(); mnext = 0; for (auto& c : caches) c.clear(); coreIx.clear(); cores.clear(); splits.clear(); wideIx.clear(); wides.clear(); wsplits.clear(); keep.clear(); for (auto& p : ufs) delete p.second; ufs.clear(); std::lock_guard<std::mutex> g(zm); z = std::make_unique<z3::context>(); }

  z3::expr bvc(u128 v, unsigned w) {
    if (w <= 64) return z->bv_val((uint64_t)v, w);
    return z3::concat(z->bv_val((uint64_t)(v >> 64), w - 64), z->bv_val((uint64_t)v, 64)); }
  z3::expr b2v(const z3::expr& b) { return z3::ite(b, z->bv_val(1, 1), z->bv_val(0, 1)); }
  z3::sort fpsort(unsigned w) { return w == 32 ? z->fpa_sort(8, 24) : z->fpa_sort(11, 53); }
  z3::expr rm(Z3_ast (*f)(Z3_context)) { return z3::expr(*z, f(*z)); }
  z3::expr toFP(const z3::expr& bv, unsigned w) { return z3::expr(*z, Z3_mk_fpa_to_fp_bv(*z, bv, fpsort(w))); }
  z3::expr fromFP(const z3::expr& f) { return z3::expr(*z, Z3_mk_fpa_to_ieee_bv(*z, f)); }
  z3::expr uf(const std::string& name, const std::vector<z3::expr>& a, unsigned w) {
    std::string n = name; for (auto& x : a) n += "_" + std::to_string(x.get_sort().bv_size());
    n += "_" + std::to_string(w);
    auto it = ufs.find(n); if (it == ufs.end()) { z3::sort_vector sv(*z); for (auto& x : a) sv.push_back(x.get_sort()); it = ufs.emplace(n, new z3::func_decl(z->function(n.c_str(), sv, z->bv_sort(w)))).first; }
    z3::expr_vector ev(*z); for (auto& x : a) ev.push_back(x); return (*it->second)(ev); }

  struct Split { int core = -1; i64 k = 0; std::vector<unsigned> rest; };
  std::unordered_map<Expr*, Split> splits;
  const Split& splitLin(Expr* e) { auto it = splits.find(e); if (it != splits.end()) return it->second; Split s; std::vector<std::pair<Expr*, i64>> key; bool ok = e->width <= 64;
    for (unsigned i = 0; i < e->nk; i++) { Expr* x = e->k[i]; i128 c = sext128(e->coef[i], e->width); if (ok && x->op == E_ZEXT && x->k[0]->width == 1 && c > -(1 << 16) && c < (1 << 16)) key.push_back({x->k[0], (i64)c}); else s.rest.push_back(i); }
    if (key.size() >= 5) { std::sort(key.begin(), key.end()); i64 g = 0; for (auto& p : key) { i64 a = p.second < 0 ? -p.second : p.second; while (a) { i64 t = g % a; g = a; a = t; } } if (key[0].second < 0) g = -g; i64 lo = 0, hi = 0; for (auto& p : key) { p.second /= g; if (p.second < 0) lo += p.second; else hi += p.second; }
      if (lo > -(1 << 22) && hi < (1 << 22)) { s.k = g; auto f = coreIx.find(key); if (f != coreIx.end()) s.core = f->second; else { Expr* sum = X.cst(0, 32); for (auto& p : key) sum = X.add(sum, X.mulc(X.zext(p.first, 32), (u128)(i128)p.second & maskw(32))); s.core = (int)cores.size(); coreIx.emplace(key, s.core); cores.push_back({sum, lo, hi, "core" + std::to_string(s.core)}); } } }
    if (s.core < 0) { s.rest.clear(); for (unsigned i = 0; i < e->nk; i++) s.rest.push_back(i); }
    return splits.emplace(e, s).first->second; }
  // stronger abstraction: the whole non-constant part of a linear form becomes one bounded integer, shared between widths
  struct WSplit { int wide = -1; i64 k = 0; std::vector<unsigned> rest; }; struct Wide { i64 lo, hi; }; std::map<std::vector<std::tuple<Expr*, int, i64>>, int> wideIx; std::vector<Wide> wides; std::unordered_map<Expr*, WSplit> wsplits;
  const WSplit& splitWide(Expr* e) { auto it = wsplits.find(e); if (it != wsplits.end()) return it->second; WSplit s; std::vector<std::tuple<Expr*, int, i64>> key; bool ok = e->width <= 64 && e->nk >= 2; i64 g = 0; i128 lo = 0, hi = 0;
    for (unsigned i = 0; i < e->nk && ok; i++) { Expr* x = e->k[i]; i128 c = sext128(e->coef[i], e->width); if (c < -(1ll << 32) || c > (1ll << 32)) { ok = false; break; } int sg = 1; if (x->op == E_ZEXT && x->k[0]->width == 1) { Op o = x->k[0]->op; if (o == E_SLT || o == E_ULT || o == E_EQ || o == E_AND || o == E_OR || (o == E_EXTRACT && x->k[0]->k[0]->op != E_SYM)) { s.rest.push_back(i); continue; } }
      while (x->op == E_SEXT || x->op == E_ZEXT) { if (x->op == E_ZEXT) { x = x->k[0]; sg = x->width <= 64 && x->width > 1 && x->smin >= 0 ? 1 : 0; break; } x = x->k[0]; }
      if (x->width > 64) { ok = false; break; } i128 mn = sg ? (i128)x->smin : (i128)x->umin, mx = sg ? (i128)x->smax : (i128)x->umax; lo += std::min(c * mn, c * mx); hi += std::max(c * mn, c * mx); key.push_back({x, sg, (i64)c}); i64 a = c < 0 ? -c : c; while (a) { i64 t = g % a; g = a; a = t; } }
    if (ok && g && key.size() >= 2) { std::sort(key.begin(), key.end()); if (std::get<2>(key[0]) < 0) g = -g; for (auto& q : key) std::get<2>(q) /= g; lo /= g; hi /= g; if (g < 0) std::swap(lo, hi);
      if (lo > -((i128)1 << 38) && hi < ((i128)1 << 38)) { s.k = g; auto f = wideIx.find(key); if (f != wideIx.end()) s.wide = f->second; else { s.wide = (int)wides.size(); wideIx.emplace(key, s.wide); wides.push_back({(i64)lo, (i64)hi}); } } }
    return wsplits.emplace(e, s).first->second; }
  z3::expr wideVar(int i, unsigned w) { unsigned n = 2; while (wides[i].lo < -(1ll << (n - 1)) || wides[i].hi >= (1ll << (n - 1))) n++; z3::expr v = z->bv_const(("wide" + std::to_string(i)).c_str(), n); return w >= n ? z3::sext(v, w - n) : v.extract(w - 1, 0); }
  Res checkWide(const std::vector<Expr*>& conj) { std::unordered_map<Expr*, char> seen; std::vector<Expr*> st(conj.begin(), conj.end()); std::set<uint32_t> syms; std::set<int> ws; bool fp = false; for (Expr* e : conj) fp |= e->hasfp;
    while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (seen[e]++) continue; if (e->op == E_SYM) syms.insert((uint32_t)e->c); if (e->op == E_LIN) { const WSplit& s = splitWide(e); if (s.wide >= 0) { ws.insert(s.wide); for (unsigned i : s.rest) st.push_back(e->k[i]); continue; } } for (unsigned i = 0; i < e->nk; i++) st.push_back(e->k[i]); }
    if (ws.empty()) return R_UNKNOWN; z3::solver s(*z, fp ? "QF_UFBV" : "QF_BV"); z3::params p(*z); p.set("timeout", 4000u); s.set(p); for (Expr* e : conj) s.add(tr(e, false, 2) == z->bv_val(1, 1)); for (uint32_t i : syms) rangeOf(s, i, false);
    for (int c : ws) { z3::expr v = wideVar(c, 48); s.add(v >= z->bv_val((int64_t)wides[c].lo, 48)); s.add(v <= z->bv_val((int64_t)wides[c].hi, 48)); }
    return s.check() == z3::unsat ? R_UNSAT : R_UNKNOWN; }
  // symbols and cores reachable in the abstracted query
  void reachAbs(const std::vector<Expr*>& conj, std::set<uint32_t>& syms, std::set<int>& cs) { std::unordered_map<Expr*, char> seen; std::vector<Expr*> st(conj.begin(), conj.end());
    while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (seen[e]++) continue; if (e->op == E_SYM) syms.insert((uint32_t)e->c);
      if (e->op == E_LIN) { const Split& s = splitLin(e); if (s.core >= 0) cs.insert(s.core); for (unsigned i : s.rest) st.push_back(e->k[i]); } else for (unsigned i = 0; i < e->nk; i++) st.push_back(e->k[i]); } }
  z3::expr coreVar(int i, unsigned w) { z3::expr v = z->bv_const(cores[i].name.c_str(), 24); return w >= 24 ? z3::sext(v, w - 24) : v.extract(w - 1, 0); }
  z3::expr tr(Expr* e, bool exact, int ab = 0) {
    auto& cache = caches[(exact ? 1 : 0) + 2 * ab];
    auto it = cache.find(e); if (it != cache.end()) return z3::expr(*z, it->second);
    // iterative post-order to avoid deep recursion
    std::vector<Expr*> st{e};
    while (!st.empty()) {
      Expr* x = st.back(); if (cache.count(x)) { st.pop_back(); continue; }
      bool ready = true; const WSplit* wp = ab == 2 && x->op == E_LIN ? &splitWide(x) : nullptr; if (wp && wp->wide >= 0) { bool rd = true; for (unsigned i : wp->rest) if (!cache.count(x->k[i])) { st.push_back(x->k[i]); rd = false; } if (!rd) continue; unsigned w = x->width; z3::expr r = wideVar(wp->wide, w) * bvc((u128)(i128)wp->k & maskw(w), w) + bvc(x->c, w); for (unsigned i : wp->rest) r = r + bvc(x->coef[i], w) * z3::expr(*z, cache.find(x->k[i])->second); keep.push_back(r); cache.emplace(x, (Z3_ast)r); st.pop_back(); continue; }
      const Split* sp = ab == 1 && x->op == E_LIN ? &splitLin(x) : nullptr; if (sp) { for (unsigned i : sp->rest) if (!cache.count(x->k[i])) { st.push_back(x->k[i]); ready = false; } } else for (unsigned i = 0; i < x->nk; i++) if (!cache.count(x->k[i])) { st.push_back(x->k[i]); ready = false; }
      if (!ready) continue; st.pop_back(); z3::expr r = sp && sp->core >= 0 ? trSplit(x, *sp, cache) : tr1(x, exact, cache); keep.push_back(r); cache.emplace(x, (Z3_ast)r);
    }
    return z3::expr(*z, cache.find(e)->second);
  }
  z3::expr trSplit(Expr* e, const Split& s, std::unordered_map<Expr*, Z3_ast>& cache) { unsigned w = e->width; z3::expr r = coreVar(s.core, w) * bvc((u128)(i128)s.k & maskw(w), w) + bvc(e->c, w); for (unsigned i : s.rest) r = r + bvc(e->coef[i], w) * z3::expr(*z, cache.find(e->k[i])->second); return r; }
  z3::expr tr1(Expr* e, bool exact, std::unordered_map<Expr*, Z3_ast>& cache) {
    unsigned w = e->width; auto K = [&](int i) { return z3::expr(*z, cache.find(e->k[i])->second); };
    switch (e->op) {
      case E_CONST: return bvc(e->c, w);
      case E_SYM: return z->bv_const(("s" + std::to_string((u64)e->c)).c_str(), w);
      case E_LIN: { std::vector<z3::expr> t; for (unsigned i = 0; i < e->nk; i++) { u128 c = e->coef[i]; if (c == 1) t.push_back(K(i)); else if (c == maskw(w)) t.push_back(-K(i)); else t.push_back(bvc(c, w) * K(i)); }
        if (e->c) t.push_back(bvc(e->c, w));
        while (t.size() > 1) { std::vector<z3::expr> n; for (size_t i = 0; i < t.size(); i += 2) n.push_back(i + 1 < t.size() ? t[i] + t[i + 1] : t[i]); t.swap(n); }
        return t[0]; }
      case E_MUL: { if (w <= 64 && w > 12) { auto nb = [](i64 lo, i64 hi) { unsigned n = 1; while (n < 63 && (lo < -(1ll << (n - 1)) || hi > (1ll << (n - 1)) - 1)) n++; return n; }; unsigned n = nb(e->k[0]->smin, e->k[0]->smax) + nb(e->k[1]->smin, e->k[1]->smax); if (n + 4 < w) return z3::sext(K(0).extract(n - 1, 0) * K(1).extract(n - 1, 0), w - n); } return K(0) * K(1); }
      case E_UDIV: return z3::udiv(K(0), K(1));
      case E_SDIV: return K(0) / K(1);
      case E_UREM: return z3::urem(K(0), K(1));
      case E_SREM: return z3::srem(K(0), K(1));
      case E_AND: { z3::expr r = K(0); for (unsigned i = 1; i < e->nk; i++) r = r & K(i); if (e->c != maskw(w)) r = r & bvc(e->c, w); return r; }
      case E_OR: { z3::expr r = K(0); for (unsigned i = 1; i < e->nk; i++) r = r | K(i); if (e->c) r = r | bvc(e->c, w); return r; }
      case E_XOR: { z3::expr r = K(0); for (unsigned i = 1; i < e->nk; i++) r = r ^ K(i); if (e->c == maskw(w)) r = ~r; else if (e->c) r = r ^ bvc(e->c, w); return r; }
      case E_SHL: return z3::shl(K(0), K(1));
      case E_LSHR: return z3::lshr(K(0), K(1));
      case E_ASHR: return z3::ashr(K(0), K(1));
      case E_CONCAT: { z3::expr r = K(0); for (unsigned i = 1; i < e->nk; i++) r = z3::concat(r, K(i)); return r; }
      case E_EXTRACT: return K(0).extract(e->aux + w - 1, e->aux);
      case E_ZEXT: return z3::zext(K(0), w - e->k[0]->width);
      case E_SEXT: return z3::sext(K(0), w - e->k[0]->width);
      case E_ITE: return z3::ite(K(0) == z->bv_val(1, 1), K(1), K(2));
      case E_EQ: return b2v(K(0) == K(1));
      case E_ULT: return b2v(z3::ult(K(0), K(1)));
      case E_SLT: return b2v(z3::slt(K(0), K(1)));
      default: break;
    }
    if (!exact) { std::vector<z3::expr> a; for (unsigned i = 0; i < e->nk; i++) a.push_back(K(i));
      std::string n = opname[e->op]; n += std::to_string(e->aux) + "m" + std::to_string(e->aux2); return uf(n, a, w); }
    z3::expr rne = rm(Z3_mk_fpa_rne); z3::context& c = *z;
    auto F = [&](int i, unsigned ww) { return toFP(K(i), ww); };
    auto E = [&](Z3_ast a) { return z3::expr(c, a); };
    switch (e->op) {
      case E_FADD: return fromFP(E(Z3_mk_fpa_add(c, rne, F(0, w), F(1, w))));
      case E_FMUL: return fromFP(E(Z3_mk_fpa_mul(c, rne, F(0, w), F(1, w))));
      case E_FDIV: return fromFP(E(Z3_mk_fpa_div(c, rne, F(0, w), F(1, w))));
      case E_FSQRT: return fromFP(E(Z3_mk_fpa_sqrt(c, rne, F(0, w))));
      case E_FMA: return fromFP(E(Z3_mk_fpa_fma(c, rne, F(0, w), F(1, w), F(2, w))));
      case E_FREM: { std::vector<z3::expr> a{K(0), K(1)}; return uf("frem", a, w); }
      case E_FEQ: return b2v(E(Z3_mk_fpa_eq(c, F(0, e->aux), F(1, e->aux))));
      case E_FLT: return b2v(E(Z3_mk_fpa_lt(c, F(0, e->aux), F(1, e->aux))));
      case E_FLE: return b2v(E(Z3_mk_fpa_leq(c, F(0, e->aux), F(1, e->aux))));
      case E_FEXT: return fromFP(E(Z3_mk_fpa_to_fp_float(c, rne, F(0, 32), fpsort(64))));
      case E_FTRUNC: return fromFP(E(Z3_mk_fpa_to_fp_float(c, rne, F(0, 64), fpsort(32))));
      case E_SI2F: return fromFP(E(Z3_mk_fpa_to_fp_signed(c, rne, K(0), fpsort(w))));
      case E_UI2F: return fromFP(E(Z3_mk_fpa_to_fp_unsigned(c, rne, K(0), fpsort(w))));
      case E_F2SI: { unsigned cw = w <= 32 ? 32 : 64; z3::expr f = F(0, e->aux); z3::expr rtz = rm(Z3_mk_fpa_rtz);
        double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0; 
        z3::expr t = E(Z3_mk_fpa_round_to_integral(c, rtz, f));
        z3::expr lo = E(Z3_mk_fpa_numeral_double(c, -lim, fpsort(e->aux))), hi = E(Z3_mk_fpa_numeral_double(c, lim, fpsort(e->aux)));
        z3::expr in = E(Z3_mk_fpa_leq(c, lo, t)) && E(Z3_mk_fpa_lt(c, t, hi));
        z3::expr v = E(Z3_mk_fpa_to_sbv(c, rtz, f, cw)); z3::expr r = z3::ite(in, v, bvc((u128)1 << (cw - 1), cw));
        return w == cw ? r : r.extract(w - 1, 0); }
      case E_F2UI: { z3::expr f = F(0, e->aux); z3::expr rtz = rm(Z3_mk_fpa_rtz); 
        z3::expr v = E(Z3_mk_fpa_to_ubv(c, rtz, f, 64)); return w == 64 ? v : v.extract(w - 1, 0); }
      case E_FROUND: { z3::expr m = e->aux2 == RM_FLOOR ? rm(Z3_mk_fpa_rtn) : e->aux2 == RM_CEIL ? rm(Z3_mk_fpa_rtp) : e->aux2 == RM_TRUNC ? rm(Z3_mk_fpa_rtz) : e->aux2 == RM_RINT ? rne : rm(Z3_mk_fpa_rna);
        return fromFP(E(Z3_mk_fpa_round_to_integral(c, m, F(0, w)))); }
      default: fprintf(stderr, "solver: unhandled op %s\n", opname[e->op]); exit(3);
    }
  }
  // ---- cached models: a previous assignment that satisfies the conjunction settles SAT without a query
  std::vector<std::vector<u128>> mcache; size_t mnext = 0; u64 ncached = 0;
  void remember(const std::vector<u128>& m) { if (mcache.size() < 10) mcache.push_back(m); else { mcache[mnext] = m; mnext = (mnext + 1) % 10; } }
  u128 defVal(Expr* e) { if (e->width <= 64 && (e->smin > 0 || e->smax < 0)) return (u128)(u64)e->smin & maskw(e->width); return 0; }
  bool tryCached(const std::vector<Expr*>& conj, std::vector<u128>* model) {
    for (size_t q = 0; q < mcache.size(); q++) { auto& m = mcache[q]; while (m.size() < X.symexprs.size()) m.push_back(defVal(X.symexprs[m.size()]));
      std::unordered_map<Expr*, u128> memo; bool ok = true; for (Expr* e : conj) if (!(X.eval(e, m, memo) & 1)) { ok = false; break; }
      if (ok) { if (model) *model = m; return true; } }
    return false; }
  // ---- persistent incremental solver for the pure bit-vector / UF queries
  bool useInc = getenv("LCE_INC") != nullptr; std::unique_ptr<z3::solver> inc; bool incUF = false; unsigned incN = 0; std::set<uint32_t> incSyms;
  void dropInc() { inc.reset(); incSyms.clear(); incN = 0; }
  void rangeOf(z3::solver& s, uint32_t i, bool exact) { Expr* e = X.symexprs[i]; unsigned w = e->width; if (w > 64) return; i64 smn = sext64(1ull << (w - 1), w), smx = (i64)(maskw(w) >> 1);
    if (e->smin == smn && e->smax == smx) return; z3::expr v = tr(e, exact); if (e->smin != smn) s.add(z3::sge(v, bvc((u128)(u64)e->smin, w))); if (e->smax != smx) s.add(z3::sle(v, bvc((u128)(u64)e->smax, w))); }
  void getModel(z3::solver& s, const std::set<uint32_t>& syms, bool exact, std::vector<u128>* model) {
    model->assign(X.symexprs.size(), 0); z3::model m = s.get_model(); for (size_t i = 0; i < X.symexprs.size(); i++) (*model)[i] = defVal(X.symexprs[i]);
    for (uint32_t i : syms) { Expr* e = X.symexprs[i]; z3::expr v = m.eval(tr(e, exact), true); unsigned w = e->width; u128 val = 0;
      if (w <= 64) { uint64_t u = 0; if (v.is_numeral_u64(u)) val = u; } else { for (unsigned b = 0; b < w; b += 32) { unsigned n = std::min(32u, w - b); z3::expr x = m.eval(v.extract(b + n - 1, b), true).simplify(); uint64_t u = 0; x.is_numeral_u64(u); val |= (u128)u << b; } }
      (*model)[i] = val; } }
  // first look with bit sums abstracted: UNSAT is final; a model is turned into an assignment of the real inputs by pinning the sums
  Res checkAbs(const std::vector<Expr*>& conj, bool ex, std::vector<u128>* model) {
    std::set<uint32_t> syms; std::set<int> cs; reachAbs(conj, syms, cs); if (cs.empty()) return R_UNKNOWN; nabs++;
    bool fp = false; for (Expr* e : conj) fp |= e->hasfp;
    z3::solver s = fp ? (ex ? z3::solver(*z, "QF_BVFP") : z3::solver(*z, "QF_UFBV")) : z3::solver(*z, "QF_BV"); z3::params p(*z); p.set("timeout", ex ? 15000u : 5000u); s.set(p);
    for (Expr* e : conj) s.add(tr(e, ex, true) == z->bv_val(1, 1));
    for (uint32_t i : syms) rangeOf(s, i, ex);
    for (int c : cs) { z3::expr v = coreVar(c, 24); s.add(v >= z->bv_val((int64_t)cores[c].lo, 24)); s.add(v <= z->bv_val((int64_t)cores[c].hi, 24)); }
    z3::check_result cr = s.check(); if (cr == z3::unsat) return R_UNSAT; if (cr != z3::sat || (fp && !ex)) return R_UNKNOWN;
    z3::model m = s.get_model(); std::vector<Expr*> pin;
    for (int c : cs) { uint64_t u = 0; m.eval(coreVar(c, 24), true).is_numeral_u64(u); pin.push_back(X.eq(cores[c].sum, X.cst((u128)(i128)sext64(u, 24) & maskw(32), 32))); }
    for (uint32_t i : syms) { uint64_t u = 0; Expr* e = X.symexprs[i]; if (e->width > 64) continue; m.eval(tr(e, ex, true), true).is_numeral_u64(u); pin.push_back(X.eq(e, X.cst(u, e->width))); }
    // greedy: move each sum to its value by toggling single input bits
    { std::vector<u128> g(X.symexprs.size()); for (size_t i = 0; i < g.size(); i++) g[i] = defVal(X.symexprs[i]); for (uint32_t i : syms) { uint64_t u = 0; if (X.symexprs[i]->width <= 64) m.eval(tr(X.symexprs[i], ex, true), true).is_numeral_u64(u); g[i] = u; }
      for (int c : cs) { uint64_t u = 0; m.eval(coreVar(c, 24), true).is_numeral_u64(u); i64 want = sext64(u, 24); Expr* S = cores[c].sum; if (S->op != E_LIN) continue; std::unordered_map<Expr*, u128> memo; i64 cur = sext64((u64)X.eval(S, g, memo), 32);
        for (unsigned i = 0; i < S->nk && cur != want; i++) { i64 cf = sext64((u64)S->coef[i], 32); Expr* b = S->k[i]->k[0]; u64 bv = (u64)X.eval(b, g, memo) & 1; i64 nxt = cur + (bv ? -cf : cf); if (std::llabs(nxt - want) >= std::llabs(cur - want)) continue;
          Expr* x = b->op == E_XOR && b->nk ? b->k[b->nk - 1] : b; if (x->op == E_SYM) g[(size_t)x->c] ^= 1; else if (x->op == E_EXTRACT && x->k[0]->op == E_SYM && x->width == 1) g[(size_t)x->k[0]->c] ^= (u128)1 << x->aux; else continue; cur = nxt; memo.clear(); if (i % 16 == 15) cur = sext64((u64)X.eval(S, g, memo), 32); } }
      std::unordered_map<Expr*, u128> memo; bool ok = true; for (Expr* e : conj) if (!(X.eval(e, g, memo) & 1)) { ok = false; break; } if (ok) { remember(g); if (model) *model = g; return R_SAT; } }
    z3::solver t(*z, "QF_BV"); z3::params p2(*z); p2.set("timeout", 5000u); t.set(p2); std::set<uint32_t> sy; for (Expr* e : pin) { if (X.isC(e)) { if (!e->c) return R_UNKNOWN; continue; } t.add(tr(e, false) == z->bv_val(1, 1)); for (uint32_t i : X.symsOf(e)) sy.insert(i); } for (Expr* e : conj) for (uint32_t i : X.symsOf(e)) sy.insert(i); for (uint32_t i : sy) rangeOf(t, i, false);
    if (t.check() != z3::sat) return R_UNKNOWN; std::vector<u128> mm; getModel(t, sy, false, &mm); std::unordered_map<Expr*, u128> memo; for (Expr* e : conj) if (!(X.eval(e, mm, memo) & 1)) return R_UNKNOWN;
    remember(mm); if (model) *model = mm; return R_SAT; }
  // A condition over one or two bit sums (and symbols of small range) is decided by evaluating it for every value of the sums.  True: no value satisfies it.
  u64 nenum = 0;
  bool noneByEnumeration(const std::vector<Expr*>& conj) {
    std::vector<Expr*> topo; std::unordered_map<Expr*, uint32_t> ix; std::vector<std::vector<uint32_t>> kid; std::vector<std::pair<Expr*, unsigned>> st; std::set<int> cs; std::set<uint32_t> sy;
    auto nKids = [&](Expr* e) -> unsigned { if (e->op != E_LIN) return e->nk; const Split& s = splitLin(e); return s.core >= 0 ? (unsigned)s.rest.size() : e->nk; };
    auto kidOf = [&](Expr* e, unsigned i) -> Expr* { if (e->op != E_LIN) return e->k[i]; const Split& s = splitLin(e); return s.core >= 0 ? e->k[s.rest[i]] : e->k[i]; };
    for (Expr* c : conj) { st.push_back({c, 0}); while (!st.empty()) { auto& t = st.back(); Expr* e = t.first; if (ix.count(e)) { st.pop_back(); continue; } if (t.second < nKids(e)) { Expr* k = kidOf(e, t.second++); if (!ix.count(k)) st.push_back({k, 0}); continue; }
        if (topo.size() > 4000) return false; std::vector<uint32_t> kk; for (unsigned i = 0; i < nKids(e); i++) kk.push_back(ix[kidOf(e, i)]); ix[e] = (uint32_t)topo.size(); topo.push_back(e); kid.push_back(kk); if (e->op == E_SYM) sy.insert((uint32_t)e->c); if (e->op == E_LIN && splitLin(e).core >= 0) cs.insert(splitLin(e).core); if (cs.size() + sy.size() > 4) return false; st.pop_back(); } }
    if (cs.empty()) return false; struct Dim { i64 lo, hi, v; }; std::vector<Dim> dims; std::map<int, unsigned> cd; std::map<uint32_t, unsigned> sd; double total = (double)topo.size();
    for (int c : cs) { cd[c] = (unsigned)dims.size(); dims.push_back({cores[c].lo, cores[c].hi, cores[c].lo}); } for (uint32_t s : sy) { Expr* e = X.symexprs[s]; if (e->width > 64) return false; sd[s] = (unsigned)dims.size(); dims.push_back({e->smin, e->smax, e->smin}); } for (auto& d : dims) total *= (double)d.hi - (double)d.lo + 1; if (total > 1.5e7) return false;
    std::vector<u128> val(topo.size()); std::vector<int> coreOf(topo.size(), -1); std::vector<i64> coreK(topo.size(), 0); for (size_t i = 0; i < topo.size(); i++) if (topo[i]->op == E_LIN) { const Split& s = splitLin(topo[i]); if (s.core >= 0) { coreOf[i] = (int)cd[s.core]; coreK[i] = s.k; } else coreOf[i] = -1; }
    std::vector<uint32_t> out; for (Expr* c : conj) out.push_back(ix[c]); nenum++;
    while (true) { for (size_t i = 0; i < topo.size(); i++) { Expr* e = topo[i]; u128 M = maskw(e->width); if (e->op == E_CONST) { val[i] = e->c; continue; } if (e->op == E_SYM) { val[i] = (u128)(i128)dims[sd[(uint32_t)e->c]].v & M; continue; }
        if (coreOf[i] >= 0) { u128 r = e->c + (u128)((i128)coreK[i] * (i128)dims[coreOf[i]].v); const auto& rest = splitLin(e).rest; for (size_t q = 0; q < rest.size(); q++) r += e->coef[rest[q]] * val[kid[i][q]]; val[i] = r & M; continue; }
        const uint32_t* kk = kid[i].data(); val[i] = ExprCtx::evalOp(e, [&](int q) { return val[kk[q]]; }); }
      bool all = true; for (uint32_t o : out) all &= (val[o] & 1) != 0; if (all) return false;
      size_t d = 0; for (; d < dims.size(); d++) { if (++dims[d].v <= dims[d].hi) break; dims[d].v = dims[d].lo; } if (d == dims.size()) return true; } }
  // disjuncts (of a negated conjunction) that no value of the sums satisfies are dropped
  Res checkEnum(std::vector<Expr*>& conj) { for (size_t q = 0; q < conj.size(); q++) { Expr* e = conj[q]; std::vector<Expr*> parts; if (e->op == E_XOR && e->width == 1 && e->nk == 1 && (e->c & 1) && e->k[0]->op == E_AND && e->k[0]->width == 1) { for (unsigned i = 0; i < e->k[0]->nk; i++) parts.push_back(X.not_(e->k[0]->k[i])); } else if (e->op == E_OR && e->width == 1) { for (unsigned i = 0; i < e->nk; i++) parts.push_back(e->k[i]); } else parts.push_back(e);
      std::vector<Expr*> left; for (Expr* p : parts) if (!noneByEnumeration({p})) left.push_back(p); if (left.empty()) return R_UNSAT; if (left.size() < parts.size()) { Expr* r = left[0]; for (size_t i = 1; i < left.size(); i++) r = X.or_(r, left[i]); conj[q] = r; } }
    return R_UNKNOWN; }
  // assignment in `model` (sized to all syms) filled for SAT
  Res check(std::vector<Expr*> conj, bool exact, std::vector<u128>* model, unsigned tmo = 0) {
    bool fp = false; for (Expr* e : conj) fp |= e->hasfp;
    double t0 = nowS(); 
    if (tryCached(conj, model)) { ncached++; return R_SAT; }
    nq++; if (fp && exact) nfp++; else if (fp) nuf++;
    Res r = R_UNKNOWN; bool ex = exact && fp; if (t0 > end()) { nunk++; return R_UNKNOWN; } watch(); qStart = t0;
    std::set<uint32_t> syms; for (Expr* e : conj) for (uint32_t i : X.symsOf(e)) syms.insert(i);
    r = checkEnum(conj); if (r == R_UNKNOWN) { syms.clear(); for (Expr* e : conj) for (uint32_t i : X.symsOf(e)) syms.insert(i); }
    if (r == R_UNKNOWN && fp && syms.size() <= 3) { Icp icp(X); int q = icp.solve(conj, std::vector<uint32_t>(syms.begin(), syms.end()), model, syms.size() == 1 ? icpBudget * 10 : icpBudget, end(), nowS); if (q < 2) { r = q ? R_SAT : R_UNSAT; nicp++; if (q && model) remember(*model); } nboxes += icp.boxes; }
    if (r == R_UNKNOWN) try {
      r = checkWide(conj); if (r == R_UNKNOWN) r = checkAbs(conj, false, model); if (r == R_UNKNOWN && fp) r = checkAbs(conj, true, model);
      if (r == R_UNKNOWN && !ex && useInc) {
        if (inc && (incN > 400 || keep.size() > 400000)) dropInc();
        if (!inc) inc = std::make_unique<z3::solver>(*z, fp ? "QF_UFBV" : "QF_BV"), incUF = true;
        z3::params p(*z); p.set("timeout", 1500u); inc->set(p); incN++;
        for (uint32_t i : syms) if (incSyms.insert(i).second) rangeOf(*inc, i, false);
        z3::expr_vector as(*z); for (Expr* e : conj) as.push_back(tr(e, false) == z->bv_val(1, 1));
        inc->push(); for (unsigned i = 0; i < as.size(); i++) inc->add(as[i]);
        z3::check_result cr = inc->check(); r = cr == z3::unsat ? R_UNSAT : cr == z3::sat ? R_SAT : R_UNKNOWN;
        std::vector<u128> mm; if (r == R_SAT) { getModel(*inc, syms, false, &mm); if (!fp) remember(mm); if (model) *model = mm; }
        inc->pop(); for (uint32_t i : syms) (void)i;
        if (r == R_UNKNOWN) dropInc(); }
      if (r == R_UNKNOWN) {
        z3::solver s = fp ? (exact ? z3::solver(*z, "QF_BVFP") : z3::solver(*z, "QF_UFBV")) : z3::solver(*z, "QF_BV");
        z3::params p(*z); p.set("timeout", tmo ? tmo : (ex ? fpTimeoutMs : timeoutMs)); s.set(p);
        for (Expr* e : conj) s.add(tr(e, ex) == z->bv_val(1, 1));
        for (uint32_t i : syms) rangeOf(s, i, ex);
        z3::check_result cr = s.check();
        if (cr == z3::unsat) r = R_UNSAT; else if (cr == z3::sat) { r = R_SAT; std::vector<u128> mm; getModel(s, syms, ex, &mm); if (!fp || ex) remember(mm); if (model) *model = mm; } }
    } catch (z3::exception& e2) { fprintf(stderr, "z3 exception: %s\n", e2.msg()); r = R_UNKNOWN; dropInc(); }
    qStart = 0; double dt = nowS() - t0; static bool slow = getenv("LCE_SLOW") != nullptr; if (slow && dt > 2) { fprintf(stderr, "SLOW %.1fs r=%d exact=%d fp=%d\n", dt, r, exact, fp); for (Expr* e : conj) fprintf(stderr, "   %s\n", X.str(e, 9).substr(0, 1500).c_str()); } tsolve += dt; tmax = std::max(tmax, dt);
    if (r == R_SAT) nsat++; else if (r == R_UNSAT) nunsat++; else nunk++;
    return r;
  }
};
