// lcesym: symbolic executor for LLVM 18 bitcode.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <atomic>
#include <unordered_set>
#include <random>
using namespace llvm;

typedef ::Expr LExpr;
static ExprCtx X;
static Solver* S;
static LExpr UNDEFV; static LExpr* const UNDEF = &UNDEFV;

struct Val { u64 c = 0; LExpr* e = nullptr; };
static inline bool sy(const Val& v) { return v.e != nullptr; }

// ---------------------------------------------------------------- options / stats
static int optWorkers = 8; static double optDeadline = 800; static std::string optOut = "/tmp/lcesym"; static int optTier = 0; static u64 optSeed = 1;
static int optTraces = 6; static int optMaxViol = 6; static u64 optMaxSteps = 200000000ull; static bool optVerbose = false; static int optMaxEnum = 300; static int optOnly = -1;
static std::map<std::string, std::string> params;
static double tStart;
struct Stats { u64 steps = 0, paths = 0, forks = 0, pruned = 0, asserts = 0, assertsFolded = 0, assertsSolver = 0, states = 0, goStates = 0, claimed = 0, assumeCut = 0, infeasible = 0, resets = 0; } st;
static std::map<std::string, u64> covers; static std::map<std::string, u64> assertLabels;
struct Viol { std::string kind, label, loc; std::vector<std::pair<std::string, i64>> choices; std::string replay; };
static std::vector<Viol> viols; static std::vector<std::string> inconclusive; static std::vector<std::string> traces; static std::vector<std::string> samples;
static bool deadlineHit = false;
// after violations that are not listed as known, only a little more time is spent (shared by all workers)
struct Shared { std::atomic<int64_t> viols; std::atomic<int64_t> softEndMs; }; static Shared* shared; static std::set<std::string> knownLabels;

static int workerId = 0;
static std::set<std::string> fnEncoded;

static void incon(const std::string& s) { if (inconclusive.size() < 50) inconclusive.push_back(s); if (optVerbose) fprintf(stderr, "[w%d] INCONCLUSIVE %s\n", workerId, s.c_str()); }

// ---------------------------------------------------------------- memory
struct SymByte { LExpr* e; uint32_t idx; };
enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_DEAD };
struct Obj {
  int rc = 0; ObjKind kind; bool readonly = false; uint32_t size, wsize; uint32_t nsym = 0; std::vector<uint8_t> d; std::vector<SymByte> s; const char* name; uint8_t tag = 0;
};
struct ORef { Obj* p = nullptr; ORef() {} ORef(Obj* o) : p(o) { if (p) p->rc++; } ORef(const ORef& o) : p(o.p) { if (p) p->rc++; } ORef(ORef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ORef& operator=(ORef o) { std::swap(p, o.p); return *this; } ~ORef() { if (p && --p->rc == 0) delete p; } };
static const u64 OFF0 = 0x10000000ull; static const u64 FNREG = 8;
static inline u64 objBase(u64 id) { return ((id + 16) << 32) + OFF0; }

// ---------------------------------------------------------------- predecoded code
struct Opn { int32_t s; }; // >=0 slot, <0 pool index ~s
struct FInfo;
struct Inst { unsigned op; int32_t dst; uint16_t n; uint16_t w; uint32_t nops; int32_t* ops; const Instruction* I; u64 imm; u64 imm2; void* aux; };
struct PhiE { int32_t dst; uint16_t n; std::vector<int32_t> in; std::vector<int> from; };
struct BInfo { int first; std::vector<PhiE> phis; };
struct GepPart { int32_t op; uint16_t w; i64 scale; };
struct FInfo { Function* F; bool decl; int nslots = 0; std::vector<Val> pool; std::vector<Inst> code; std::vector<BInfo> blocks; std::vector<std::pair<int,int>> args; int builtin = -1; bool decoded = false; std::string name; };
struct Frame { FInfo* f; int ip; int bb, prev; std::vector<Val> r; size_t nobj; const Inst* callI; std::vector<Val> va; };
struct RecList { int rc = 0; RecList* next; char kind; std::string name; i64 val; unsigned esz; std::vector<LExpr*> es; };
struct State {
  std::vector<Frame> fr; std::vector<ORef> objs; std::vector<LExpr*> pc; std::vector<std::pair<LExpr*, u64>> conc;
  RecList* rec = nullptr; std::vector<std::pair<std::string, i64>> choices; std::vector<std::pair<Val, unsigned>> obs; u64 steps = 0; bool gone = false; u64 heapBytes = 0;
  int nsymcreated = 0; struct Pend { LExpr* n; std::string label, loc; }; std::vector<Pend> pend;
  State() { st.states++; } State(const State& o) : fr(o.fr), objs(o.objs), pc(o.pc), conc(o.conc), rec(o.rec), choices(o.choices), obs(o.obs), steps(o.steps), gone(o.gone), heapBytes(o.heapBytes), nsymcreated(o.nsymcreated), pend(o.pend) { if (rec) rec->rc++; st.states++; }
  ~State() { while (rec && --rec->rc == 0) { RecList* n = rec->next; delete rec; rec = n; } }
  void addRec(char k, const std::string& n, i64 v, unsigned esz, std::vector<LExpr*> es) { RecList* r = new RecList; r->rc = 1; r->next = rec; r->kind = k; r->name = n; r->val = v; r->esz = esz; r->es = std::move(es); rec = r; }
};
struct PathReturn {}; // the harness returns early (lce_end)
struct PathEnd {};   // thrown to end the current path

static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*, FInfo*> finfo; static std::vector<FInfo*> fnByIdx; static std::unordered_map<const Function*, u64> fnAddr;
static std::unordered_map<const GlobalVariable*, u64> gAddr;
static std::vector<State*> work; static State* cur;
static std::atomic<uint8_t>* claimTab; static const u64 CLAIMN = 1 << 22; static u64 goCounter = 0;

static LExpr* ex(const Val& v, unsigned w) {
  if (v.e == UNDEF) { return X.sym("undef", w); }
  return v.e ? v.e : X.cst(v.c, w); }
static Val mk(LExpr* e) { Val v; if (e->op == E_CONST && e->width <= 64) { v.c = (u64)e->c; return v; } v.e = e; return v; }
static Val mkc(u64 c) { Val v; v.c = c; return v; }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

static std::string locOf(const Instruction* I) {
  std::string s = I->getFunction()->getName().str(); if (s.size() > 120) s = s.substr(0, 120);
  if (DILocation* d = I->getDebugLoc()) { std::string f = d->getFilename().str(); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); s = f + ":" + std::to_string(d->getLine()); DILocation* o = d; int n = 0; while ((o = o->getInlinedAt()) && n++ < 6) { std::string g = o->getFilename().str(); auto q = g.rfind('/'); if (q != std::string::npos) g = g.substr(q + 1); s += " <- " + g + ":" + std::to_string(o->getLine()); } }
  return s; }
static const Instruction* curI = nullptr;
static const std::string* locOverride; static std::string curLoc() { if (locOverride) return *locOverride; std::string s; if (!cur) return s; int n = 0; for (int i = (int)cur->fr.size() - 1; i >= 0 && n < 8; i--, n++) { Frame& f = cur->fr[i]; if (f.ip < 0 || (size_t)f.ip >= f.f->code.size()) continue; const Inst& in = f.f->code[f.ip]; if (in.I) s += (n ? " << " : "") + locOf(in.I); } return s; }

// ---------------------------------------------------------------- path constraints and queries
static bool pcHas(LExpr* c) { for (LExpr* e : cur->pc) if (e == c) return true; return false; }
static std::vector<LExpr*> slice(const std::vector<LExpr*>& pc, LExpr* c) {
  std::vector<LExpr*> out{c}; if (pc.empty()) return out; std::set<uint32_t> s(X.symsOf(c).begin(), X.symsOf(c).end()); std::vector<char> used(pc.size());
  bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto& y = X.symsOf(pc[i]); bool hit = false; for (uint32_t v : y) if (s.count(v)) { hit = true; break; } if (hit) { used[i] = 1; out.push_back(pc[i]); s.insert(y.begin(), y.end()); ch = true; } } }
  return out; }
static bool evalAll(const std::vector<LExpr*>& c, const std::vector<u128>& m) { std::unordered_map<LExpr*, u128> memo; for (LExpr* e : c) if (!(X.eval(e, m, memo) & 1)) return false; return true; }
static std::mt19937_64 rng;
static std::vector<u128> randAsg() { std::vector<u128> a(X.symexprs.size()); for (size_t i = 0; i < a.size(); i++) { LExpr* e = X.symexprs[i]; unsigned w = e->width; u64 v = rng();
    if (w <= 64) { i64 smn = sext64(1ull << (w - 1), w), smx = (i64)(maskw(w) >> 1); if (e->smin != smn || e->smax != smx) { u64 span = (u64)(e->smax - e->smin) + 1; v = (u64)(e->smin + (i64)(span ? v % span : v)); }
      else if (w == 32 && (rng() & 3)) { static const float fs[] = {0.f, -0.f, 1.f, -1.f, 0.5f, -0.5f, 3.25f, -7.f, 1e-3f, -1e-3f, 100.f, -250.f, NAN, INFINITY}; u64 q = rng() % 20; float f = q < 14 ? fs[q] : (float)((double)(int)(rng() % 20001 - 10000) / 512.0); v = X.bitsF(f); } }
    a[i] = (u128)v & maskw(w); } return a; }

static double qTmo = 0;
// may `c` be true under the path condition?   (UF abstraction: over-approximate)
static Res feasible(LExpr* c) {
  if (X.isC(c)) return c->c ? R_SAT : R_UNSAT; if (pcHas(c)) return R_SAT; LExpr* n = X.not_(c); if (pcHas(n)) return R_UNSAT;
  auto q = slice(cur->pc, c); return S->check(q, false, nullptr); }
static void flushPend();
static void addPC(LExpr* c) { flushPend(); if (X.isC(c)) { if (!c->c) { st.infeasible++; throw PathEnd(); } return; } if (pcHas(c)) return;
  if (c->op == E_AND && c->width == 1) { std::vector<LExpr*> k(c->k, c->k + c->nk); for (LExpr* x : k) addPC(x); return; }
  cur->pc.push_back(c); }
// exact search for a model of pc & c. R_SAT -> model filled.
static Res exactModel(LExpr* c, std::vector<u128>& m) {
  std::vector<LExpr*> q = cur->pc; q.push_back(c); bool fp = false; for (LExpr* e : q) fp |= e->hasfp;
  if (!fp) { Res r = S->check(q, false, &m, 60000); return r; }
  auto sl = slice(cur->pc, c);
  Res r = S->check(sl, false, nullptr); if (r == R_UNSAT) return R_UNSAT;
  r = S->check(q, false, &m); if (r == R_UNSAT) return R_UNSAT; if (r == R_SAT && evalAll(q, m)) return R_SAT;
  for (int i = 0; i < 200; i++) { auto a = randAsg(); if (i & 1) { // mix model with random
        if (m.size() == a.size()) for (size_t j = 0; j < a.size(); j++) if (rng() & 1) a[j] = m[j]; }
    if (evalAll(q, a)) { m = a; return R_SAT; } }
  r = S->check(sl, true, &m); if (r == R_UNSAT) return R_UNSAT;
  if (r == R_SAT) { if (evalAll(q, m)) return R_SAT; if (sl.size() == q.size()) { // FP NaN payload differences etc.
      return R_SAT; } }
  return S->check(q, true, &m); }

static std::string replayText(const std::vector<u128>& m) {
  std::vector<RecList*> l; for (RecList* r = cur->rec; r; r = r->next) l.push_back(r); std::reverse(l.begin(), l.end()); std::unordered_map<LExpr*, u128> memo; std::string s; char b[64];
  for (RecList* r : l) { if (r->kind == 'C') { s += "C " + r->name + " " + std::to_string(r->val) + "\n"; }
    else if (r->kind == 'I') { s += "I " + r->name + " " + std::to_string((i64)(u64)X.eval(r->es[0], m, memo)) + "\n"; }
    else { s += "A " + r->name + " " + std::to_string(r->esz) + " " + std::to_string(r->es.size()); for (LExpr* e : r->es) { snprintf(b, 64, " %llx", (unsigned long long)(u64)X.eval(e, m, memo)); s += b; } s += "\n"; } }
  return s; }

static std::map<std::string, int> violCount;
static void addViol(const std::string& kind, const std::string& label, const std::vector<u128>& m) {
  std::string key = kind + "|" + label; if (violCount[key]++ >= optMaxViol) return;
  Viol v; v.kind = kind; v.label = label; v.loc = curLoc(); v.choices = cur->choices; v.replay = replayText(m); viols.push_back(v);
  if (!knownLabels.count(label)) { int64_t n = ++shared->viols, end = (int64_t)((nowS() - tStart) * 1000) + (n == 1 ? 45000 : n < 6 ? 20000 : 3000), o = shared->softEndMs; while (end < o && !shared->softEndMs.compare_exchange_weak(o, end)) {} }
  if (optVerbose) { fprintf(stderr, "[w%d] VIOL %s %s at %s\n", workerId, kind.c_str(), label.c_str(), v.loc.c_str()); } }
// the error condition c may hold
static void violation(const std::string& kind, const std::string& label, LExpr* c) {
  std::string key = kind + "|" + label; auto it = violCount.find(key); if (it != violCount.end() && it->second >= optMaxViol) { it->second++; return; }
  std::vector<u128> m; Res r = exactModel(c, m);
  if (r == R_SAT) addViol(kind, label, m); else if (r == R_UNKNOWN) incon("solver unknown deciding " + kind + " " + label + " at " + curLoc()); }

// asserted conditions are decided in batches: one query for the disjunction of the pending negations
static void flushPend() {
  if (cur->pend.empty()) return; std::vector<State::Pend> P; P.swap(cur->pend);
  if (P.size() > 1) { LExpr* o = X.fls(); for (auto& p : P) o = X.or_(o, p.n); if (!X.isC(o)) { auto q = slice(cur->pc, o); if (S->check(q, false, nullptr, 5000) == R_UNSAT) return; } }
  for (auto& p : P) { auto q = slice(cur->pc, p.n); if (S->check(q, false, nullptr) == R_UNSAT) continue; locOverride = &p.loc; violation("assert", p.label, p.n); locOverride = nullptr; } }
static void errNow(const std::string& kind, const std::string& label) { violation(kind, label, X.tru()); throw PathEnd(); }

static State* forkState() { flushPend(); st.forks++; return new State(*cur); }
// decide a symbolic condition; forks when both outcomes are possible.  The forked state re-executes the current instruction
// unless handled by caller.  Returns chosen truth for the current state; pushes other state via callback.
static bool branchDecide(LExpr* c, std::function<void(State*, bool)> other) {
  Res rt = feasible(c); if (rt == R_UNSAT) { addPC(X.not_(c)); return false; }
  Res rf = feasible(X.not_(c)); if (rf == R_UNSAT) { addPC(c); return true; }
  if (rt == R_UNKNOWN || rf == R_UNKNOWN) incon("solver unknown at branch " + curLoc());
  State* o = forkState(); State* me = cur; cur = o; bool ok = true; try { addPC(X.not_(c)); } catch (PathEnd&) { ok = false; } cur = me; if (ok) { other(o, false); work.push_back(o); } else delete o;
  addPC(c); return true; }

// concretise a value: forks over all feasible values; current instruction is re-executed in the forks
static u64 concretize(Val v, unsigned w, const char* why) {
  if (!sy(v)) return v.c; LExpr* e = ex(v, w); if (X.isC(e)) return (u64)e->c;
  for (auto& p : cur->conc) if (p.first == e) return p.second;
  std::vector<u64> vals; std::vector<LExpr*> q = slice(cur->pc, e); q.erase(q.begin());
  if (e->op == E_ITE && X.iteConst(e)) { std::vector<LExpr*> stk{e}; std::set<u64> s; while (!stk.empty()) { LExpr* x = stk.back(); stk.pop_back(); if (X.isC(x)) s.insert((u64)x->c); else { stk.push_back(x->k[1]); stk.push_back(x->k[2]); } } for (u64 k : s) if (feasible(X.eq(e, X.cst(k, w))) != R_UNSAT) vals.push_back(k); }
  else while (true) { std::vector<u128> m; std::vector<LExpr*> qq = q; 
      for (u64 k : vals) qq.push_back(X.not_(X.eq(e, X.cst(k, w))));
      // make sure e's symbols take part
      qq.push_back(X.tru()); Res r = R_SAT; { std::vector<LExpr*> q2; for (LExpr* x : qq) if (!X.isC(x)) q2.push_back(x); else if (!x->c) { r = R_UNSAT; } if (r == R_SAT) { r = S->check(q2, false, &m); } }
      if (r == R_UNSAT) break; if (r == R_UNKNOWN) { incon(std::string("solver unknown concretising ") + why + " at " + curLoc()); break; }
      std::unordered_map<LExpr*, u128> memo; u64 k = (u64)X.eval(e, m, memo); bool dup = false; for (u64 x : vals) dup |= x == k; if (dup) { incon(std::string("concretise loop ") + why + " at " + curLoc()); break; } vals.push_back(k);
      if ((int)vals.size() > optMaxEnum) { incon(std::string("too many values concretising ") + why + " at " + curLoc()); break; } }
  if (vals.empty()) { st.infeasible++; throw PathEnd(); }
  for (size_t i = 1; i < vals.size(); i++) { State* o = forkState(); State* me = cur; cur = o; bool ok = true; try { addPC(X.eq(e, X.cst(vals[i], w))); } catch (PathEnd&) { ok = false; } cur = me; o->conc.push_back({e, vals[i]}); if (ok) work.push_back(o); else delete o; }
  addPC(X.eq(e, X.cst(vals[0], w))); cur->conc.push_back({e, vals[0]}); return vals[0]; }

// ---------------------------------------------------------------- objects
static u64 newObj(ObjKind k, uint32_t size, uint32_t wsize, const char* name, bool undef) {
  Obj* o = new Obj; o->kind = k; o->size = size; o->wsize = wsize; o->name = name; o->d.assign(size, 0);
  if (undef) { o->s.assign(size, SymByte{UNDEF, 0}); o->nsym = size; }
  cur->objs.push_back(ORef(o)); return objBase(cur->objs.size() - 1); }
static Obj* wobj(u64 id) { ORef& r = cur->objs[id]; if (r.p->rc > 1) { Obj* n = new Obj(*r.p); n->rc = 0; r = ORef(n); } return r.p; }
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static bool resolve(u64 addr, u64 n, bool wr, u64& id, u64& off, std::string& err) {
  u64 reg = addr >> 32; if (reg < 8) { err = "null/invalid pointer dereference"; return false; } if (reg < 16) { err = "access to code address"; return false; }
  id = reg - 16; if (id >= cur->objs.size()) { err = "access through wild or dangling stack pointer"; return false; }
  Obj* o = cur->objs[id].p; i64 of = (i64)(addr & 0xffffffffull) - (i64)OFF0;
  if (o->kind == K_DEAD) { err = "use after free/return of " + std::string(o->name); return false; }
  u64 lim = wr ? o->wsize : o->size;
  if (of < 0 || (u64)of + n > lim) { err = std::string("out-of-bounds ") + (wr ? "write" : "read") + " of '" + o->name + "' (size " + std::to_string(wr ? o->wsize : o->size) + ") at offset " + std::to_string(of) + " length " + std::to_string(n); return false; }
  if (wr && o->readonly) { err = "write to read-only object '" + std::string(o->name) + "'"; return false; }
  off = (u64)of; return true; }
static Val loadAt(u64 addr, unsigned bytes, unsigned w) {
  u64 id, off; std::string err; if (!resolve(addr, bytes, false, id, off, err)) errNow("memory", err);
  Obj* o = cur->objs[id].p; bool conc = true; if (o->nsym) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i].e) { conc = false; break; }
  if (conc) { if (bytes <= 8) { u64 v = 0; memcpy(&v, &o->d[off], bytes); return mkc(v & mask64(w)); } u128 v = 0; for (int i = bytes - 1; i >= 0; i--) v = (v << 8) | o->d[off + i]; return Val{0, X.cst(v & maskw(w), w)}; }
  SymByte* s = &o->s[off];
  bool allu = true; for (unsigned i = 0; i < bytes; i++) if (s[i].e != UNDEF) { allu = false; break; }
  if (allu) return Val{0, UNDEF};
  // whole expression?
  LExpr* e = s[0].e; if (e && e != UNDEF) { bool ok = true; for (unsigned i = 1; i < bytes; i++) if (s[i].e != e || s[i].idx != s[0].idx + i) { ok = false; break; } if (ok) { if (s[0].idx == 0 && e->width == w) return mk(e); return mk(X.extract(e, s[0].idx * 8, w)); } }
  LExpr* r = nullptr;
  for (unsigned i = 0; i < bytes; i++) { LExpr* b; SymByte sb = s[i]; if (!sb.e) b = X.cst(o->d[off + i], 8); else if (sb.e == UNDEF) { b = X.sym("undef", 8); o = wobj(id); s = &o->s[off]; s[i] = SymByte{b, 0}; } else { // merge run
      unsigned j = i; while (j + 1 < bytes && s[j + 1].e == sb.e && s[j + 1].idx == sb.idx + (j + 1 - i)) j++; b = X.extract(sb.e, sb.idx * 8, (j - i + 1) * 8); i = j; }
    r = r ? X.concat(b, r) : b; }
  if (r->width != w) r = X.extract(r, 0, w); return mk(r); }
static void storeAt(u64 addr, unsigned bytes, unsigned w, Val v) {
  u64 id, off; std::string err; if (!resolve(addr, bytes, true, id, off, err)) errNow("memory", err);
  Obj* o = wobj(id);
  if (!sy(v)) { u64 c = v.c; memcpy(&o->d[off], &c, std::min(bytes, 8u)); if (bytes > 8) memset(&o->d[off + 8], 0, bytes - 8); if (o->nsym) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i].e) { o->s[off + i].e = nullptr; o->nsym--; } return; }
  if (o->s.empty()) o->s.assign(o->size, SymByte{nullptr, 0});
  if (v.e == UNDEF) { for (unsigned i = 0; i < bytes; i++) { if (!o->s[off + i].e) o->nsym++; o->s[off + i] = SymByte{UNDEF, 0}; } return; }
  LExpr* e = v.e; if (e->width != bytes * 8) e = X.zext(e, bytes * 8);
  if (X.isC(e)) { for (unsigned i = 0; i < bytes; i++) { o->d[off + i] = (uint8_t)(e->c >> (8 * i)); if (o->s[off + i].e) { o->s[off + i].e = nullptr; o->nsym--; } } return; }
  for (unsigned i = 0; i < bytes; i++) { if (!o->s[off + i].e) o->nsym++; o->s[off + i] = SymByte{e, i}; } }
// enumerate feasible addresses for loads without forking
static Val loadV(Val a, unsigned bytes, unsigned w) {
  if (!sy(a)) return loadAt(a.c, bytes, w);
  if (a.e == UNDEF) errNow("memory", "load through uninitialised pointer");
  LExpr* e = a.e; for (auto& p : cur->conc) if (p.first == e) return loadAt(p.second, bytes, w);
  // ITE addresses
  if (e->op == E_ITE) { LExpr* c = e->k[0]; Res ra = feasible(c), rb = feasible(X.not_(c)); if (ra == R_UNSAT) return loadV(mk(e->k[2]), bytes, w); if (rb == R_UNSAT) return loadV(mk(e->k[1]), bytes, w);
    if (e->k[1]->op == E_CONST && e->k[2]->op == E_CONST) { u64 id, off; std::string err; bool ok = resolve((u64)e->k[1]->c, bytes, false, id, off, err) && resolve((u64)e->k[2]->c, bytes, false, id, off, err); if (ok) { Val x = loadAt((u64)e->k[1]->c, bytes, w), y = loadAt((u64)e->k[2]->c, bytes, w); if (x.e == UNDEF && y.e == UNDEF) return x; return mk(X.ite(c, ex(x, w), ex(y, w))); } } }
  return loadAt(concretize(a, 64, "load address"), bytes, w); }

// ---------------------------------------------------------------- types
static void leaves(Type* t, std::vector<std::pair<unsigned, u64>>& out, u64 base = 0) { // (width, byte offset)
  if (t->isVoidTy()) return; if (auto* it = dyn_cast<IntegerType>(t)) { out.push_back({it->getBitWidth(), base}); return; }
  if (t->isPointerTy()) { out.push_back({64, base}); return; } if (t->isFloatTy()) { out.push_back({32, base}); return; } if (t->isDoubleTy()) { out.push_back({64, base}); return; }
  if (t->isHalfTy() || t->isBFloatTy()) { out.push_back({16, base}); return; }
  if (t->isX86_FP80Ty()) { out.push_back({80, base}); return; }
  if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), out, base + sl->getElementOffset(i)); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out, base + i * es); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { unsigned eb = DL->getTypeSizeInBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) { std::vector<std::pair<unsigned, u64>> l; leaves(v->getElementType(), l, base + (eb * i) / 8); out.insert(out.end(), l.begin(), l.end()); } return; }
  if (t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
  std::string s; raw_string_ostream os(s); t->print(os); fprintf(stderr, "unsupported type %s\n", os.str().c_str()); exit(3); }
static unsigned nleaves(Type* t) { std::vector<std::pair<unsigned, u64>> l; leaves(t, l); return l.size(); }
static unsigned scalarW(Type* t) { t = t->getScalarType(); if (t->isPointerTy()) return 64; return t->getPrimitiveSizeInBits(); }

static u64 constAddr(const Constant* C);
static void constVal(const Constant* C, std::vector<Val>& out) {
  Type* t = C->getType();
  if (isa<UndefValue>(C)) { unsigned n = nleaves(t); for (unsigned i = 0; i < n; i++) out.push_back(Val{0, UNDEF}); return; }
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { APInt a = ci->getValue(); u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64; out.push_back(Val{0, X.cst(v, a.getBitWidth())}); } else out.push_back(mkc(ci->getZExtValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) { fprintf(stderr, "long double constant\n"); out.push_back(mkc(0)); return; } out.push_back(mkc(a.getZExtValue())); return; }
  if (C->isNullValue()) { unsigned n = nleaves(t); for (unsigned i = 0; i < n; i++) out.push_back(mkc(0)); return; }
  if (t->isPointerTy()) { out.push_back(mkc(constAddr(C))); return; }
  if (auto* ca = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < ca->getNumElements(); i++) constVal(ca->getElementAsConstant(i), out); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVal(ca->getOperand(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) { unsigned w = scalarW(t);
    auto op = [&](int i) { std::vector<Val> v; constVal(ce->getOperand(i), v); return v[0].c; };
    switch (ce->getOpcode()) { case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::Trunc: out.push_back(mkc(op(0) & mask64(w))); return;
      case Instruction::Sub: out.push_back(mkc((op(0) - op(1)) & mask64(w))); return; case Instruction::Add: out.push_back(mkc((op(0) + op(1)) & mask64(w))); return;
      case Instruction::Mul: out.push_back(mkc((op(0) * op(1)) & mask64(w))); return; case Instruction::Xor: out.push_back(mkc((op(0) ^ op(1)) & mask64(w))); return;
      case Instruction::ICmp: { u64 a = op(0), b = op(1); bool r; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: r = 0; } out.push_back(mkc(r)); return; }
      default: break; } }
  std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); exit(3); }
static u64 constAddr(const Constant* C) {
  if (isa<ConstantPointerNull>(C)) return 0;
  if (auto* f = dyn_cast<Function>(C)) return fnAddr[f];
  if (auto* g = dyn_cast<GlobalVariable>(C)) { auto it = gAddr.find(g); if (it == gAddr.end()) { fprintf(stderr, "no address for global\n"); exit(3); } return it->second; }
  if (auto* a = dyn_cast<GlobalAlias>(C)) return constAddr(a->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep const\n"); exit(3); } return constAddr(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
    if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return constAddr(ce->getOperand(0));
    if (ce->getOpcode() == Instruction::IntToPtr) { std::vector<Val> v; constVal(ce->getOperand(0), v); return v[0].c; } }
  if (isa<UndefValue>(C)) return 0;
  std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "unsupported constant address %s\n", os.str().c_str()); exit(3); }

// ---------------------------------------------------------------- decode
enum { OP_BUILTIN = 1000 };
static int builtinFor(const Function* F);
static FInfo* getF(const Function* F) { auto it = finfo.find(F); return it == finfo.end() ? nullptr : it->second; }
static void collectFns(Function* F) { for (auto& B : *F) for (auto& I : B) if (DILocation* d = I.getDebugLoc()) { for (DILocation* o = d; o; o = o->getInlinedAt()) { DISubprogram* sp = o->getScope()->getSubprogram(); if (!sp) continue; std::string f = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) f = sp->getFilename().str(); auto p = f.find("larq_compute_engine/"); if (p == std::string::npos) continue; if (f.find("/verif/") != std::string::npos) continue; fnEncoded.insert(f.substr(p) + ":" + sp->getName().str()); } } }
static void decode(FInfo* fi) {
  fi->decoded = true; Function* F = fi->F; collectFns(F);
  std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx; int n = 0;
  for (auto& a : F->args()) { unsigned k = nleaves(a.getType()); slot[&a] = n; fi->args.push_back({n, (int)k}); n += k; }
  int bi = 0; for (auto& B : *F) { bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nleaves(I.getType()); } }
  fi->nslots = n; std::unordered_map<const Constant*, int> cp;
  auto opnd = [&](const Value* v) -> int32_t { if (auto* c = dyn_cast<Constant>(v)) { auto it = cp.find(c); if (it != cp.end()) return ~it->second; int p = fi->pool.size(); constVal(c, fi->pool); cp[c] = p; return ~p; } 
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return ~0; auto it = slot.find(v); if (it == slot.end()) { fprintf(stderr, "no slot\n"); exit(3); } return it->second; };
  fi->pool.push_back(mkc(0));
  for (auto& B : *F) { BInfo b; b.first = fi->code.size();
    for (auto& I : B) {
      if (auto* p = dyn_cast<PHINode>(&I)) { PhiE pe; pe.dst = slot[p]; pe.n = nleaves(p->getType()); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { pe.in.push_back(opnd(p->getIncomingValue(i))); pe.from.push_back(bidx[p->getIncomingBlock(i)]); } b.phis.push_back(pe); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Inst in; memset(&in, 0, sizeof in); in.op = I.getOpcode(); in.I = &I; in.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; in.n = I.getType()->isVoidTy() ? 0 : nleaves(I.getType()); in.w = 0;
      if (!I.getType()->isVoidTy() && !I.getType()->isAggregateType()) in.w = scalarW(I.getType());
      std::vector<int32_t> ops; 
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        auto* parts = new std::vector<GepPart>; i64 cst = 0; ops.push_back(opnd(g->getPointerOperand())); 
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) { const Value* idx = gti.getOperand(); if (StructType* sty = gti.getStructTypeOrNull()) { cst += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
          else { i64 sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) cst += ci->getSExtValue() * sc; else parts->push_back({opnd(idx), (uint16_t)scalarW(idx->getType()), sc}); } }
        in.imm = (u64)cst; in.aux = parts;
      } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { ops.push_back(opnd(br->getCondition())); in.imm = bidx[br->getSuccessor(0)]; in.imm2 = bidx[br->getSuccessor(1)]; } else in.imm = bidx[br->getSuccessor(0)]; }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { ops.push_back(opnd(sw->getCondition())); in.w = scalarW(sw->getCondition()->getType()); in.imm = bidx[sw->getDefaultDest()]; auto* cs = new std::vector<std::pair<u64, int>>; for (auto& c : sw->cases()) cs->push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); in.aux = cs; }
      else if (auto* cb = dyn_cast<CallBase>(&I)) { for (unsigned i = 0; i < cb->arg_size(); i++) ops.push_back(opnd(cb->getArgOperand(i))); if (!cb->isInlineAsm()) ops.push_back(opnd(cb->getCalledOperand())); else ops.push_back(~0); if (auto* iv = dyn_cast<InvokeInst>(&I)) in.imm = bidx[iv->getNormalDest()]; }
      else for (auto& o : I.operands()) ops.push_back(isa<BasicBlock>(o.get()) ? 0 : opnd(o.get()));
      if (auto* al = dyn_cast<AllocaInst>(&I)) { in.imm = DL->getTypeAllocSize(al->getAllocatedType()); }
      if (auto* ic = dyn_cast<CmpInst>(&I)) { in.imm = ic->getPredicate(); in.w = scalarW(ic->getOperand(0)->getType()); }
      if (isa<CastInst>(&I)) in.imm = scalarW(I.getOperand(0)->getType());
      if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { Type* t = ev->getAggregateOperand()->getType(); unsigned off = 0; for (unsigned x : ev->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < x; i++) off += nleaves(s->getElementType(i)); t = s->getElementType(x); } else { auto* a = cast<ArrayType>(t); off += x * nleaves(a->getElementType()); t = a->getElementType(); } } in.imm = off; }
      if (auto* iv = dyn_cast<InsertValueInst>(&I)) { Type* t = iv->getAggregateOperand()->getType(); unsigned off = 0; for (unsigned x : iv->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < x; i++) off += nleaves(s->getElementType(i)); t = s->getElementType(x); } else { auto* a = cast<ArrayType>(t); off += x * nleaves(a->getElementType()); t = a->getElementType(); } } in.imm = off; in.imm2 = nleaves(t); }
      if (isa<LoadInst>(&I) || isa<StoreInst>(&I)) { Type* t = isa<LoadInst>(&I) ? I.getType() : I.getOperand(0)->getType(); auto* l = new std::vector<std::pair<unsigned, u64>>; leaves(t, *l); in.aux = l; }
      in.nops = ops.size(); in.ops = new int32_t[ops.size() + 1]; std::copy(ops.begin(), ops.end(), in.ops);
      fi->code.push_back(in); }
    fi->blocks.push_back(b); }
}
static inline const Val& G(Frame& f, int32_t o, int lane = 0) { return o >= 0 ? f.r[o + lane] : f.f->pool[~o + lane]; }

static Val binop(unsigned op, const Val& a, const Val& b, unsigned w) {
  if (!sy(a) && !sy(b) && w <= 64) { u64 x = a.c, y = b.c, m = mask64(w); switch (op) {
      case Instruction::Add: return mkc((x + y) & m); case Instruction::Sub: return mkc((x - y) & m); case Instruction::Mul: return mkc((x * y) & m);
      case Instruction::And: return mkc(x & y); case Instruction::Or: return mkc(x | y); case Instruction::Xor: return mkc(x ^ y);
      case Instruction::Shl: return mkc(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return mkc(y >= w ? 0 : x >> y); case Instruction::AShr: return mkc((u64)(sext64(x, w) >> (y >= w ? w - 1 : y)) & m);
      case Instruction::UDiv: if (!y) errNow("arith", "division by zero"); return mkc(x / y); case Instruction::URem: if (!y) errNow("arith", "division by zero"); return mkc(x % y);
      case Instruction::SDiv: { if (!y) errNow("arith", "division by zero"); i64 p = sext64(x, w), q = sext64(y, w); if (q == -1) return mkc((u64)(0 - (u64)p) & m); return mkc((u64)(p / q) & m); }
      case Instruction::SRem: { if (!y) errNow("arith", "division by zero"); i64 p = sext64(x, w), q = sext64(y, w); if (q == -1) return mkc(0); return mkc((u64)(p % q) & m); } } }
  LExpr *x = ex(a, w), *y = ex(b, w);
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) { LExpr* z = X.eq(y, X.cst(0, w)); if (!(X.isC(z) && !z->c)) { if (feasible(z) != R_UNSAT) { violation("arith", "division by zero", z); } addPC(X.not_(z)); } }
  switch (op) {
    case Instruction::Add: return mk(X.add(x, y)); case Instruction::Sub: return mk(X.sub(x, y)); case Instruction::Mul: return mk(X.mul(x, y));
    case Instruction::And: return mk(X.and_(x, y)); case Instruction::Or: return mk(X.or_(x, y)); case Instruction::Xor: return mk(X.xor_(x, y));
    case Instruction::Shl: return mk(X.shl(x, y)); case Instruction::LShr: return mk(X.lshr(x, y)); case Instruction::AShr: return mk(X.ashr(x, y));
    case Instruction::UDiv: return mk(X.udiv(x, y)); case Instruction::SDiv: return mk(X.sdiv(x, y)); case Instruction::URem: return mk(X.urem(x, y)); case Instruction::SRem: return mk(X.srem(x, y)); }
  abort(); }
static Val fbin(unsigned op, const Val& a, const Val& b, unsigned w) { LExpr *x = ex(a, w), *y = ex(b, w); switch (op) { case Instruction::FAdd: return mk(X.fp(E_FADD, w, w, 0, x, y)); case Instruction::FSub: return mk(X.fsub(x, y)); case Instruction::FMul: return mk(X.fp(E_FMUL, w, w, 0, x, y)); case Instruction::FDiv: return mk(X.fp(E_FDIV, w, w, 0, x, y)); case Instruction::FRem: return mk(X.fp(E_FREM, w, w, 0, x, y)); } abort(); }
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!sy(a) && !sy(b) && w <= 64) { u64 x = a.c, y = b.c; i64 p = sext64(x, w), q = sext64(y, w); bool r; switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; default: r = p >= q; } return mkc(r); }
  LExpr *x = ex(a, w), *y = ex(b, w); switch (pred) { case CmpInst::ICMP_EQ: return mk(X.eq(x, y)); case CmpInst::ICMP_NE: return mk(X.not_(X.eq(x, y))); case CmpInst::ICMP_ULT: return mk(X.ult(x, y)); case CmpInst::ICMP_ULE: return mk(X.ule(x, y)); case CmpInst::ICMP_UGT: return mk(X.ult(y, x)); case CmpInst::ICMP_UGE: return mk(X.ule(y, x)); case CmpInst::ICMP_SLT: return mk(X.slt(x, y)); case CmpInst::ICMP_SLE: return mk(X.sle(x, y)); case CmpInst::ICMP_SGT: return mk(X.slt(y, x)); default: return mk(X.sle(y, x)); } }
static Val fcmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  LExpr *x = ex(a, w), *y = ex(b, w); auto F = [&](Op o, LExpr* p, LExpr* q) { return X.fp(o, 1, w, 0, p, q); }; LExpr* r;
  switch (pred) { case CmpInst::FCMP_FALSE: r = X.fls(); break; case CmpInst::FCMP_TRUE: r = X.tru(); break;
    case CmpInst::FCMP_OEQ: r = F(E_FEQ, x, y); break; case CmpInst::FCMP_UNE: r = X.not_(F(E_FEQ, x, y)); break;
    case CmpInst::FCMP_OLT: r = F(E_FLT, x, y); break; case CmpInst::FCMP_OGT: r = F(E_FLT, y, x); break; case CmpInst::FCMP_OLE: r = F(E_FLE, x, y); break; case CmpInst::FCMP_OGE: r = F(E_FLE, y, x); break;
    case CmpInst::FCMP_UGE: r = X.not_(F(E_FLT, x, y)); break; case CmpInst::FCMP_ULE: r = X.not_(F(E_FLT, y, x)); break; case CmpInst::FCMP_UGT: r = X.not_(F(E_FLE, x, y)); break; case CmpInst::FCMP_ULT: r = X.not_(F(E_FLE, y, x)); break;
    case CmpInst::FCMP_UNO: r = F(E_FUNO, x, y); break; case CmpInst::FCMP_ORD: r = X.not_(F(E_FUNO, x, y)); break;
    case CmpInst::FCMP_ONE: r = X.or_(F(E_FLT, x, y), F(E_FLT, y, x)); break; case CmpInst::FCMP_UEQ: r = X.not_(X.or_(F(E_FLT, x, y), F(E_FLT, y, x))); break; default: abort(); }
  return mk(r); }

static void jump(Frame& f, int to) {
  int from = f.bb; f.prev = from; f.bb = to; BInfo& b = f.f->blocks[to]; f.ip = b.first; if (b.phis.empty()) return;
  static std::vector<Val> tmp; tmp.clear();
  for (auto& p : b.phis) { size_t k = 0; while (p.from[k] != from) k++; for (int i = 0; i < p.n; i++) tmp.push_back(G(f, p.in[k], i)); }
  size_t q = 0; for (auto& p : b.phis) for (int i = 0; i < p.n; i++) f.r[p.dst + i] = tmp[q++]; }

static void pushCall(FInfo* fi, const std::vector<Val>& args, const Inst* callI) {
  if (!fi->decoded) decode(fi); if (cur->fr.size() > 2000) { incon("call depth"); throw PathEnd(); }
  Frame f; f.f = fi; f.bb = 0; f.prev = -1; f.r.resize(fi->nslots); f.nobj = cur->objs.size(); f.callI = callI; size_t k = 0; for (auto& a : fi->args) for (int i = 0; i < a.second; i++) f.r[a.first + i] = args[k++];
  for (; k < args.size(); k++) f.va.push_back(args[k]);
  f.ip = fi->blocks[0].first; cur->fr.push_back(std::move(f)); }

#include "builtins.h"

static void doReturn(const Inst& in) {
  Frame& f = cur->fr.back(); std::vector<Val> rv; if (in.nops) { unsigned n = nleaves(in.I->getOperand(0)->getType()); for (unsigned i = 0; i < n; i++) rv.push_back(G(f, in.ops[0], i)); }
  // kill allocas
  size_t no = f.nobj; for (size_t i = no; i < cur->objs.size(); i++) if (cur->objs[i].p->kind == K_STACK && cur->objs[i].p->tag == (uint8_t)(cur->fr.size() & 0xff)) { static Obj* deadS = nullptr; if (!deadS) { deadS = new Obj; deadS->kind = K_DEAD; deadS->size = deadS->wsize = 0; deadS->name = "stack variable"; deadS->rc = 1; } cur->objs[i] = ORef(deadS); }
  const Inst* ci = f.callI; cur->fr.pop_back(); if (cur->fr.empty()) return; Frame& c = cur->fr.back(); if (!ci) return;
  if (ci->dst >= 0) for (size_t i = 0; i < rv.size() && i < ci->n; i++) c.r[ci->dst + i] = rv[i];
  if (ci->op == Instruction::Invoke) jump(c, (int)ci->imm); else c.ip++; }

static void step() {
  Frame* fp = &cur->fr.back(); Frame& f = *fp; const Inst& in = f.f->code[f.ip]; st.steps++; if (++cur->steps > optMaxSteps) { incon("step limit at " + curLoc()); throw PathEnd(); }
  unsigned w = in.w;
  switch (in.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      for (int i = 0; i < in.n; i++) { Val v = binop(in.op, G(f, in.ops[0], i), G(f, in.ops[1], i), w); f.r[in.dst + i] = v; } f.ip++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      for (int i = 0; i < in.n; i++) f.r[in.dst + i] = fbin(in.op, G(f, in.ops[0], i), G(f, in.ops[1], i), w); f.ip++; return;
    case Instruction::FNeg: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fneg(ex(G(f, in.ops[0], i), w))); f.ip++; return;
    case Instruction::ICmp: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = icmp(in.imm, G(f, in.ops[0], i), G(f, in.ops[1], i), w); f.ip++; return;
    case Instruction::FCmp: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = fcmp(in.imm, G(f, in.ops[0], i), G(f, in.ops[1], i), w); f.ip++; return;
    case Instruction::Select: { Type* ct = in.I->getOperand(0)->getType(); bool vec = ct->isVectorTy(); 
      if (vec) { for (int i = 0; i < in.n; i++) { Val c = G(f, in.ops[0], i), a = G(f, in.ops[1], i), b = G(f, in.ops[2], i); f.r[in.dst + i] = !sy(c) ? (c.c ? a : b) : mk(X.ite(ex(c, 1), ex(a, w), ex(b, w))); } f.ip++; return; }
      Val c = G(f, in.ops[0]); if (!sy(c)) { for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[c.c ? 1 : 2], i); f.r[in.dst + i] = v; } f.ip++; return; }
      std::vector<std::pair<unsigned, u64>> l; leaves(in.I->getType(), l); LExpr* ce = ex(c, 1);
      if (in.I->getType()->isPointerTy() && cur->pc.size()) { if (pcHas(ce)) ce = X.tru(); else if (pcHas(X.not_(ce))) ce = X.fls(); }
      for (int i = 0; i < in.n; i++) { Val a = G(f, in.ops[1], i), b = G(f, in.ops[2], i); f.r[in.dst + i] = mk(X.ite(ce, ex(a, l[i].first), ex(b, l[i].first))); } f.ip++; return; }
    case Instruction::Trunc: for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], i); f.r[in.dst + i] = !sy(v) ? mkc(v.c & mask64(w)) : mk(X.extract(ex(v, in.imm), 0, w)); } f.ip++; return;
    case Instruction::ZExt: for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], i); f.r[in.dst + i] = !sy(v) && w <= 64 ? v : mk(X.zext(ex(v, in.imm), w)); if (!f.r[in.dst + i].e && w > 64) f.r[in.dst + i].e = X.cst(v.c, w); } f.ip++; return;
    case Instruction::SExt: for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], i); f.r[in.dst + i] = !sy(v) && w <= 64 ? mkc((u64)sext64(v.c, in.imm) & mask64(w)) : mk(X.sext(ex(v, in.imm), w)); } f.ip++; return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], i); if (sy(v)) v = v.e == UNDEF ? v : mk(w < in.imm ? X.extract(v.e, 0, w) : X.zext(v.e, w)); else v.c &= mask64(w); f.r[in.dst + i] = v; } f.ip++; return;
    case Instruction::AddrSpaceCast: f.r[in.dst] = G(f, in.ops[0]); f.ip++; return;
    case Instruction::BitCast: { Type *st_ = in.I->getOperand(0)->getType(), *dt = in.I->getType(); std::vector<std::pair<unsigned, u64>> a, b; leaves(st_, a); leaves(dt, b);
      if (a.size() == b.size() && a[0].first == b[0].first) { for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], i); f.r[in.dst + i] = v; } f.ip++; return; }
      LExpr* all = nullptr; bool und = true; for (size_t i = 0; i < a.size(); i++) if (G(f, in.ops[0], i).e != UNDEF) und = false;
      if (und) { for (int i = 0; i < in.n; i++) f.r[in.dst + i] = Val{0, UNDEF}; f.ip++; return; }
      unsigned tot = 0; for (auto& p : a) tot += p.first;
      if (tot <= 128) { for (size_t i = 0; i < a.size(); i++) { LExpr* e = ex(G(f, in.ops[0], i), a[i].first); all = all ? X.concat(e, all) : e; } unsigned pos = 0; for (int i = 0; i < in.n; i++) { f.r[in.dst + i] = mk(X.extract(all, pos, b[i].first)); pos += b[i].first; } }
      else { // per destination leaf
        std::vector<LExpr*> src; for (size_t i = 0; i < a.size(); i++) src.push_back(ex(G(f, in.ops[0], i), a[i].first)); unsigned pos = 0; for (int i = 0; i < in.n; i++) { unsigned need = b[i].first; LExpr* r = nullptr; unsigned p = pos; while (p < pos + need) { unsigned si = p / a[0].first, so = p % a[0].first; unsigned k = std::min(a[0].first - so, pos + need - p); LExpr* x = X.extract(src[si], so, k); r = r ? X.concat(x, r) : x; p += k; } f.r[in.dst + i] = mk(r); pos += need; } }
      f.ip++; return; }
    case Instruction::FPToSI: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fp(E_F2SI, w, in.imm, 0, ex(G(f, in.ops[0], i), in.imm))); f.ip++; return;
    case Instruction::FPToUI: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fp(E_F2UI, w, in.imm, 0, ex(G(f, in.ops[0], i), in.imm))); f.ip++; return;
    case Instruction::SIToFP: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fp(E_SI2F, w, in.imm, 0, ex(G(f, in.ops[0], i), in.imm))); f.ip++; return;
    case Instruction::UIToFP: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fp(E_UI2F, w, in.imm, 0, ex(G(f, in.ops[0], i), in.imm))); f.ip++; return;
    case Instruction::FPExt: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fp(E_FEXT, w, in.imm, 0, ex(G(f, in.ops[0], i), in.imm))); f.ip++; return;
    case Instruction::FPTrunc: for (int i = 0; i < in.n; i++) f.r[in.dst + i] = mk(X.fp(E_FTRUNC, w, in.imm, 0, ex(G(f, in.ops[0], i), in.imm))); f.ip++; return;
    case Instruction::Freeze: for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], i); if (v.e == UNDEF) { std::vector<std::pair<unsigned, u64>> l; leaves(in.I->getType(), l); v = mk(X.sym("undef", l[i].first)); } f.r[in.dst + i] = v; } f.ip++; return;
    case Instruction::GetElementPtr: { auto* parts = (std::vector<GepPart>*)in.aux; Val b = G(f, in.ops[0]); 
      if (in.n != 1) { incon("vector gep"); throw PathEnd(); }
      bool conc = !sy(b); for (auto& p : *parts) conc &= !sy(G(f, p.op));
      if (conc) { u64 a = b.c + in.imm; for (auto& p : *parts) a += (u64)(sext64(G(f, p.op).c, p.w) * p.scale); f.r[in.dst] = mkc(a); }
      else { LExpr* a = X.add(ex(b, 64), X.cst(in.imm, 64)); for (auto& p : *parts) { LExpr* i = ex(G(f, p.op), p.w); i = p.w < 64 ? X.sext(i, 64) : i; a = X.add(a, X.mulc(i, (u64)p.scale)); } f.r[in.dst] = mk(a); }
      f.ip++; return; }
    case Instruction::Load: { auto& l = *(std::vector<std::pair<unsigned, u64>>*)in.aux; Val a = G(f, in.ops[0]);
      if (l.size() == 1) { Val v = loadV(a, (l[0].first + 7) / 8, l[0].first); f.r[in.dst] = v; f.ip++; return; }
      if (in.I->getType()->isVectorTy() && (scalarW(in.I->getType()) % 8)) { unsigned tot = l.size() * scalarW(in.I->getType()); Val v = loadV(a, (tot + 7) / 8, tot); LExpr* e = ex(v, tot); for (size_t i = 0; i < l.size(); i++) f.r[in.dst + i] = mk(X.extract(e, i * l[0].first, l[0].first)); f.ip++; return; }
      u64 ad = concretize(a, 64, "aggregate load"); for (size_t i = 0; i < l.size(); i++) { Val v = loadAt(ad + l[i].second, (l[i].first + 7) / 8, l[i].first); f.r[in.dst + i] = v; } f.ip++; return; }
    case Instruction::Store: { auto& l = *(std::vector<std::pair<unsigned, u64>>*)in.aux; Val a = G(f, in.ops[1]); u64 ad = concretize(a, 64, "store address");
      Type* t = in.I->getOperand(0)->getType(); if (t->isVectorTy() && (scalarW(t) % 8)) { LExpr* e = nullptr; for (size_t i = 0; i < l.size(); i++) { LExpr* x = ex(G(f, in.ops[0], i), l[i].first); e = e ? X.concat(x, e) : x; } unsigned tot = e->width; storeAt(ad, (tot + 7) / 8, tot, mk(X.zext(e, (tot + 7) / 8 * 8))); f.ip++; return; }
      for (size_t i = 0; i < l.size(); i++) storeAt(ad + l[i].second, (l[i].first + 7) / 8, l[i].first, G(f, in.ops[0], i)); f.ip++; return; }
    case Instruction::Alloca: { u64 n = concretize(G(f, in.ops[0]), 64, "alloca size"); u64 a = newObj(K_STACK, in.imm * n, in.imm * n, "stack", true); cur->objs.back().p->tag = (uint8_t)(cur->fr.size() & 0xff); f.r[in.dst] = mkc(a); f.ip++; return; }
    case Instruction::Br: { if (!in.nops) { jump(f, (int)in.imm); return; } Val c = G(f, in.ops[0]); if (!sy(c)) { jump(f, (int)(c.c ? in.imm : in.imm2)); return; }
      u64 t1 = in.imm, t2 = in.imm2; bool t = branchDecide(ex(c, 1), [&](State* o, bool) { jump(o->fr.back(), (int)t2); }); jump(cur->fr.back(), (int)(t ? t1 : t2)); return; }
    case Instruction::Switch: { Val c = G(f, in.ops[0]); auto& cs = *(std::vector<std::pair<u64, int>>*)in.aux; if (!sy(c)) { for (auto& p : cs) if (p.first == c.c) { jump(f, p.second); return; } jump(f, (int)in.imm); return; }
      LExpr* e = ex(c, w); 
      for (auto& p : cs) { LExpr* q = X.eq(e, X.cst(p.first, w)); if (X.isC(q)) { if (q->c) { jump(cur->fr.back(), p.second); return; } continue; }
        // take the case in a fork, continue with the rest here
        Res rt = feasible(q); if (rt == R_UNSAT) continue; Res rf = feasible(X.not_(q)); if (rf == R_UNSAT) { addPC(q); jump(cur->fr.back(), p.second); return; }
        State* o = forkState(); State* me = cur; cur = o; bool ok = true; try { addPC(q); } catch (PathEnd&) { ok = false; } cur = me; if (ok) { jump(o->fr.back(), p.second); work.push_back(o); } else delete o; addPC(X.not_(q)); }
      jump(cur->fr.back(), (int)in.imm); return; }
    case Instruction::ExtractValue: for (int i = 0; i < in.n; i++) { Val v = G(f, in.ops[0], in.imm + i); f.r[in.dst + i] = v; } f.ip++; return;
    case Instruction::InsertValue: { for (int i = 0; i < in.n; i++) { Val v = ((u64)i >= in.imm && (u64)i < in.imm + in.imm2) ? G(f, in.ops[1], i - in.imm) : G(f, in.ops[0], i); f.r[in.dst + i] = v; } f.ip++; return; }
    case Instruction::ExtractElement: { Val ix = G(f, in.ops[1]); u64 k = concretize(ix, scalarW(in.I->getOperand(1)->getType()), "extractelement"); f.r[in.dst] = G(f, in.ops[0], (int)k); f.ip++; return; }
    case Instruction::InsertElement: { u64 k = concretize(G(f, in.ops[2]), scalarW(in.I->getOperand(2)->getType()), "insertelement"); for (int i = 0; i < in.n; i++) { Val v = (u64)i == k ? G(f, in.ops[1]) : G(f, in.ops[0], i); f.r[in.dst + i] = v; } f.ip++; return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(in.I); int n0 = nleaves(sv->getOperand(0)->getType()); std::vector<Val> t; for (int i = 0; i < in.n; i++) { int m = sv->getMaskValue(i); t.push_back(m < 0 ? Val{0, UNDEF} : m < n0 ? G(f, in.ops[0], m) : G(f, in.ops[1], m - n0)); } for (int i = 0; i < in.n; i++) f.r[in.dst + i] = t[i]; f.ip++; return; }
    case Instruction::Ret: doReturn(in); return;
    case Instruction::Unreachable: errNow("unreachable", "reached unreachable code"); return;
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(in.I); u64 ad = concretize(G(f, in.ops[0]), 64, "atomic"); Val o = loadAt(ad, w / 8, w), v = G(f, in.ops[1]), r; switch (a->getOperation()) { case AtomicRMWInst::Add: r = binop(Instruction::Add, o, v, w); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, o, v, w); break; case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::And: r = binop(Instruction::And, o, v, w); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, o, v, w); break; default: incon("atomicrmw"); throw PathEnd(); } storeAt(ad, w / 8, w, r); f.r[in.dst] = o; f.ip++; return; }
    case Instruction::AtomicCmpXchg: { unsigned ww = scalarW(in.I->getOperand(1)->getType()); u64 ad = concretize(G(f, in.ops[0]), 64, "atomic"); Val o = loadAt(ad, ww / 8, ww); Val q = icmp(CmpInst::ICMP_EQ, o, G(f, in.ops[1]), ww); if (sy(q)) { incon("symbolic cmpxchg"); throw PathEnd(); } if (q.c) storeAt(ad, ww / 8, ww, G(f, in.ops[2])); f.r[in.dst] = o; f.r[in.dst + 1] = q; f.ip++; return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(in.I); if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { if (in.dst >= 0) for (int i = 0; i < in.n; i++) f.r[in.dst + i] = Val{0, UNDEF}; f.ip++; return; } incon("inline asm at " + curLoc()); throw PathEnd(); }
      Function* callee = cb->getCalledFunction(); if (!callee) if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) callee = dyn_cast<Function>(al->getAliaseeObject()); FInfo* fi = nullptr; if (callee) fi = getF(callee);
      else { Val t = G(f, in.ops[in.nops - 1]); u64 a = concretize(t, 64, "call target"); if ((a >> 32) != FNREG) errNow("memory", "call through invalid function pointer"); u64 k = ((a & 0xffffffff) - 0x1000) / 16; if (k >= fnByIdx.size()) errNow("memory", "call through invalid function pointer"); fi = fnByIdx[k]; }
      if (fi->builtin == -1) fi->builtin = builtinFor(fi->F);
      if (fi->builtin > 0) { int b = fi->builtin; callBuiltin(b, fi, in); return; }
      if (fi->decl) { incon("call of unmodelled external function " + fi->name + " at " + curLoc()); throw PathEnd(); }
      std::vector<Val> args; for (unsigned i = 0; i + 1 < in.nops; i++) { Type* t = cb->getArgOperand(i)->getType(); unsigned n = nleaves(t); if (cb->isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 src = concretize(G(f, in.ops[i]), 64, "byval"); u64 dst = newObj(K_STACK, sz, sz, "byval", true); cur->objs.back().p->tag = (uint8_t)((cur->fr.size() + 1) & 0xff); memcopy(dst, src, sz); args.push_back(mkc(dst)); continue; } for (unsigned k = 0; k < n; k++) args.push_back(G(f, in.ops[i], k)); }
      size_t no = cur->objs.size(); (void)no; pushCall(fi, args, &in); return; }
    case Instruction::VAArg: incon("va_arg"); throw PathEnd();
    default: incon(std::string("unsupported instruction ") + in.I->getOpcodeName()); throw PathEnd();
  }
}

static void initGlobals() {
  for (auto& F : *M) { FInfo* fi = new FInfo; fi->F = &F; fi->decl = F.isDeclaration(); fi->name = F.getName().str(); finfo[&F] = fi; fnAddr[&F] = (FNREG << 32) + 0x1000 + 16 * fnByIdx.size(); fnByIdx.push_back(fi); }
  for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(g.getValueType()); std::string* nm = new std::string(g.getName().str()); if (g.isDeclaration() && sz < 4096) sz = std::max<u64>(sz, 64); gAddr[&g] = newObj(K_GLOBAL, sz, sz, nm->c_str(), false); }
  for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.") || g.isDeclaration()) continue; std::vector<std::pair<unsigned, u64>> l; leaves(g.getValueType(), l); const Constant* C = g.getInitializer(); u64 a = gAddr[&g]; if (C->isNullValue()) continue; std::vector<Val> v; constVal(C, v); for (size_t i = 0; i < l.size(); i++) { Val x = v[i]; if (x.e == UNDEF) x = mkc(0); storeAt(a + l[i].second, (l[i].first + 7) / 8, l[i].first, x); } }
  for (auto& g : M->globals()) if (gAddr.count(&g) && g.isConstant() && !g.isDeclaration()) { u64 id = (gAddr[&g] >> 32) - 16; cur->objs[id].p->readonly = true; }
}

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

static void pathDone() { flushPend();
  st.paths++;
  if (samples.size() < 8 || (rng() % std::max<u64>(1, st.paths)) < 2) { std::string s; for (auto& c : cur->choices) s += c.first + "=" + std::to_string(c.second) + " "; s += "| path conditions: " + std::to_string(cur->pc.size()) + ", instructions: " + std::to_string(cur->steps); if (samples.size() < 8) samples.push_back(s); else samples[rng() % 8] = s; }
  // cross validation trace
  bool take = (int)traces.size() < optTraces || (rng() % (st.paths + 1)) < (u64)optTraces; if (!take || cur->obs.empty()) return;
  std::vector<u128> m; bool ok = false; for (int i = 0; i < 8 && !ok; i++) { m = randAsg(); if (evalAll(cur->pc, m)) ok = true; }
  if (!ok) { if (exactModel(X.tru(), m) != R_SAT || !evalAll(cur->pc, m)) return; }
  std::unordered_map<LExpr*, u128> memo; std::string t = replayText(m); bool und = false; char b[64];
  for (auto& o : cur->obs) { if (o.first.e == UNDEF) { und = true; break; } LExpr* e = ex(o.first, o.second); u64 v = (u64)X.eval(e, m, memo); for (uint32_t s : X.symsOf(e)) if (X.syminfo[s].name == "undef") und = true; snprintf(b, 64, "O %llx\n", (unsigned long long)v); t += b; }
  if (und) return; if ((int)traces.size() < optTraces) traces.push_back(t); else traces[rng() % traces.size()] = t; }

static void writeOut(int wid) {
  std::string p = optOut + ".w" + std::to_string(wid) + ".json"; std::ofstream o(p);
  o << "{\n\"steps\":" << st.steps << ",\"paths\":" << st.paths << ",\"forks\":" << st.forks << ",\"states\":" << st.states << ",\"asserts\":" << st.asserts << ",\"asserts_folded\":" << st.assertsFolded << ",\"asserts_solver\":" << st.assertsSolver << ",\"configs\":" << st.claimed << ",\"go_states\":" << st.goStates << ",\"assume_cut\":" << st.assumeCut
    << ",\"queries\":" << S->nq << ",\"sat\":" << S->nsat << ",\"unsat\":" << S->nunsat << ",\"unknown\":" << S->nunk << ",\"fp_queries\":" << S->nfp << ",\"uf_queries\":" << S->nuf << ",\"interval_queries\":" << S->nicp << ",\"interval_boxes\":" << S->nboxes << ",\"solver_s\":" << S->tsolve << ",\"solver_max_s\":" << S->tmax << ",\"deadline\":" << (deadlineHit ? "true" : "false");
  o << ",\n\"covers\":{"; bool first = true; for (auto& c : covers) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  o << "},\n\"labels\":{"; first = true; for (auto& c : assertLabels) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  o << "},\n\"inconclusive\":["; first = true; for (auto& s : inconclusive) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  o << "],\n\"samples\":["; first = true; for (auto& s : samples) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  o << "],\n\"traces\":["; first = true; for (auto& s : traces) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  o << "],\n\"functions\":["; first = true; for (auto& s : fnEncoded) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  o << "],\n\"violations\":["; first = true; for (auto& v : viols) { o << (first ? "" : ",\n") << "{\"kind\":\"" << jesc(v.kind) << "\",\"label\":\"" << jesc(v.label) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"choices\":{"; bool f2 = true; for (auto& c : v.choices) { o << (f2 ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f2 = false; } o << "},\"replay\":\"" << jesc(v.replay) << "\"}"; first = false; }
  o << "]}\n"; o.close(); }

static void runWorker(State* init) {
  rng.seed(optSeed * 1000003 + workerId); work.push_back(init); u64 tick = 0;
  while (!work.empty()) {
    cur = work.back(); work.pop_back();
    if (!cur->gone && X.bytes > (600u << 20)) { bool any = cur->nsymcreated > 0; for (State* s : work) any |= s->nsymcreated > 0; if (!any) { X.reset(); S->reset(); st.resets++; } }
    try { while (!cur->fr.empty()) { curI = nullptr; step(); if ((++tick & 0xfff) == 0) { double e = std::min(optDeadline, (double)shared->softEndMs / 1000); if (nowS() - tStart > e) { deadlineHit = true; break; } } } if (deadlineHit) break; pathDone(); }
    catch (PathReturn&) { try { pathDone(); } catch (PathEnd&) {} }
    catch (PathEnd&) { try { flushPend(); } catch (PathEnd&) {} }
    delete cur; cur = nullptr; }
  if (deadlineHit) incon("time limit reached with " + std::to_string(work.size() + 1) + " states left");
  writeOut(workerId); }

int main(int argc, char** argv) {
  std::string file, entry = "harness_main"; tStart = nowS();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-j") optWorkers = atoi(argv[++i]); else if (a == "-o") optOut = argv[++i]; else if (a == "-t") optDeadline = atof(argv[++i]); else if (a == "-e") entry = argv[++i]; else if (a == "-tier") optTier = atoi(argv[++i]); else if (a == "-seed") optSeed = atoll(argv[++i]); else if (a == "-v") optVerbose = true; else if (a == "-traces") optTraces = atoi(argv[++i]); else if (a == "-maxviol") optMaxViol = atoi(argv[++i]); else if (a == "-only") optOnly = atoi(argv[++i]);
    else if (a == "-known") knownLabels.insert(argv[++i]);
    else if (a == "-P") { std::string kv = argv[++i]; auto p = kv.find('='); params[kv.substr(0, p)] = kv.substr(p + 1); } else file = a; }
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("lcesym", errs()); return 3; } DL = &M->getDataLayout();
  memset((void*)&UNDEFV, 0, sizeof UNDEFV);
  claimTab = (std::atomic<uint8_t>*)mmap(nullptr, CLAIMN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shared->viols = 0; shared->softEndMs = INT64_MAX / 2;
  std::vector<pid_t> pids; bool child = optWorkers <= 1;
  if (!child) for (int w = 0; w < optWorkers; w++) { pid_t p = fork(); if (p == 0) { workerId = w; child = true; break; } pids.push_back(p); }
  if (!child) { int bad = 0; for (pid_t p : pids) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) bad = 1; } _exit(bad ? 3 : 0); }
  S = new Solver(X); S->endAt = tStart + optDeadline; S->softMs = &shared->softEndMs; S->softBase = tStart; State* s0 = new State; cur = s0; 
  try { initGlobals(); } catch (PathEnd&) { fprintf(stderr, "global init failed\n"); return 3; }
  // constructors then entry: build a call list
  Function* F = M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  std::vector<std::pair<u64, Function*>> ctors; if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  pushCall(getF(F), {}, nullptr); for (size_t i = ctors.size(); i-- > 0;) pushCall(getF(ctors[i].second), {}, nullptr);
  // frames without callI simply fall through on return
  runWorker(s0); _exit(0);
}
