// Built-in functions: harness API, libc subset, LLVM intrinsics.
static void memcopy(u64 dst, u64 src, u64 n) {
  if (!n) return; u64 i1, o1, i2, o2; std::string err; if (!resolve(src, n, false, i1, o1, err)) errNow("memory", "memcpy source: " + err); if (!resolve(dst, n, true, i2, o2, err)) errNow("memory", "memcpy destination: " + err);
  Obj* s = cur->objs[i1].p; std::vector<uint8_t> d(s->d.begin() + o1, s->d.begin() + o1 + n); std::vector<SymByte> sb; if (s->nsym) sb.assign(s->s.begin() + o1, s->s.begin() + o1 + n);
  Obj* o = wobj(i2); memcpy(&o->d[o2], d.data(), n);
  if (!sb.empty() || o->nsym) { if (o->s.empty()) o->s.assign(o->size, SymByte{nullptr, 0}); for (u64 i = 0; i < n; i++) { SymByte x = sb.empty() ? SymByte{nullptr, 0} : sb[i]; if (o->s[o2 + i].e) o->nsym--; if (x.e) o->nsym++; o->s[o2 + i] = x; } } }
static void memfill(u64 dst, Val b, u64 n) {
  if (!n) return; u64 id, off; std::string err; if (!resolve(dst, n, true, id, off, err)) errNow("memory", "memset: " + err); for (u64 i = 0; i < n; i++) storeAt(dst + i, 1, 8, b); }
static std::string cstr(u64 a) { std::string s; if (!a) return s; while (s.size() < 4096) { Val v = loadAt(a++, 1, 8); if (sy(v)) return s + "?"; if (!v.c) break; s += (char)v.c; } return s; }
static std::string cname(u64 a) { std::string s = cstr(a); for (char& c : s) if (c == ' ') c = '_'; return s; }

enum { B_NONE = 0, B_CHOOSE = 1, B_INT, B_SYMARR, B_ASSUME, B_ASSERT, B_COVER, B_GO, B_ALLOC, B_PROTECT, B_OBSERVE, B_TIER, B_PRUNE, B_END, B_CONC, B_SYMENGINE, B_PARAM, B_ISUNDEF, B_UNPROTECT, B_FAIL, B_INSYM,
  B_MALLOC = 40, B_FREE, B_CALLOC, B_REALLOC, B_MEMCPY, B_MEMSET, B_MEMCMP, B_ZERO, B_ABORT, B_GUARDACQ, B_GUARDREL, B_ALIGNED, B_POSIXMEM, B_STRLEN, B_NOPV,
  B_I_NOP = 80, B_I_MEMCPY, B_I_MEMSET, B_I_CTPOP, B_I_CTLZ, B_I_CTTZ, B_I_BSWAP, B_I_FSHL, B_I_FSHR, B_I_SMAX, B_I_SMIN, B_I_UMAX, B_I_UMIN, B_I_ABS, B_I_OVF, B_I_SAT, B_I_TRAP, B_I_FABS, B_I_ROUND, B_I_SQRT, B_I_FMA, B_I_FMULADD, B_I_MINNUM, B_I_MAXNUM, B_I_COPYSIGN, B_I_LROUND, B_I_EXPECT, B_I_REDUCE, B_I_ISCONST, B_I_OBJSIZE, B_I_STACKSAVE, B_I_BITREV, B_I_FPCLASS, B_I_PTRMASK, B_I_ASSUME, B_VASTART, B_FMIN, B_FMAX, B_I_THREADLOCAL, B_I_LOADREL, B_I_UBSAN };

static int builtinFor(const Function* F) {
  std::string n = F->getName().str(); auto sw = [&](const char* p) { return n.rfind(p, 0) == 0; };
  static const std::map<std::string, int> ex = {{"lce_choose", B_CHOOSE}, {"lce_int", B_INT}, {"lce_sym_array", B_SYMARR}, {"lce_assume", B_ASSUME}, {"lce_assert", B_ASSERT}, {"lce_cover", B_COVER}, {"lce_go", B_GO}, {"lce_alloc", B_ALLOC}, {"lce_protect", B_PROTECT}, {"lce_unprotect", B_UNPROTECT}, {"lce_observe", B_OBSERVE}, {"lce_tier", B_TIER}, {"lce_prune", B_PRUNE}, {"lce_end", B_END}, {"lce_concretize", B_CONC}, {"lce_symbolic", B_SYMENGINE}, {"lce_param", B_PARAM}, {"lce_is_uninit", B_ISUNDEF}, {"lce_fail", B_FAIL}, {"lce_is_symbolic", B_INSYM},
    {"malloc", B_MALLOC}, {"_Znwm", B_MALLOC}, {"_Znam", B_MALLOC}, {"_ZnwmRKSt9nothrow_t", B_MALLOC}, {"_ZnamRKSt9nothrow_t", B_MALLOC}, {"free", B_FREE}, {"_ZdlPv", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"_ZdaPvm", B_FREE}, {"_ZdlPvmSt11align_val_t", B_FREE}, {"_ZdlPvSt11align_val_t", B_FREE}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"aligned_alloc", B_ALIGNED}, {"_ZnwmSt11align_val_t", B_MALLOC}, {"_ZnamSt11align_val_t", B_MALLOC}, {"posix_memalign", B_POSIXMEM},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"printf", B_ZERO}, {"fprintf", B_ZERO}, {"puts", B_ZERO}, {"putchar", B_ZERO}, {"vfprintf", B_ZERO}, {"vprintf", B_ZERO}, {"fputs", B_ZERO}, {"fwrite", B_ZERO}, {"fflush", B_ZERO}, {"fputc", B_ZERO}, {"snprintf", B_ZERO}, {"vsnprintf", B_ZERO}, {"__cxa_atexit", B_ZERO}, {"atexit", B_ZERO}, {"_ZNSt8ios_base4InitC1Ev", B_NOPV}, {"_ZNSt8ios_base4InitD1Ev", B_NOPV}, {"__cxa_begin_catch", B_ZERO},
    {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT}, {"__assert_fail", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"__cxa_throw", B_ABORT}, {"__cxa_rethrow", B_ABORT}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL},
    {"lroundf", B_I_LROUND}, {"lround", B_I_LROUND}, {"llroundf", B_I_LROUND}, {"llround", B_I_LROUND}, {"roundf", B_I_ROUND}, {"round", B_I_ROUND}, {"floorf", B_I_ROUND}, {"floor", B_I_ROUND}, {"ceil", B_I_ROUND}, {"ceilf", B_I_ROUND}, {"trunc", B_I_ROUND}, {"truncf", B_I_ROUND}, {"rint", B_I_ROUND}, {"rintf", B_I_ROUND}, {"nearbyint", B_I_ROUND}, {"nearbyintf", B_I_ROUND}, {"fabs", B_I_FABS}, {"fabsf", B_I_FABS}, {"sqrt", B_I_SQRT}, {"sqrtf", B_I_SQRT}, {"fminf", B_I_MINNUM}, {"fmin", B_I_MINNUM}, {"fmaxf", B_I_MAXNUM}, {"fmax", B_I_MAXNUM}, {"fma", B_I_FMA}, {"fmaf", B_I_FMA}, {"copysignf", B_I_COPYSIGN}, {"copysign", B_I_COPYSIGN}};
  auto it = ex.find(n); if (it != ex.end()) { if (it->second >= B_MALLOC && !F->isDeclaration()) return 0; return it->second; }
  if (sw("_ZSt") && n.find("__throw_") != std::string::npos) return B_ABORT;
  if (!sw("llvm.")) return 0; n = n.substr(5); auto s2 = [&](const char* p) { return n.rfind(p, 0) == 0; };
  if (s2("dbg.") || s2("lifetime.") || s2("invariant.") || s2("experimental.noalias") || s2("prefetch") || s2("va_end") || s2("stackrestore") || s2("donothing") || s2("var.annotation") || s2("sideeffect")) return B_I_NOP;
  if (s2("assume")) return B_I_NOP; if (s2("memcpy.") || s2("memmove.")) return B_I_MEMCPY; if (s2("memset.")) return B_I_MEMSET; if (s2("ctpop.")) return B_I_CTPOP; if (s2("ctlz.")) return B_I_CTLZ; if (s2("cttz.")) return B_I_CTTZ; if (s2("bswap.")) return B_I_BSWAP; if (s2("bitreverse.")) return B_I_BITREV; if (s2("fshl.")) return B_I_FSHL; if (s2("fshr.")) return B_I_FSHR;
  if (s2("smax.")) return B_I_SMAX; if (s2("smin.")) return B_I_SMIN; if (s2("umax.")) return B_I_UMAX; if (s2("umin.")) return B_I_UMIN; if (s2("abs.")) return B_I_ABS; if (n.find(".with.overflow") != std::string::npos) return B_I_OVF; if (s2("sadd.sat") || s2("uadd.sat") || s2("ssub.sat") || s2("usub.sat")) return B_I_SAT;
  if (s2("ubsantrap")) return B_I_UBSAN; if (s2("trap") || s2("debugtrap")) return B_I_TRAP; if (s2("fabs.")) return B_I_FABS; if (s2("floor.") || s2("ceil.") || s2("trunc.") || s2("rint.") || s2("nearbyint.") || s2("round.") || s2("roundeven.")) return B_I_ROUND; if (s2("sqrt.")) return B_I_SQRT; if (s2("fma.")) return B_I_FMA; if (s2("fmuladd.")) return B_I_FMULADD; if (s2("minnum.")) return B_I_MINNUM; if (s2("maxnum.")) return B_I_MAXNUM; if (s2("copysign.")) return B_I_COPYSIGN; if (s2("lround") || s2("llround")) return B_I_LROUND; if (s2("expect.") || s2("launder.") || s2("strip.invariant") || s2("ssa.copy") || s2("annotation.") || s2("ptr.annotation")) return B_I_EXPECT; if (s2("vector.reduce.")) return B_I_REDUCE; if (s2("is.constant")) return B_I_ISCONST; if (s2("objectsize")) return B_I_OBJSIZE; if (s2("stacksave")) return B_I_STACKSAVE; if (s2("is.fpclass")) return B_I_FPCLASS; if (s2("ptrmask")) return B_I_PTRMASK; if (s2("va_start") || s2("va_copy")) return B_I_NOP; if (s2("threadlocal.address")) return B_I_EXPECT; if (s2("load.relative")) return B_I_LOADREL;
  return 0; }

static const char* ubsanName(u64 k) { static const char* n[] = {"add_overflow", "builtin_unreachable", "cfi_check_fail", "divrem_overflow", "dynamic_type_cache_miss", "float_cast_overflow", "function_type_mismatch", "implicit_conversion", "invalid_builtin", "invalid_objc_cast", "load_invalid_value", "missing_return", "mul_overflow", "negate_overflow", "nullability_arg", "nullability_return", "nonnull_arg", "nonnull_return", "out_of_bounds", "pointer_overflow", "shift_out_of_bounds", "sub_overflow", "type_mismatch", "alignment_assumption", "vla_bound_not_positive"}; return k < 25 ? n[k] : "ub"; }

static void doAssert(LExpr* c, const std::string& label) {
  st.asserts++; assertLabels[label]++;
  if (X.isC(c)) { st.assertsFolded++; if (c->c) return; violation("assert", label, X.tru()); return; }
  LExpr* n = X.not_(c); for (auto& p : cur->pend) if (p.n == n) return; st.assertsSolver++; { static int dump = getenv("LCE_DUMP") ? atoi(getenv("LCE_DUMP")) : 0; if (dump > 0) { dump--; fprintf(stderr, "DUMP %s: %s\n", label.c_str(), X.str(c, 12).c_str()); } } cur->pend.push_back({n, label, curLoc()}); if (cur->pend.size() >= 8) flushPend(); }
static LExpr* minmaxf(LExpr* a, LExpr* b, bool mx) { unsigned w = a->width; LExpr* lt = X.fp(E_FLT, 1, w, 0, a, b); LExpr* r = mx ? X.ite(lt, b, a) : X.ite(X.fp(E_FLT, 1, w, 0, b, a), b, a); r = X.ite(X.isNan(b), a, X.ite(X.isNan(a), b, r)); return r; }

static void callBuiltin(int b, FInfo* fi, const Inst& in) {
  Frame& f = cur->fr.back(); auto* cb = cast<CallBase>(in.I); auto A = [&](int i) -> Val { return G(f, in.ops[i]); };
  auto next = [&]() { if (in.op == Instruction::Invoke) jump(cur->fr.back(), (int)in.imm); else cur->fr.back().ip++; };
  auto ret = [&](Val v) { if (in.dst >= 0) cur->fr.back().r[in.dst] = v; next(); };
  auto C = [&](int i, const char* w) { return concretize(A(i), scalarW(cb->getArgOperand(i)->getType()), w); };
  unsigned w = in.w;
  switch (b) {
    case B_CHOOSE: { std::string nm = cname(C(0, "name")); i64 lo = (i64)C(1, "lo"), hi = (i64)C(2, "hi"); if (hi < lo) { st.pruned++; throw PathEnd(); } flushPend();
      for (i64 v = hi; v > lo; v--) { State* o = new State(*cur); o->choices.push_back({nm, v}); o->addRec('C', nm, v, 0, {}); Frame& of = o->fr.back(); if (in.dst >= 0) of.r[in.dst] = mkc((u64)v & mask64(w)); of.ip++; work.push_back(o); }
      cur->choices.push_back({nm, lo}); cur->addRec('C', nm, lo, 0, {}); ret(mkc((u64)lo & mask64(w))); return; }
    case B_INT: { std::string nm = cname(C(0, "name")); i64 lo = (i64)C(1, "lo"), hi = (i64)C(2, "hi"); if (lo == hi) { LExpr* e = X.cst((u64)lo, 64); cur->addRec('I', nm, 0, 8, {e}); ret(mkc((u64)lo)); return; }
      LExpr* e; if (lo >= INT32_MIN && hi <= INT32_MAX) e = X.sext(X.symRange(nm, 32, lo, hi), 64); else e = X.symRange(nm, 64, lo, hi); cur->nsymcreated++; cur->addRec('I', nm, 0, 8, {e}); ret(mk(e)); return; }
    case B_SYMARR: { u64 p = C(0, "ptr"), es = C(1, "esz"), n = C(2, "count"); std::string nm = cname(C(3, "name")); std::vector<LExpr*> v; for (u64 i = 0; i < n; i++) { LExpr* e = X.sym(nm + "[" + std::to_string(i) + "]", es * 8); v.push_back(e); 
        // bypass write protection and writable limit
        u64 id, off; std::string err; if (!resolve(p + i * es, es, false, id, off, err)) errNow("memory", "lce_sym_array: " + err); Obj* o = wobj(id); if (o->s.empty()) o->s.assign(o->size, SymByte{nullptr, 0}); for (unsigned k = 0; k < es; k++) { if (!o->s[off + k].e) o->nsym++; o->s[off + k] = SymByte{e, k}; } }
      cur->nsymcreated += n; cur->addRec('A', nm, 0, es, v); ret(mkc(0)); return; }
    case B_ASSUME: { unsigned aw = scalarW(cb->getArgOperand(0)->getType()); Val v = A(0); LExpr* c = sy(v) ? X.not_(X.eq(ex(v, aw), X.cst(0, aw))) : X.cst(v.c != 0, 1); if (X.isC(c)) { if (!c->c) { st.assumeCut++; throw PathEnd(); } next(); return; } Res r = feasible(c); if (r == R_UNSAT) { st.assumeCut++; throw PathEnd(); } if (r == R_UNKNOWN) incon("assume undecided"); addPC(c); next(); return; }
    case B_ASSERT: { unsigned aw = scalarW(cb->getArgOperand(0)->getType()); Val v = A(0); std::string lab = cstr(C(1, "label")); LExpr* c = sy(v) ? X.not_(X.eq(ex(v, aw), X.cst(0, aw))) : X.cst(v.c != 0, 1); doAssert(c, lab); if (X.isC(c) && !c->c) throw PathEnd(); if (!X.isC(c)) { /* continue on the side where it holds */ if (feasible(c) == R_UNSAT) throw PathEnd(); } next(); return; }
    case B_FAIL: { std::string lab = cstr(C(0, "label")); st.asserts++; assertLabels[lab]++; violation("assert", lab, X.tru()); throw PathEnd(); }
    case B_COVER: { std::string lab = cstr(C(0, "label")); u64& k = covers[lab]; if (k == 0) { std::vector<u128> m; Res r = cur->pc.empty() ? R_SAT : exactModel(X.tru(), m); if (r == R_SAT) k++; } else k++; next(); return; }
    case B_GO: { u64 i = goCounter++; st.goStates++; if (optOnly >= 0 && (int)i != optOnly) throw PathEnd(); if (i >= CLAIMN) { incon("too many configurations"); throw PathEnd(); } if (claimTab[i].exchange(1)) throw PathEnd(); st.claimed++; cur->gone = true; next(); return; }
    case B_ALLOC: { u64 ws = C(0, "size"), extra = C(1, "extra"); std::string* nm = new std::string(cstr(C(2, "name"))); u64 a = newObj(K_HEAP, ws + extra, ws, nm->c_str(), true); 
      if (extra) { Obj* o = cur->objs.back().p; for (u64 i = 0; i < extra; i++) { LExpr* e = X.sym(*nm + "_tail", 8); o->s[ws + i] = SymByte{e, 0}; } cur->nsymcreated++; } ret(mkc(a)); return; }
    case B_PROTECT: case B_UNPROTECT: { u64 p = C(0, "ptr"); u64 id, off; std::string err; if (!resolve(p, 0, false, id, off, err)) errNow("memory", err); wobj(id)->readonly = b == B_PROTECT; next(); return; }
    case B_OBSERVE: { cur->obs.push_back({A(0), 64}); next(); return; }
    case B_TIER: ret(mkc(optTier)); return;
    case B_END: throw PathReturn();
    case B_PRUNE: st.pruned++; throw PathEnd();
    case B_CONC: ret(mkc(C(0, "lce_concretize"))); return;
    case B_SYMENGINE: ret(mkc(1)); return;
    case B_PARAM: { std::string nm = cstr(C(0, "name")); i64 d = (i64)C(1, "def"); auto it = params.find(nm); ret(mkc((u64)(it == params.end() ? d : atoll(it->second.c_str())))); return; }
    case B_ISUNDEF: { u64 p = C(0, "p"), n = C(1, "n"); bool u = false; u64 id, off; std::string err; if (!resolve(p, n, false, id, off, err)) errNow("memory", err); Obj* o = cur->objs[id].p; if (o->nsym) for (u64 i = 0; i < n && !u; i++) { LExpr* e = o->s[off + i].e; if (!e) continue; if (e == UNDEF) { u = true; break; } for (uint32_t s : X.symsOf(e)) if (X.syminfo[s].name == "undef") u = true; } ret(mkc(u)); return; }
    case B_INSYM: { ret(mkc(sy(A(0)))); return; }
    case B_MALLOC: case B_ALIGNED: { u64 n = C(b == B_ALIGNED ? 1 : 0, "malloc size"); if (n > (64u << 20)) { // huge / negative size
        std::string nm = fi->name; errNow("memory", "allocation of " + std::to_string((i64)n) + " bytes"); } u64 a = newObj(K_HEAP, n, n, "heap block", true); ret(mkc(a)); return; }
    case B_CALLOC: { u64 n = C(0, "calloc") * C(1, "calloc"); u64 a = newObj(K_HEAP, n, n, "heap block", false); ret(mkc(a)); return; }
    case B_REALLOC: { u64 p = C(0, "realloc"), n = C(1, "realloc"); u64 a = newObj(K_HEAP, n, n, "heap block", true); if (p) { u64 id = (p >> 32) - 16; if (id >= cur->objs.size() || cur->objs[id].p->kind != K_HEAP) errNow("memory", "realloc of invalid pointer"); u64 os = cur->objs[id].p->size; memcopy(a, p, std::min(os, n)); Obj* d = new Obj; d->kind = K_DEAD; d->size = d->wsize = 0; d->name = "heap block"; cur->objs[id] = ORef(d); } ret(mkc(a)); return; }
    case B_POSIXMEM: { u64 pp = C(0, "p"), n = C(2, "n"); u64 a = newObj(K_HEAP, n, n, "heap block", true); storeAt(pp, 8, 64, mkc(a)); ret(mkc(0)); return; }
    case B_FREE: { u64 p = C(0, "free"); if (p) { u64 reg = p >> 32; if (reg < 16 || reg - 16 >= cur->objs.size() || (p & 0xffffffff) != OFF0) errNow("memory", "free of invalid pointer"); Obj* o = cur->objs[reg - 16].p; if (o->kind == K_DEAD) errNow("memory", "double free"); if (o->kind != K_HEAP) errNow("memory", "free of non-heap object"); static Obj* deadH = nullptr; if (!deadH) { deadH = new Obj; deadH->kind = K_DEAD; deadH->size = deadH->wsize = 0; deadH->name = "heap block"; deadH->rc = 1; } cur->objs[reg - 16] = ORef(deadH); } next(); return; }
    case B_MEMCPY: { u64 d = C(0, "memcpy"), s = C(1, "memcpy"), n = C(2, "memcpy size"); memcopy(d, s, n); ret(mkc(d)); return; }
    case B_I_MEMCPY: { u64 d = C(0, "memcpy"), s = C(1, "memcpy"), n = C(2, "memcpy size"); memcopy(d, s, n); next(); return; }
    case B_MEMSET: { u64 d = C(0, "memset"), n = C(2, "memset size"); Val v = A(1); if (sy(v)) v = mk(X.extract(ex(v, 32), 0, 8)); else v.c &= 255; memfill(d, v, n); ret(mkc(d)); return; }
    case B_I_MEMSET: { u64 d = C(0, "memset"), n = C(2, "memset size"); memfill(d, A(1), n); next(); return; }
    case B_MEMCMP: { u64 p = C(0, "memcmp"), q = C(1, "memcmp"), n = C(2, "memcmp size"); LExpr* r = X.cst(0, 32); for (u64 i = n; i-- > 0;) { LExpr* x = ex(loadAt(p + i, 1, 8), 8); LExpr* y = ex(loadAt(q + i, 1, 8), 8); r = X.ite(X.eq(x, y), r, X.sub(X.zext(x, 32), X.zext(y, 32))); } ret(mk(r)); return; }
    case B_STRLEN: { u64 p = C(0, "strlen"); u64 n = 0; while (true) { Val v = loadAt(p + n, 1, 8); u64 c = concretize(v, 8, "strlen"); if (!c) break; n++; } ret(mkc(n)); return; }
    case B_ZERO: if (in.dst >= 0) cur->fr.back().r[in.dst] = mkc(0); next(); return;
    case B_NOPV: case B_I_NOP: if (in.dst >= 0) for (int i = 0; i < in.n; i++) cur->fr.back().r[in.dst + i] = mkc(0); next(); return;
    case B_ABORT: errNow("abort", fi->name == "__assert_fail" ? "assertion failed: " + cstr(C(0, "a")) : "call of " + demangle(fi->name)); return;
    case B_GUARDACQ: { u64 p = C(0, "guard"); Val v = loadAt(p, 1, 8); ret(mkc(v.c == 0)); return; }
    case B_GUARDREL: { u64 p = C(0, "guard"); storeAt(p, 1, 8, mkc(1)); next(); return; }
    case B_I_TRAP: errNow("abort", "trap"); return;
    case B_I_UBSAN: errNow("ub", std::string("undefined behaviour: ") + ubsanName(C(0, "k"))); return;
    case B_I_EXPECT: ret(A(0)); return;
    case B_I_ISCONST: ret(mkc(!sy(A(0)))); return;
    case B_I_OBJSIZE: ret(mkc(~0ull & mask64(w))); return;
    case B_I_STACKSAVE: ret(mkc(0)); return;
    case B_I_PTRMASK: ret(binop(Instruction::And, A(0), A(1), 64)); return;
    case B_I_LOADREL: { u64 base = C(0, "load.relative"), off = C(1, "off"); Val v = loadAt(base + off, 4, 32); ret(mkc(base + (u64)sext64(v.c, 32))); return; }
    case B_I_REDUCE: { std::string n = fi->name.substr(19); auto t = cb->getArgOperand(0)->getType(); unsigned nl = nleaves(t), ew = scalarW(t); unsigned op = n.rfind("add", 0) == 0 ? Instruction::Add : n.rfind("mul", 0) == 0 ? Instruction::Mul : n.rfind("and", 0) == 0 ? Instruction::And : n.rfind("or", 0) == 0 ? Instruction::Or : n.rfind("xor", 0) == 0 ? Instruction::Xor : 0; if (!op) { incon("reduce " + fi->name); throw PathEnd(); } Val r = G(f, in.ops[0], 0); for (unsigned i = 1; i < nl; i++) r = binop(op, r, G(f, in.ops[0], i), ew); ret(r); return; }
    default: break;
  }
  // lane-wise intrinsics
  if (b == B_I_OVF) { std::string n = fi->name; unsigned aw = scalarW(cb->getArgOperand(0)->getType()); Val a = A(0), c = A(1); bool sg = n.rfind("llvm.s", 0) == 0; bool isadd = n.find("add.") != std::string::npos, issub = n.find("sub.") != std::string::npos;
    unsigned ww = aw * 2 <= 128 ? aw * 2 : 128; if (aw <= 32) ww = 64; 
    LExpr *x = ex(a, aw), *y = ex(c, aw); LExpr* r = isadd ? X.add(x, y) : issub ? X.sub(x, y) : X.mul(x, y); LExpr* o;
    auto ext = [&](LExpr* e) { return sg ? X.sext(e, ww) : X.zext(e, ww); };
    if (isadd && !sg) o = X.ult(r, x); else if (issub && !sg) o = X.ult(x, y);
    else { bool done = false; if (aw <= 64) { i128 lo, hi; if (sg) { if (isadd) { lo = (i128)x->smin + y->smin; hi = (i128)x->smax + y->smax; } else if (issub) { lo = (i128)x->smin - y->smax; hi = (i128)x->smax - y->smin; } else { i128 q[4] = {(i128)x->smin * y->smin, (i128)x->smin * y->smax, (i128)x->smax * y->smin, (i128)x->smax * y->smax}; lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4); } i128 H = ((i128)1 << (aw - 1)); if (lo >= -H && hi < H) { o = X.fls(); done = true; } } else { if ((u128)x->umax * y->umax <= maskw(aw)) { o = X.fls(); done = true; } } }
      if (!done) { LExpr *p = ext(x), *q = ext(y); LExpr* rr = isadd ? X.add(p, q) : issub ? X.sub(p, q) : X.mul(p, q); o = X.not_(X.eq(rr, ext(r))); } }
    f.r[in.dst] = mk(r); f.r[in.dst + 1] = mk(o); next(); return; }
  int nl = in.n; std::vector<Val> out;
  unsigned aw = cb->arg_size() ? scalarW(cb->getArgOperand(0)->getType()) : 0;
  for (int i = 0; i < nl; i++) { auto L = [&](int k) { return ex(G(f, in.ops[k], i), scalarW(cb->getArgOperand(k)->getType())); }; LExpr* r = nullptr; 
    switch (b) {
      case B_I_CTPOP: { Val v = G(f, in.ops[0], i); if (!sy(v) && w <= 64) { out.push_back(mkc(__builtin_popcountll(v.c))); continue; } r = X.popcount(L(0)); break; }
      case B_I_CTLZ: { LExpr* x = L(0); r = X.cst(w, w); for (unsigned k = 0; k < w; k++) r = X.ite(X.extract(x, k, 1), X.cst(w - 1 - k, w), r); break; }
      case B_I_CTTZ: { LExpr* x = L(0); r = X.cst(w, w); for (unsigned k = w; k-- > 0;) r = X.ite(X.extract(x, k, 1), X.cst(k, w), r); break; }
      case B_I_BSWAP: { LExpr* x = L(0); for (unsigned k = 0; k < w; k += 8) { LExpr* y = X.extract(x, k, 8); r = r ? X.concat(r, y) : y; } break; }
      case B_I_BITREV: { LExpr* x = L(0); for (unsigned k = 0; k < w; k++) { LExpr* y = X.extract(x, k, 1); r = r ? X.concat(r, y) : y; } break; }
      case B_I_FSHL: case B_I_FSHR: { LExpr *hi = L(0), *lo = L(1), *s = L(2); if (!X.isC(s)) { s = X.cst(concretize(G(f, in.ops[2], i), w, "fsh"), w); } unsigned k = (unsigned)(s->c % w); if (b == B_I_FSHR) k = (w - k) % w; if (k == 0) r = b == B_I_FSHL ? hi : lo; else r = X.or_(X.shlc(hi, k), X.lshr(lo, X.cst(w - k, w))); if (b == B_I_FSHR && (s->c % w) == 0) r = lo; break; }
      case B_I_SMAX: { LExpr *x = L(0), *y = L(1); r = X.ite(X.slt(x, y), y, x); break; }
      case B_I_SMIN: { LExpr *x = L(0), *y = L(1); r = X.ite(X.slt(y, x), y, x); break; }
      case B_I_UMAX: { LExpr *x = L(0), *y = L(1); r = X.ite(X.ult(x, y), y, x); break; }
      case B_I_UMIN: { LExpr *x = L(0), *y = L(1); r = X.ite(X.ult(y, x), y, x); break; }
      case B_I_ABS: { LExpr* x = L(0); r = X.ite(X.slt(x, X.cst(0, w)), X.sub(X.cst(0, w), x), x); break; }
      case B_I_SAT: { LExpr *x = L(0), *y = L(1); bool sg = fi->name[5] == 's', ad = fi->name.find("add") != std::string::npos; if (!sg) { if (ad) { LExpr* s = X.add(x, y); r = X.ite(X.ult(s, x), X.cst(maskw(w), w), s); } else r = X.ite(X.ult(x, y), X.cst(0, w), X.sub(x, y)); } else { LExpr *p = X.sext(x, w * 2), *q = X.sext(y, w * 2); LExpr* s = ad ? X.add(p, q) : X.sub(p, q); LExpr *mx = X.cst(maskw(w) >> 1, 2 * w), *mn = X.sext(X.cst((u128)1 << (w - 1), w), 2 * w); s = X.ite(X.slt(mx, s), mx, X.ite(X.slt(s, mn), mn, s)); r = X.extract(s, 0, w); } break; }
      case B_I_FABS: r = X.fabs_(L(0)); break;
      case B_I_ROUND: { std::string n = fi->name; if (n.rfind("llvm.", 0) == 0) n = n.substr(5); int m = n.rfind("floor", 0) == 0 ? RM_FLOOR : n.rfind("ceil", 0) == 0 ? RM_CEIL : n.rfind("trunc", 0) == 0 ? RM_TRUNC : (n.rfind("rint", 0) == 0 || n.rfind("nearby", 0) == 0 || n.rfind("roundeven", 0) == 0) ? RM_RINT : RM_ROUND; r = X.fp(E_FROUND, w, w, m, L(0)); break; }
      case B_I_LROUND: { LExpr* q = X.fp(E_FROUND, aw, aw, RM_ROUND, L(0)); r = X.fp(E_F2SI, w, aw, 0, q); break; }
      case B_I_SQRT: r = X.fp(E_FSQRT, w, w, 0, L(0)); break;
      case B_I_FMA: r = X.fp(E_FMA, w, w, 0, L(0), L(1), L(2)); break;
      case B_I_FMULADD: r = X.fp(E_FADD, w, w, 0, X.fp(E_FMUL, w, w, 0, L(0), L(1)), L(2)); break;
      case B_I_MINNUM: r = minmaxf(L(0), L(1), false); break;
      case B_I_MAXNUM: r = minmaxf(L(0), L(1), true); break;
      case B_I_COPYSIGN: r = X.concat(X.extract(L(1), w - 1, 1), X.extract(L(0), 0, w - 1)); break;
      case B_I_FPCLASS: { LExpr* x = L(0); unsigned fw = x->width, mb = fw == 32 ? 23 : 52; u64 m = G(f, in.ops[1]).c; LExpr *sg = X.extract(x, fw - 1, 1), *ef = X.extract(x, mb, fw - 1 - mb), *mf = X.extract(x, 0, mb); LExpr *e1 = X.eq(ef, X.cst(maskw(fw - 1 - mb), fw - 1 - mb)), *e0 = X.eq(ef, X.cst(0, fw - 1 - mb)), *m0 = X.eq(mf, X.cst(0, mb)); LExpr* nan = X.and_(e1, X.not_(m0)), *inf = X.and_(e1, m0), *z = X.and_(e0, m0), *sub = X.and_(e0, X.not_(m0)), *nrm = X.and_(X.not_(e0), X.not_(e1)); LExpr* ns = X.not_(sg); r = X.fls();
          LExpr* q = X.extract(mf, mb - 1, 1); LExpr* cls[10] = {X.and_(nan, X.not_(q)), X.and_(nan, q), X.and_(inf, sg), X.and_(nrm, sg), X.and_(sub, sg), X.and_(z, sg), X.and_(z, ns), X.and_(sub, ns), X.and_(nrm, ns), X.and_(inf, ns)}; for (int k = 0; k < 10; k++) if (m >> k & 1) r = X.or_(r, cls[k]); if ((m & 3) == 3) r = X.or_(r, nan); break; }
      default: incon("unmodelled builtin " + fi->name); throw PathEnd(); }
    out.push_back(mk(r)); }
  for (int i = 0; i < nl; i++) cur->fr.back().r[in.dst + i] = out[i]; next(); }
