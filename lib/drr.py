#!/usr/bin/env python3
"""Generates, from the repository's .td files, C++ operation classes and declarative rewrite patterns for the MLIR stand-in (stubs/mlir_stub.h).
The .td files are parsed by llvm-tblgen (JSON); what is generated follows mlir-tblgen's -gen-op-decls, -gen-op-defs and -gen-rewriters."""
import concurrent.futures, json, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18"
class GenError(Exception): pass
def dump(td, repo):
    r = subprocess.run([LLVM + "/bin/llvm-tblgen", "--dump-json", "-I", VERIF + "/stubs/td", "-I", repo, "-I", LLVM + "/include", td], capture_output=True, text=True)
    if r.returncode: raise GenError("llvm-tblgen %s: %s" % (td, r.stderr[-800:]))
    return json.loads(r.stdout)
def camel(n): return "".join(p[:1].upper() + p[1:] for p in n.split("_"))
class Td:
    def __init__(self, j): self.j = j
    def rec(self, x): return self.j[x["def"]] if isinstance(x, dict) and x.get("kind") == "def" else None
    def isa(self, r, c): return c in r["!superclasses"]
    def pred(self, p):
        """C++ template of a predicate record ($_self and $N left in place)."""
        r = self.rec(p)
        if r is None: raise GenError("predicate %s" % p)
        if self.isa(r, "CombinedPred"):
            k = r["kind"]["def"]; ch = [self.pred(c) for c in r["children"]]
            if k == "PredCombinerAnd": return "(" + " && ".join("(%s)" % c for c in ch) + ")" if ch else "true"
            if k == "PredCombinerOr": return "(" + " || ".join("(%s)" % c for c in ch) + ")" if ch else "false"
            if k == "PredCombinerNot": return "(!(%s))" % ch[0]
            if k == "PredCombinerSubstLeaves": return ch[0].replace(r["pattern"], r["replacement"])
            if k == "PredCombinerConcat": return r["prefix"] + ch[0] + r["suffix"]
            raise GenError("predicate kind " + k)
        if self.isa(r, "CPred"): return "(%s)" % r["predExpr"]
        raise GenError("predicate " + r["!name"])
    def attrspec(self, r):
        """Attribute record -> dict(storage, ret, conv, build, default, optional); follows baseAttr of default-valued/optional/confined attributes."""
        d = dict(storage=r.get("storageType"), ret=r.get("returnType"), conv=r.get("convertFromStorage"), build=r.get("constBuilderCall"), default=r.get("defaultValue"), optional=bool(r.get("isOptional")), rec=r)
        return d
    def op(self, r):
        if hasattr(r, "cpp"): return r
        args = []
        for a, n in r["arguments"]["args"]:
            ar = self.rec(a)
            if ar is None: raise GenError("argument of %s" % r["!name"])
            while self.isa(ar, "Arg") or self.isa(ar, "OpVariable") and "constraint" in ar: ar = self.rec(ar["constraint"])
            if self.isa(ar, "AttrConstraint"): args.append(("attr", n, self.attrspec(ar)))
            else: args.append(("variadic" if self.isa(ar, "Variadic") else "optional" if self.isa(ar, "Optional") else "operand", n, ar))
        res = []
        for a, n in r["results"]["args"]:
            ar = self.rec(a)
            while self.isa(ar, "Arg") or self.isa(ar, "OpVariable") and "constraint" in ar: ar = self.rec(ar["constraint"])
            res.append(("variadic" if self.isa(ar, "Variadic") else "result", n, ar))
        d = self.rec(r["opDialect"]); ns = d["cppNamespace"]; ns = ns if ns.startswith("::") else "::" + ns
        name = r["!name"]; name = name.split("_", 1)[1] if "_" in name and not name.startswith("_") else name.lstrip("_")
        traits = [t.get("def") for t in r.get("traits", [])]
        return dict(cpp=name, ns=ns, full=ns + "::" + name, opname=(d["name"] + "." if d["name"] else "") + r["opName"], args=args, res=res, rec=r, pure=any(t in ("Pure", "NoMemoryEffect") for t in self.traits(r)), fold=bool(r.get("hasFolder")), traits=self.traits(r))
    def traits(self, r):
        out = []
        for t in r.get("traits", []):
            x = self.rec(t)
            if x is None: continue
            out.append(x["!name"])
            if self.isa(x, "TraitList"): out += [y.get("def") for y in x.get("traits", [])]
        return out

def q(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def tg(t, ctx, args=()):
    def f(m):
        k = m.group(1)
        if k == "$": return "$"
        if k.startswith("_"):
            if k not in ctx: raise GenError("placeholder $%s" % k)
            return ctx[k]
        if k.endswith("..."): return ", ".join(args[int(k[:-3]):])
        i = int(k)
        if i >= len(args): raise GenError("placeholder $%d of %s" % (i, t))
        return args[i]
    return re.sub(r"\$(\$|_[a-z]+|\d+\.\.\.|\d+)", f, t)

# ---------------------------------------------------------------- operation classes
def gen_ops(td, ops, infer):
    h, c = [], []
    for o in ops:
        one = len(o["res"]) == 1 and o["res"][0][0] == "result"
        base = "::mlir::OneResultOp<%s>" % o["cpp"] if one else "::mlir::OpBase<%s, false>" % o["cpp"]
        b = ["class %s : public %s { public: using %s::%s; %s() = default;" % (o["cpp"], base, base.split("<")[0].replace("::mlir::", ""), base.split("<")[0].replace("::mlir::", ""), o["cpp"]),
             "  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral(%s); } static constexpr bool lce_pure = %s;" % (q(o["opname"]), "true" if o["pure"] else "false")]
        ops_ = [a for a in o["args"] if a[0] != "attr"]; attrs = [a for a in o["args"] if a[0] == "attr"]; var = [a for a in ops_ if a[0] != "operand"]
        for i, a in enumerate(ops_):
            if a[0] == "operand": idx = str(i) if not any(x[0] != "operand" for x in ops_[:i]) else "state->getNumOperands() - %d" % (len(ops_) - i); b.append("  ::mlir::Value get%s() const { return state->getOperand(%s); }" % (camel(a[1]), idx))
            elif len(ops_) == 1 and a[0] == "variadic": b.append("  ::mlir::OperandRange get%s() const { return state->getOperands(); }" % camel(a[1]))
        for i, a in enumerate(o["res"]):
            if a[0] == "result": b.append("  ::mlir::OpResult get%s() const { return state->getResult(%d); }" % (camel(a[1]), i))
            elif len(o["res"]) == 1: b.append("  ::mlir::ResultRange get%s() const { return state->getResults(); }" % camel(a[1]))
        for _, n, s in attrs:
            b.append("  %s get%sAttr() const { return state->getAttrOfType<%s>(%s); } void set%sAttr(%s a) { state->setAttr(%s, a); } static ::llvm::StringRef get%sAttrName() { return %s; }" % (s["storage"], camel(n), s["storage"], q(n), camel(n), s["storage"], q(n), camel(n), q(n)))
            if s["default"] and s["build"]: ini = "if (!a) { ::mlir::Builder odsB(nullptr); return %s; } " % tg(s["conv"], {"_self": tg(s["build"], {"_builder": "odsB"}, [s["default"]])})
            else: ini = ""
            b.append("  %s get%s() const { auto a = get%sAttr(); %sreturn %s; }" % (s["ret"], camel(n), camel(n), ini, tg(s["conv"], {"_self": "a"})))
        # builders
        b.append("  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s, ::mlir::TypeRange t, ::mlir::ValueRange o, ::llvm::ArrayRef<::mlir::NamedAttribute> a = {}) { s.addOperands(o); s.addAttributes(a); s.addTypes(t); }")
        custom = [td.rec(x) for x in (o["rec"].get("builders") or [])]
        sigs = set()
        for cb in custom:
            ps = []
            for a, n in cb["dagParams"]["args"]:
                if not isinstance(a, str):
                    r = td.rec(a)
                    a = r["type"] if r and "type" in r else None
                    if a is None: raise GenError("builder parameter of " + o["cpp"])
                ps.append((a, n))
            sigs.add(tuple(p[0].replace("::mlir::", "").strip() for p in ps))
            body = cb.get("body")
            b.append("  static void build(::mlir::OpBuilder& %s, ::mlir::OperationState& %s%s)%s" % ("$_builder".strip("$"), "$_state".strip("$"), "".join(", %s %s" % p for p in ps), ";" if not body else " { %s }" % tg(body, {"_builder": "_builder", "_state": "_state"})))
        wraps = [False]
        if any(s["ret"] != s["storage"] and s["build"] and s["ret"] for _, n, s in attrs): wraps.append(True)
        for raw in wraps:
            ps, body = [], []
            for k, n, s in o["args"]:
                if k == "operand": ps.append("::mlir::Value %s" % n); body.append("s.addOperands(%s);" % n)
                elif k != "attr": ps.append("::mlir::ValueRange %s" % n); body.append("s.addOperands(%s);" % n)
                elif raw and s["build"] and s["ret"] != s["storage"]:
                    ps.append("%s %s" % (s["ret"], n)); body.append("s.addAttribute(%s, %s);" % (q(n), tg(s["build"], {"_builder": "b"}, [n])))
                else: ps.append("%s %s" % (s["storage"], n)); body.append("if (%s) s.addAttribute(%s, %s);" % (n, q(n), n))
            bd = " ".join(body)
            sep = ", " if ps else ""
            if not (ps == ["::mlir::ValueRange %s" % n for n in [a[1] for a in o["args"]]] and len(ps) == 1): b.append("  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s, ::mlir::TypeRange t%s%s) { %s s.addTypes(t); }" % (sep, ", ".join(ps), bd))
            if one: b.append("  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s, ::mlir::Type t%s%s) { %s s.addTypes(t); }" % (sep, ", ".join(ps), bd))
            sig = tuple(p.rsplit(" ", 1)[0].replace("::mlir::", "") for p in ps)
            if infer and one and sig not in sigs: b.append("  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s%s%s) { %s s.addTypes(::mlir::lce_infer(s)); }" % (sep, ", ".join(ps), bd))
        if o["fold"]:
            b.append("  struct FoldAdaptor { ::llvm::ArrayRef<::mlir::Attribute> a; ::llvm::ArrayRef<::mlir::Attribute> getOperands() const { return a; }%s };" % "".join(" ::mlir::Attribute get%s() const { return a[%d]; }" % (camel(a[1]), i) for i, a in enumerate(ops_) if a[0] == "operand"))
            b.append("  ::mlir::OpFoldResult fold(FoldAdaptor adaptor); static ::mlir::OpFoldResult lce_fold(::mlir::Operation* o, ::llvm::ArrayRef<::mlir::Attribute> a) { return %s(o).fold(FoldAdaptor{a}); } static constexpr ::mlir::FoldFn lce_folder = &lce_fold;" % o["cpp"])
        else: b.append("  static constexpr ::mlir::FoldFn lce_folder = nullptr;")
        if o["rec"].get("extraClassDeclaration"): b.append("  " + o["rec"]["extraClassDeclaration"].strip())
        if o["rec"].get("hasCanonicalizer"): b.append("  static void getCanonicalizationPatterns(::mlir::RewritePatternSet&, ::mlir::MLIRContext*);")
        if o["rec"].get("hasVerifier"): b.append("  ::mlir::LogicalResult verify();")
        b.append("};"); h.append("\n".join(b))
    return h
def opsfile(td, ops, ns, infer):
    s = "namespace %s {\n" % ns.lstrip(":")
    s += "".join("class %s;\n" % o["cpp"] for o in ops) + "\n".join(gen_ops(td, ops, infer)) + "\n}\n"
    return s
def listfile(ops): return "#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n" + ",\n".join(o["full"] for o in ops) + "\n#endif\n#undef GET_OP_CLASSES\n"

# ---------------------------------------------------------------- rewrite patterns
class Pattern:
    def __init__(self, td, rec, name, ops): self.td, self.rec, self.name, self.ops, self.code, self.syms, self.n, self.src_ops = td, rec, name, ops, [], {}, 0, 0
    def fresh(self, p): self.n += 1; return "tblgen_%s_%d" % (p, self.n)
    def fail(self): return "return ::mlir::failure();"
    def getop(self, d):
        n = d["def"]
        if n not in self.ops:
            r = self.td.j.get(n)
            if r is None or "Op" not in r["!superclasses"]: return None
            self.ops[n] = self.td.op(r)
        return self.ops[n]
    def bind(self, name, kind, expr, decl):
        """First occurrence binds, a later one is an equality constraint."""
        if name in self.syms:
            k, e = self.syms[name]
            if k != kind: raise GenError("symbol %s bound twice with different kinds" % name)
            self.code.append("if (!(%s == %s)) %s" % (expr, e, self.fail())); return
        v = "sym_" + name; self.code.append("%s %s = %s; (void)%s;" % (decl, v, expr, v)); self.syms[name] = (kind, v)
    def match(self, dag, var):
        o = self.getop(dag["operator"])
        if not o: raise GenError("source pattern operator %s" % dag["operator"].get("def"))
        self.src_ops += 1
        if "name" in dag and dag["name"]: self.bind(dag["name"], "op", var, "::mlir::Operation*")
        if len(dag["args"]) != len(o["args"]): raise GenError("%s: %d arguments for %d" % (o["cpp"], len(dag["args"]), len(o["args"])))
        oi = 0
        for (leaf, name), (k, an, spec) in zip(dag["args"], o["args"]):
            if k == "attr":
                t = self.fresh("attr"); self.code.append("%s %s = %s->getAttrOfType<%s>(%s); (void)%s;" % (spec["storage"], t, var, spec["storage"], q(an), t))
                if spec["default"] and spec["build"]: self.code.append("if (!%s) %s = %s;" % (t, t, tg(spec["build"], {"_builder": "rewriter"}, [spec["default"]])))
                elif not spec["optional"]: self.code.append("if (!%s) %s" % (t, self.fail()))
                if leaf is not None:
                    r = self.td.rec(leaf)
                    if r is None: raise GenError("attribute leaf %s" % leaf)
                    if not self.td.isa(r, "AttrConstraint"): raise GenError("attribute leaf %s" % r["!name"])
                    if r["!name"] != spec["rec"]["!name"] and r.get("predicate"): self.code.append("if (!(%s)) %s" % (tg(self.td.pred(r["predicate"]), {"_self": t, "_builder": "rewriter", "_op": "(*%s)" % var}), self.fail()))
                if name: self.bind(name, "attr", t, spec["storage"])
                continue
            if k != "operand":
                if leaf is not None: raise GenError("nested pattern on a variadic operand")
                if name: self.bind(name, "range", "%s->getOperands()" % var, "::mlir::OperandRange")
                oi += 1; continue
            val = "%s->getOperand(%d)" % (var, oi); oi += 1
            if leaf is not None and isinstance(leaf, dict) and leaf.get("kind") == "dag":
                opd = leaf["operator"]; r = self.td.rec(opd)
                if r is not None and self.td.isa(r, "NativeCodeCall"): raise GenError("native code call in a source pattern")
                if r is not None and r["!name"] == "either": raise GenError("either")
                d = self.fresh("op"); no = self.getop(opd)
                if not no: raise GenError("source operator %s" % opd.get("def"))
                self.code.append("::mlir::Operation* %s = %s.getDefiningOp(); if (!(%s)) %s if (!::llvm::isa<%s>(%s)) %s" % (d, val, d, self.fail(), no["full"], d, self.fail()))
                self.match(leaf, d)
                if name: self.bind(name, "value", val, "::mlir::Value")
                continue
            if leaf is not None:
                r = self.td.rec(leaf)
                if r is None: raise GenError("operand leaf %s" % leaf)
                if r.get("predicate"): self.code.append("if (!(%s)) %s" % (tg(self.td.pred(r["predicate"]), {"_self": "%s.getType()" % val, "_builder": "rewriter"}), self.fail()))
            if name: self.bind(name, "value", val, "::mlir::Value")
    def use(self, name, want=None):
        idx = None; base = name
        if base not in self.syms and "__" in name: base, i = name.rsplit("__", 1); idx = int(i)
        if base not in self.syms: raise GenError("unbound symbol $%s" % name)
        k, e = self.syms[base]
        if k == "op": return "(::mlir::Value(%s->getResult(%d)))" % (e, idx or 0)
        return e
    def const(self, r):
        a = self.td.rec(r["attr"])
        if not a.get("constBuilderCall"): raise GenError("no builder for constant attribute " + a["!name"])
        return tg(a["constBuilderCall"], {"_builder": "rewriter"}, [r["value"]])
    def leaf(self, leaf, name):
        if leaf is None:
            if name is None: raise GenError("empty leaf")
            return self.use(name)
        if isinstance(leaf, str): return leaf
        if isinstance(leaf, int): return str(leaf)
        if leaf.get("kind") == "dag": return self.value(leaf, False)
        r = self.td.rec(leaf)
        if r is None: raise GenError("leaf %s" % leaf)
        if self.td.isa(r, "ConstantAttr"): return self.const(r)
        if self.td.isa(r, "NativeCodeCall"): return tg(r["expression"], {"_self": self.use(name), "_builder": "rewriter", "_loc": "odsLoc"})
        if self.td.isa(r, "EnumAttrCaseInfo"): raise GenError("enum attribute case")
        if name: return self.use(name)
        raise GenError("leaf " + r["!name"])
    def native(self, dag, r):
        args = [self.leaf(l, n) for l, n in dag["args"]]
        e = tg(r["expression"], {"_builder": "rewriter", "_self": "op0", "_loc": "odsLoc"}, args)
        if r.get("numReturns", 1) == 0: self.code.append(e + ";"); return None
        v = self.fresh("native"); self.code.append("auto %s = %s; (void)%s;" % (v, e, v))
        if dag.get("name"): self.syms[dag["name"]] = ("value", v)
        return v
    def create(self, dag, root):
        o = self.getop(dag["operator"])
        if not o: raise GenError("result operator %s" % dag["operator"].get("def"))
        leaves = dag["args"]
        if leaves and isinstance(leaves[-1][0], dict) and leaves[-1][0].get("kind") == "dag" and leaves[-1][0]["operator"].get("def") in ("returnType", "location"): raise GenError("directive in a result pattern")
        if len(leaves) != len(o["args"]): raise GenError("%s: %d arguments for %d" % (o["cpp"], len(leaves), len(o["args"])))
        vs = []
        for (l, n), (k, an, spec) in zip(leaves, o["args"]): vs.append((k, an, self.leaf(l, n), l, n))
        v = self.fresh("new")
        if root:
            a, b = self.fresh("values"), self.fresh("attrs")
            self.code.append("::llvm::SmallVector<::mlir::Value, 4> %s; (void)%s; ::llvm::SmallVector<::mlir::NamedAttribute, 4> %s; (void)%s;" % (a, a, b, b))
            for k, an, e, l, n in vs:
                if k == "attr": self.code.append("if (auto tmpAttr = %s) { %s.push_back(::mlir::NamedAttribute(rewriter.getStringAttr(%s), tmpAttr)); }" % (e, b, q(an)))
                elif n and l is None and self.syms.get(n, ("", ""))[0] == "range": self.code.append("for (auto v : %s) %s.push_back(v);" % (e, a))
                else: self.code.append("%s.push_back(%s);" % (a, e))
            self.code.append("::llvm::SmallVector<::mlir::Type, 4> %s_t; for (auto v : op0->getResults()) %s_t.push_back(v.getType());" % (v, v))
            self.code.append("%s %s = rewriter.create<%s>(odsLoc, %s_t, %s, %s); (void)%s;" % (o["full"], v, o["full"], v, a, b, v))
        else:
            args = []
            for k, an, e, l, n in vs:
                if k != "attr": args.append("::mlir::Value(%s)" % e if k == "operand" else e)
                else:
                    spec = [s for kk, nn, s in o["args"] if nn == an][0]; args.append(e if spec["storage"] in ("::mlir::Attribute", "::mlir::ElementsAttr", "::mlir::TypedAttr") else "(%s).template_cast" % e if False else e)
            self.code.append("%s %s = rewriter.create<%s>(odsLoc%s); (void)%s;" % (o["full"], v, o["full"], "".join(", " + a for a in args), v))
        if dag.get("name"): self.syms[dag["name"]] = ("op", v + ".getOperation()")
        return v
    def value(self, dag, root):
        d = dag["operator"].get("def"); r = self.td.rec(dag["operator"])
        if d == "replaceWithValue":
            if len(dag["args"]) != 1: raise GenError("replaceWithValue")
            l, n = dag["args"][0]; e = self.leaf(l, n)
            return e
        if r is not None and self.td.isa(r, "NativeCodeCall"): return self.native(dag, r)
        v = self.create(dag, root); return v if root else "%s.getOperation()->getResult(0)" % v
    def constraint(self, c):
        r = self.td.rec(c["operator"]); args = [self.leaf(l, n) for l, n in c["args"]]; p = self.td.pred(r["predicate"])
        if self.td.isa(r, "TypeConstraint"): e = tg(p, {"_self": "(%s).getType()" % args[0], "_builder": "rewriter"}, args)
        elif self.td.isa(r, "AttrConstraint"): e = tg(p, {"_self": args[0], "_builder": "rewriter"}, args)
        else: e = tg(p, {"_self": args[0] if args else "op0", "_builder": "rewriter", "_op": "(*op0)"}, args)
        self.code.append("if (!(%s)) %s" % (e, self.fail()))
    def emit(self):
        src = self.rec["sourcePattern"]; root = self.getop(src["operator"])
        if not root: raise GenError("root operator %s" % src["operator"].get("def"))
        self.code.append("::mlir::Location odsLoc; (void)odsLoc;")
        self.match(src, "op0")
        for c in self.rec["constraints"]: self.constraint(c)
        self.code.append("::llvm::SmallVector<::mlir::Value, 4> tblgen_repl_values;")
        for s in self.rec.get("supplementalPatterns") or []: self.value(s, False)
        for p in self.rec["resultPatterns"]:
            if not (isinstance(p, dict) and p.get("kind") == "dag"): raise GenError("result pattern")
            isop = p["operator"].get("def") != "replaceWithValue" and not self.td.isa(self.td.rec(p["operator"]), "NativeCodeCall")
            v = self.value(p, True)
            if isop: self.code.append("for (auto v : %s.getOperation()->getResults()) tblgen_repl_values.push_back(v);" % v)
            elif any(k == "range" and e == v for k, e in self.syms.values()): self.code.append("for (auto v : %s) tblgen_repl_values.push_back(v);" % v)
            else: self.code.append("tblgen_repl_values.push_back(%s);" % v)
        self.code.append("rewriter.replaceOp(op0, ::mlir::ValueRange(tblgen_repl_values)); return ::mlir::success();")
        ben = self.src_ops
        for a, _ in (self.rec.get("benefitDelta") or {}).get("args", []): ben += a
        body = "\n    ".join(self.code)
        return "struct %s : public ::mlir::RewritePattern {\n  %s(::mlir::MLIRContext* context) : ::mlir::RewritePattern(%s, %d, context, {}) {}\n  ::mlir::LogicalResult matchAndRewrite(::mlir::Operation* op0, ::mlir::PatternRewriter& rewriter) const override {\n    %s\n  }\n};\n" % (self.name, self.name, q(root["opname"]), max(ben, 0), body)
def gen_patterns(j):
    td = Td(j); ops = {}; out = []; names = []
    for i, n in enumerate(j["!instanceof"].get("Pattern", [])):
        p = Pattern(td, j[n], "GeneratedConvert%d" % i, ops)
        try: out.append("// %s\n" % j[n]["sourcePattern"]["printable"].replace("\n", " ") + p.emit())
        except GenError as e: raise GenError("pattern %s: %s" % (j[n]["sourcePattern"]["printable"][:200], e))
        names.append(p.name)
    out.append("void __attribute__((unused)) populateWithGenerated(::mlir::RewritePatternSet& patterns) {\n" + "".join("  patterns.add<%s>(patterns.getContext());\n" % n for n in names) + "}\n")
    return "\n".join(out), len(names)

PAT = {"generated_op_removal": "op_removal_patterns", "generated_prepare_target_arm": "prepare_patterns_target_arm", "generated_prepare_target_other": "prepare_patterns_common", "generated_optimize_target_arm": "optimize_patterns_target_arm", "generated_optimize_target_other": "optimize_patterns_common", "generated_bitpack_activations": "bitpack_activations_patterns", "generated_bitpack_weights": "bitpack_weights_patterns", "generated_quantize": "quantize_patterns", "generated_fuse_padding": "fuse_padding"}
def td_files(repo):
    """Which .td file each generated file comes from, as the repository's BUILD file says (falls back to the table above)."""
    m = dict(PAT)
    try:
        b = open(repo + "/larq_compute_engine/mlir/BUILD").read()
        for blk in re.split(r"\n(?=gentbl)", b):
            o = re.search(r'"transforms/(generated_\w+)\.inc"', blk); t = re.search(r'td_file\s*=\s*"transforms/(\w+)\.td"', blk)
            if o and t: m[o.group(1)] = t.group(1)
    except OSError: pass
    return m
def generate(out, repo="/repo"):
    mlir = repo + "/larq_compute_engine/mlir"; gt = out + "/larq_compute_engine/mlir/transforms"; gi = out + "/larq_compute_engine/mlir/ir"
    for d in (gt, gi): os.makedirs(d, exist_ok=True)
    files = td_files(repo)
    jobs = {n: mlir + "/transforms/%s.td" % f for n, f in files.items()}
    jobs["lq"] = mlir + "/ir/lce_ops.td"; jobs["tfl"] = VERIF + "/stubs/td/tensorflow/compiler/mlir/lite/ir/tfl_ops.td"; jobs["tf"] = VERIF + "/stubs/td/tensorflow/compiler/mlir/tensorflow/ir/tf_ops.td"
    with concurrent.futures.ThreadPoolExecutor(6) as ex: js = {n: f for n, f in zip(jobs, ex.map(lambda t: dump(t, repo), jobs.values()))}
    W = lambda p, s: open(p, "w").write(s)
    counts = {}
    for n in files: s, c = gen_patterns(js[n]); W(gt + "/%s.inc" % n, s); counts[n] = c
    for n, dia in (("tfl", "tfl"), ("tf", "tf")):
        td = Td(js[n]); ops = [td.op(js[n][x]) for x in js[n]["!instanceof"]["Op"]]; ops = [o for o in ops if o["opname"].startswith(dia + ".")]
        W(out + "/lce_%s_ops.inc" % n, opsfile(td, ops, ops[0]["ns"], True)); W(out + "/lce_%s_list.inc" % n, ",\n".join(o["full"] for o in ops))
    td = Td(js["lq"]); ops = [td.op(js["lq"][x]) for x in js["lq"]["!instanceof"]["Op"]]; ops = [o for o in ops if o["ns"] != "::mlir::TFL"]
    dia = [js["lq"][x] for x in js["lq"]["!instanceof"]["Dialect"] if js["lq"][x]["cppNamespace"].endswith("lq")][0]; ns = dia["cppNamespace"]
    W(gi + "/lce_dialect.h.inc", "namespace %s {\nclass %s : public ::mlir::Dialect { public: explicit %s(::mlir::MLIRContext* = nullptr) { initialize(); } static ::llvm::StringRef getDialectNamespace() { return %s; } void initialize();\n%s\n%s };\n}\n" % (ns.lstrip(":"), dia["!name"], dia["!name"], q(dia["name"]), "::mlir::Operation* materializeConstant(::mlir::OpBuilder& builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc);" if dia.get("hasConstantMaterializer") else "", dia.get("extraClassDeclaration") or ""))
    W(gi + "/lce_dialect.cc.inc", "// everything is in the class\n")
    W(gi + "/lce_ops.h.inc", opsfile(td, ops, ops[0]["ns"], False) + "#undef GET_OP_CLASSES\n"); W(gi + "/lce_ops.cc.inc", listfile(ops))
    return counts
if __name__ == "__main__":
    try: print(generate(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo"))
    except GenError as e: print("drr: " + str(e), file=sys.stderr); sys.exit(1)
