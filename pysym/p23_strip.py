"""P23: stripping trailing dequantize operators."""
from graph import *
FILE = "larq_compute_engine/mlir/python/util.py"
LD = (CUSTOM, b"LceDequantize")
OPC = [[(DEQUANTIZE, None), LD, (3, None)], [(CUSTOM, b"LceBconv2d"), LD], [(DEQUANTIZE, None), (3, None)], [(3, None), (CUSTOM, b"LceQuantize")], [LD, (22, None), (DEQUANTIZE, None)]]
# per subgraph: (tensors, operator arities, inputs, outputs)
SHAPES = [[(4, (1, 1), 1, 1)], [(4, (1, 2), 1, 1)], [(4, (1, 1), 1, 2)], [(3, (1,), 1, 1), (3, (1,), 1, 1)], [(3, (1,), 1, 1)], [(5, (1, 1, 1), 1, 1)], [(5, (1, 1, 2), 1, 2)], [(4, (1, 1), 1, 1), (3, (1,), 1, 1)]]
KIND = [(2, 1, 0), (1, 0, 0), (1, 1, 0), (1, 0, 2), (2, 1, 1), (1, 2, 0)]
def configs(tier):
    for s in range(len(SHAPES) if tier else 6):
        big = len(SHAPES[s][0][1]) > 2
        for k in range(len(KIND) if big else 1):
            for o in range(1 if big else len(OPC)):
                for g in range(4):
                    if (o > 1 or s > 3) and g not in ((1,) if not tier else (0, 1)) or g > 1 and len(SHAPES[s]) < 2: continue
                    if o > 2 and s > 1 and not tier: continue
                    yield dict(shape=s, opcodes=o, sigs=g, kinds=k)
def spec(c):
    oc = OPC[c["opcodes"]]; subs = []
    for b, (n, ar, ni, no) in enumerate(SHAPES[c["shape"]]):
        ids = lambda nm, lo=0: sym("s%d%s" % (b, nm), lo, n - 1)
        ops = [(sym("s%dop%d" % (b, k), 0, len(oc) - 1) if len(ar) < 3 else KIND[c["kinds"]][k], [ids("op%din%d" % (k, i), 0 if i == 0 else -1) for i in range(a)], [ids("op%dout" % k)]) for k, a in enumerate(ar)]
        ins = [ids("in%d" % i) for i in range(ni)]; outs = [ids("out%d" % i) for i in range(no)]; ty = [sym("s%dtype%d" % (b, i), 0, 12) for i in range(n)]; prod = [o[2][0] for o in ops]
        for t in ty: assume(SymBool(IN(t, (FLOAT32, INT32, INT8, 12))))
        assume(SymBool(z3.Distinct(*[T(x) for x in prod + ins])))
        for k, o in enumerate(ops):
            for i in o[1]: assume(SymBool(NOT(IN(i, prod[k:]))))
            if len(o[1]) > 1: assume(SymBool(OR(*[EQ(o[0], i) for i, x in enumerate(oc) if x[0] != DEQUANTIZE and x != LD])))
        for o in outs: assume(SymBool(OR(IN(o, prod), IN(o, ins))))
        subs.append(dict(tensors=ty, ops=ops, inputs=ins, outputs=outs))
    sg = [dict(sub=b, ins=list(x["inputs"]), outs=list(x["outputs"])) for b, x in enumerate(subs)]
    return dict(opcodes=oc, subgraphs=subs, sigs=[None, sg[:1], sg, sg[::-1]][c["sigs"]])
def run(mod, ext, c, s):
    STORE.clear(); STORE[b"in"] = s
    try: r = mod.strip_lcedequantize_ops(b"in")
    except (ValueError, NotImplementedError) as e: return None, e
    k, m, fid = STORE[bytes(r)]; check(fid == b"TFL3", "the result is a TFLite file"); return dump(m), None
def prepare(c, s):
    """For every subgraph: what must happen, as terms over the symbolic model."""
    oc = s["opcodes"]; bad = [not any(x[0] == DEQUANTIZE or x == LD for x in oc)]; subs = []
    for g in s["subgraphs"]:
        ops = g["ops"]; n = len(g["tensors"]); ty = lambda t: PICK(t, g["tensors"]); outs = [T(x) for x in g["outputs"]]; gone = [OR() for _ in ops]
        for stage in (0, 1):
            B = [AND(OR(*[EQ(o[0], i) for i, x in enumerate(oc) if (x == LD if stage else x[0] == DEQUANTIZE)]), IN(o[2][0], outs)) for o in ops]
            for k, o in enumerate(ops):
                a, b = ty(o[1][0]), ty(o[2][0]); bad.append(AND(B[k], NOT(AND(a == INT32, IN(b, (FLOAT32, INT8))) if stage else AND(a == INT8, b == FLOAT32))))
            used = [OR(*[AND(NOT(gone[j]), EQ(x, o[2][0])) for j, p in enumerate(ops) if j != k for x in p[1]]) for k, o in enumerate(ops)]
            gone = [OR(gone[k], AND(B[k], NOT(used[k]))) for k in range(len(ops))]
            new = []
            for t in outs:
                e = t
                for k, o in enumerate(ops): e = z3.If(AND(B[k], t == T(o[2][0])), T(o[1][0]), e)
                new.append(e)
            outs = new
        subs.append((gone, outs, [OR(*[AND(gone[k], T(o[2][0]) == t) for k, o in enumerate(ops)]) for t in range(n)]))
    return OR(*bad), subs
def oracle(c, s, pre, res, err):
    bad, subs = pre; oc = s["opcodes"]
    if err is not None: CHECK(bad, "only models that cannot be stripped are rejected"); cover("rejected"); return
    CHECK(NOT(bad), "models without operators to strip or with other types are rejected"); ident = []; check(len(res["subgraphs"]) == len(subs), "subgraphs stay")
    for b, (g, r, (gone, outs, lost)) in enumerate(zip(s["subgraphs"], res["subgraphs"], subs)):
        ops = g["ops"]; tags = [o[0] for o in r["ops"]]; names = [int(t[0][3:]) for t in r["tensors"]]; idt = lambda t, names=names: PICK(t, names); ident.append(idt)
        check(all(t[0].startswith("s%dt" % b) for t in r["tensors"]), "tensors stay in their subgraph")
        for k in range(len(ops)): CHECK(NOT(gone[k]) if k in tags else gone[k], "exactly the trailing dequantize operators are removed")
        check(tags == sorted(tags) and len(set(tags)) == len(tags), "the other operators keep their order")
        check(len(r["inputs"]) == len(g["inputs"]) and len(r["outputs"]) == len(g["outputs"]), "the numbers of inputs and outputs stay")
        for x, y in zip(r["inputs"], g["inputs"]): CHECK(idt(x) == T(y), "inputs stay")
        for x, y in zip(r["outputs"], outs): CHECK(idt(x) == y, "outputs are the tensors in front of removed operators")
        for tag, code, p, q in r["ops"]:
            o = ops[tag]; check(len(p) == len(o[1]) and len(q) == len(o[2]) and code is not None, "the other operators keep their operands")
            CHECK(OR(*[AND(EQ(o[0], i), SAMECODE(code, x)) for i, x in enumerate(oc)]), "the other operators keep their operator code")
            for x, y in list(zip(p, o[1])) + list(zip(q, o[2])): CHECK(z3.If(T(y) == -1, T(x) == -1, idt(x) == T(y)), "the other operators refer to the same tensors")
        for j, nme in enumerate(names): CHECK(EQ(r["tensors"][j][1], g["tensors"][nme]), "tensors keep their type")
        check(len(set(names)) == len(names), "tensors are not duplicated")
        for t in range(len(g["tensors"])):
            if t not in names: CHECK(lost[t], "only results of removed operators disappear")
        if len(ops) - len(tags) > 1: cover("removed two")
        elif len(tags) < len(ops): cover("removed")
        else: cover("nothing to remove")
        if any(names[j] != j for j in range(len(names))): cover("renumbered")
    if s["sigs"] is None: check(not res["sigs"], "no signature appears"); return
    check(len(res["sigs"]) == len(s["sigs"]), "signatures stay")
    for x, y in zip(res["sigs"], s["sigs"]):
        b = y["sub"]; check(x["sub"] == b and len(x["ins"]) == len(y["ins"]) and len(x["outs"]) == len(y["outs"]), "signatures stay")
        for u, v in zip(x["ins"], y["ins"]): CHECK(ident[b](u) == T(v), "the signature names the subgraph's inputs")
        for u, v in zip(x["outs"], subs[b][1]): CHECK(ident[b](u) == v, "the signature names the subgraph's outputs")
COVERS = ["rejected", "removed", "removed two", "nothing to remove", "renumbered"]
