"""P22: changing input/output types removes exactly the boundary quantize/dequantize operators."""
from graph import *
FILE = "larq_compute_engine/mlir/python/util.py"
OPC = [[(QUANTIZE, None), (DEQUANTIZE, None), (3, None)], [(3, None), (DEQUANTIZE, None), (QUANTIZE, None)], [(QUANTIZE, None), (0, None)], [(22, None), (DEQUANTIZE, None)], [(3, None), (CUSTOM, b"LceBconv2d")]]
# (tensors, operator arities, inputs, outputs)
SHAPES = [(4, (1, 1), 1, 1), (5, (1, 1, 1), 1, 1), (5, (1, 2), 1, 1), (4, (1, 1), 1, 2), (5, (1, 1), 2, 1), (3, (1,), 1, 1), (6, (1, 2, 1), 1, 1), (6, (1, 1, 1), 2, 2), (6, (1, 1, 2), 2, 1)]
# operator codes of the three-operator families (indices into OPC[0]); None: symbolic
KIND = [(0, 2, 1), (0, 1, 1), (0, 0, 2), (2, 1, 1), (0, 2, 2), (2, 2, 1)]
def configs(tier):
    for s in range(len(SHAPES) if tier else 6):
        for k in range(len(KIND) if len(SHAPES[s][1]) > 2 else 1):
            for o in range(len(OPC) if len(SHAPES[s][1]) < 3 else 1):
                for r in range(4):
                    for g in range(4):
                        if (o > 1 or r == 0) and (g > 0 or s not in (0, 2)) or g == 2 and s not in (0, 3, 4) or g == 3 and s not in (0, 5): continue
                        if o == 1 and g != 1 or g == 0 and s > 0 and r != 3: continue
                        yield dict(shape=s, opcodes=o, request=r, sigs=g, kinds=k)
def spec(c):
    n, ar, ni, no = SHAPES[c["shape"]]; oc = OPC[c["opcodes"]]; ids = lambda nm, lo=0: sym(nm, lo, n - 1)
    ops = [(sym("op%d" % k, 0, len(oc) - 1) if len(ar) < 3 else KIND[c["kinds"]][k], [ids("op%din%d" % (k, i), 0 if i == 0 else -1) for i in range(a)], [ids("op%dout" % k)]) for k, a in enumerate(ar)]
    ins = [ids("in%d" % i) for i in range(ni)]; outs = [ids("out%d" % i) for i in range(no)]; ty = [sym("type%d" % i, 0, 12) for i in range(n)]
    for t in ty: assume(SymBool(IN(t, (FLOAT32, INT32, INT8, 12))))
    prod = [o[2][0] for o in ops]
    assume(SymBool(z3.Distinct(*[T(x) for x in prod + ins])))
    for k, o in enumerate(ops):
        for i in o[1]: assume(SymBool(NOT(IN(i, prod[k:]))))
    for o in ops:
        if len(o[1]) > 1: assume(SymBool(OR(*[EQ(o[0], i) for i, x in enumerate(oc) if x[0] not in (QUANTIZE, DEQUANTIZE)])))
    for o in outs: assume(SymBool(OR(IN(o, prod), IN(o, ins))))
    sg = None if c["sigs"] == 0 else [dict(sub=0, ins=list(ins), outs=list(outs))] if c["sigs"] == 1 else [dict(sub=0, ins=ins[::-1], outs=outs[::-1])]
    if c["sigs"] == 3: sg = [dict(sub=1, ins=[1], outs=[0]), dict(sub=0, ins=list(ins), outs=list(outs))]
    more = [dict(tensors=[FLOAT32, INT8], ops=[(0, [1], [0])], inputs=[1], outputs=[0])] if c["sigs"] == 3 else []
    return dict(opcodes=oc, subgraphs=[dict(tensors=ty, ops=ops, inputs=ins, outputs=outs)] + more, sigs=sg)
def request(c): return ("int8" if c["request"] & 1 else "float32", "int8" if c["request"] & 2 else "float32")
def run(mod, ext, c, s):
    """-> (result object dump or None, exception or None)"""
    tf = ext["tensorflow"]; STORE.clear(); STORE[b"in"] = s; i, o = request(c)
    try: r = mod.modify_integer_quantized_model_io_type(b"in", inference_input_type=getattr(tf, i), inference_output_type=getattr(tf, o))
    except (ValueError, NotImplementedError) as e: return None, e
    k, m, fid = STORE[bytes(r)]; check(fid == b"TFL3", "the result is a TFLite file"); return dump(m), None
def prepare(c, s):
    g = s["subgraphs"][0]; oc = s["opcodes"]; ops = g["ops"]; n = len(g["tensors"]); rin, rout = (x == "int8" for x in request(c))
    kind = lambda op, b: OR(*[EQ(op[0], i) for i, x in enumerate(oc) if x[0] == b])
    ty = lambda t: PICK(t, g["tensors"]); codes = [x[0] for x in oc]; none = QUANTIZE not in codes and DEQUANTIZE not in codes
    inB = [AND(kind(o, QUANTIZE), IN(o[1][0], g["inputs"])) for o in ops]; outB = [AND(kind(o, DEQUANTIZE), IN(o[2][0], g["outputs"])) for o in ops]
    bad = OR(none, *[AND(OR(inB[k], outB[k]), NOT(AND(ty(ITE(inB[k], o[1][0], o[2][0])) == FLOAT32, ty(ITE(inB[k], o[2][0], o[1][0])) == INT8))) for k, o in enumerate(ops)])
    used = lambda t, k: OR(*[EQ(t, x) for j, o in enumerate(ops) for q, x in enumerate(o[1]) if j != k])
    shared = [OR(used(o[1][0], k), IN(o[1][0], g["outputs"])) for k, o in enumerate(ops)]
    imp = OR(*[AND(inB[k], shared[k]) for k in range(len(ops))]) if rin else OR()
    gone = [OR(AND(rin, inB[k]), AND(rout, outB[k], NOT(used(o[2][0], k)))) for k, o in enumerate(ops)]
    def other(t, rq, B, a, b):
        e = T(t)
        for k, o in enumerate(ops): e = z3.If(AND(rq, B[k], EQ(t, o[a][0])), T(o[b][0]), e)
        return e
    mi = [other(t, rin, inB, 1, 2) for t in g["inputs"]]; mo = [other(t, rout, outB, 2, 1) for t in g["outputs"]]
    lost = [OR(*[AND(gone[k], z3.If(inB[k], T(o[1][0]), T(o[2][0])) == t) for k, o in enumerate(ops)]) for t in range(n)]
    return bad, imp, gone, mi, mo, lost
def oracle(c, s, pre, res, err):
    bad, imp, gone, mi, mo, lost = pre; g = s["subgraphs"][0]; oc = s["opcodes"]; ops = g["ops"]; n = len(g["tensors"])
    if err is not None: CHECK(OR(bad, imp), "only impossible requests are rejected"); cover("rejected"); return
    CHECK(NOT(bad), "requests on models without float/int8 boundary operators are rejected"); CHECK(NOT(imp), "an input that has other users cannot change its type")
    r = res["subgraphs"][0]; tags = [o[0] for o in r["ops"]]; names = [int(t[0][3:]) for t in r["tensors"]]
    for k in range(len(ops)): CHECK(NOT(gone[k]) if k in tags else gone[k], "exactly the boundary operators of the request are removed")
    check(tags == sorted(tags) and len(set(tags)) == len(tags), "the other operators keep their order")
    ident = lambda t: PICK(t, names)          # new tensor index -> original tensor
    check(len(r["inputs"]) == len(g["inputs"]) and len(r["outputs"]) == len(g["outputs"]), "the numbers of inputs and outputs stay")
    for i, t in enumerate(g["inputs"]): CHECK(ident(r["inputs"][i]) == mi[i], "inputs are the tensors on the other side of removed operators")
    for i, t in enumerate(g["outputs"]): CHECK(ident(r["outputs"][i]) == mo[i], "outputs are the tensors on the other side of removed operators")
    for tag, code, a, b in r["ops"]:
        o = ops[tag]; check(len(a) == len(o[1]) and len(b) == len(o[2]) and code is not None, "the other operators keep their operands")
        CHECK(OR(*[AND(EQ(o[0], i), SAMECODE(code, x)) for i, x in enumerate(oc)]), "the other operators keep their operator code")
        for x, y in list(zip(a, o[1])) + list(zip(b, o[2])): CHECK(z3.If(T(y) == -1, T(x) == -1, ident(x) == T(y)), "the other operators refer to the same tensors")
    for j, nme in enumerate(names): CHECK(EQ(r["tensors"][j][1], g["tensors"][nme]), "tensors keep their type")
    check(len(set(names)) == len(names), "tensors are not duplicated")
    for t in range(n):
        if t not in names: CHECK(lost[t], "only the float tensors of removed operators disappear")
    if s["sigs"] is None: check(not res["sigs"], "no signature appears")
    else:
        check(len(res["sigs"]) == len(s["sigs"]), "signatures stay")
        for x, y in zip(res["sigs"], s["sigs"]):
            check(x["sub"] == y["sub"] and len(x["ins"]) == len(y["ins"]) and len(x["outs"]) == len(y["outs"]), "signatures stay")
            if y["sub"]: check([int(q) for q in x["ins"] + x["outs"]] == y["ins"] + y["outs"], "signatures of other subgraphs stay"); continue
            for u, v in zip(x["ins"], mi[::-1] if c["sigs"] == 2 else mi): CHECK(ident(u) == v, "the signature names the new inputs")
            for u, v in zip(x["outs"], mo[::-1] if c["sigs"] == 2 else mo): CHECK(ident(u) == v, "the signature names the new outputs")
    for q, x in zip(s["subgraphs"][1:], res["subgraphs"][1:]): check([t[0] for t in x["tensors"]] == ["s1t%d" % i for i in range(len(q["tensors"]))] and [(o[0], [int(i) for i in o[2]], [int(i) for i in o[3]]) for o in x["ops"]] == [(i, list(o[1]), list(o[2])) for i, o in enumerate(q["ops"])] and [int(i) for i in x["inputs"]] + [int(i) for i in x["outputs"]] == q["inputs"] + q["outputs"], "other subgraphs stay")
    check(len(res["subgraphs"]) == len(s["subgraphs"]), "subgraphs stay")
    if len(tags) < len(ops): cover("removed")
    else: cover("nothing to remove")
    if any(names[j] != j for j in range(len(names))): cover("renumbered")
COVERS = ["rejected", "removed", "nothing to remove", "renumbered"]
