"""P25: the conversion entry points validate their options and pass them on unchanged."""
import os, sys, types, warnings
from graph import *
import world
FILE = "larq_compute_engine/mlir/python/converter.py"
QUANT = ["FakeQuantWithMinMaxVars", "FakeQuantWithMinMaxVarsPerChannel", "FakeQuantWithMinMaxArgs", "FakeQuantWithMinMaxArgsPerChannel", "QuantizeAndDequantizeV2", "QuantizeAndDequantizeV3"]
class DT:
    """tf.DType with a symbolic enumeration value."""
    def __init__(self, e): self.as_datatype_enum = e
    def __eq__(self, o): return SymBool(EQ(self.as_datatype_enum, o.as_datatype_enum)) if isinstance(o, DT) else False
    def __ne__(self, o): return SymBool(NOT(EQ(self.as_datatype_enum, o.as_datatype_enum))) if isinstance(o, DT) else True
    def __hash__(self): return 0
    def __repr__(self): return "DType"
    name = "dtype"
    @property
    def base_dtype(self): return self
class EnumName:
    def __init__(self, e): self.e = e
BASE = dict(entry="keras", dir="str", rkind="none", model="model", policy="sym", traced=0, odd=None, nodes=0, functions=[], shapes=[7], defaults=0)
def configs(tier):
    for e in ("keras", "saved"):
        for d in ("str", "path") if e == "saved" else ("str",):
            for r in world.RANGES: yield dict(BASE, entry=e, dir=d, rkind=r)
        for o in ("in-none", "out-none", "in-object", "out-object", "target-none", "target-int"): yield dict(BASE, entry=e, odd=o)
        yield dict(BASE, entry=e, defaults=1)
    for m in ("path", "none", "lookalike"): yield dict(BASE, model=m)
    yield dict(BASE, policy="absent"); yield dict(BASE, traced=1, rkind="tuple")
    for n, f in ((1, []), (2, []), (0, [1]), (1, [1]), (0, [0, 2])) + (((3, []), (1, [1, 1]), (2, [2])) if tier else ()):
        for r in ("none", "tuple"): yield dict(BASE, nodes=n, functions=f, rkind=r)
    S = range(len(world.SHAPES))
    for i in S: yield dict(BASE, shapes=[i])
    yield dict(BASE, shapes=[])
    for i in S:
        for j in S:
            if tier or (i + j) % 3 == 0: yield dict(BASE, shapes=[i, j], nodes=1 if tier else 0)
def spec(c):
    V = lambda n, lo, hi: sym(n, lo, hi); k = [0]
    def S(n): return symstr(n)
    s = dict(entry=c["entry"], dir=c["dir"], rkind=c["rkind"], model=c["model"], traced=c["traced"], range=[sym("range0", -100, 100), sym("range1", -100, 100)] if c["rkind"] != "none" else [], policy=S("policy") if c["policy"] == "sym" else None, defaults=c["defaults"])
    s["in"], s["out"], s["target"] = V("in", 1, 23), V("out", 1, 23), S("target")
    if c["odd"]:
        w, x = c["odd"].split("-")
        if w == "target": s["target"] = None if x == "none" else 5
        else: s[w] = dict(odd=None if x == "none" else ["object"])
    if c["defaults"]: s["in"], s["out"], s["target"] = 1, 1, "arm"
    s["eager"] = symbool("eager"); s["outcome"] = V("outcome", 0, 3); s["version"] = V("version", 0, 4)
    for n in ("gfail", "mfail_saved", "mfail_graph"): s[n] = symbool(n)
    s["nodes"] = [S("node%d" % i) for i in range(c["nodes"])]; s["functions"] = [[S("f%d_%d" % (i, j)) for j in range(n)] for i, n in enumerate(c["functions"])]
    s["inputs"] = [["x%d:%d" % (5 - i, i), V("dtype%d" % i, 1, 23), [None if d is None else V("d%d_%d" % (i, j), 1, 1000) for j, d in enumerate(world.SHAPES[z])]] for i, z in enumerate(c["shapes"])]; s["outputs"] = ["z:0", "y:1"][:1 + c["nodes"] % 2]
    return s
W = [None]; EXT = {}
def setup(repo):
    M = types.ModuleType; tf = TF("tensorflow")
    for n, e in dict(float32=1, float64=2, int32=3, uint8=4, int16=5, int8=6, string=7, complex64=8, int64=9, bool=10, qint8=11, bfloat16=14, uint16=17, float16=19, half=19, resource=20, variant=21, uint32=22, uint64=23).items(): setattr(tf, n, DT(e))
    tf.dtypes = types.SimpleNamespace(DType=DT, **{k: v for k, v in vars(tf).items() if isinstance(v, DT)}); tf.keras = types.SimpleNamespace(Model=type("Model", (), {})); tf.DType = DT; tf.executing_eagerly = lambda: bool(W[0].s["eager"]); tf.saved_model = types.SimpleNamespace(SERVING="serve", DEFAULT_SERVING_SIGNATURE_DEF_KEY="serving_default")
    def mod(n, **k):
        m = M(n); m.__dict__.update(k); EXT[n] = m
    mod("larq_compute_engine.mlir._tf_tfl_flatbuffer", convert_graphdef_to_tflite_flatbuffer=lambda *a: W[0].graphdef_native(*a), convert_saved_model_to_tflite_flatbuffer=lambda *a: W[0].saved_native(*a))
    mod("larq_compute_engine.mlir.python.util", modify_integer_quantized_model_io_type=lambda *a, **k: W[0].modify(*a, **k))
    mod("tensorflow.core.framework.types_pb2", DataType=types.SimpleNamespace(Name=lambda e: EnumName(e)))
    def tname(t):
        p = t.name.split(":"); return p[0] if len(p) > 1 and p[1] == "0" else t.name
    mod("tensorflow.lite.python.util", get_tensor_name=tname); mod("tensorflow.python.eager.def_function", Function=world.Fake)
    mod("tensorflow.python.framework.convert_to_constants", convert_variables_to_constants_v2=lambda *a, **k: W[0].constants(*a, **k))
    mod("tensorflow.python.keras.saving.saving_utils", model_input_signature=lambda *a, **k: W[0].input_signature(*a, **k), trace_model_call=lambda *a, **k: W[0].trace(*a, **k))
    mod("tensorflow.python.saved_model.loader_impl", parse_saved_model_with_debug_info=lambda d: W[0].parse(d)); EXT["tensorflow"] = tf
    m = load(os.path.join(repo, FILE), "larq_compute_engine.mlir.python.converter", EXT)
    # modules the functions import while they run
    pk = dict(EXT)
    for n in list(EXT):
        while "." in n:
            n = n.rpartition(".")[0]
            if n not in pk: p = M(n); p.__path__ = []; pk[n] = p
    for n, v in pk.items():
        if "." in n: a, b = n.rpartition(".")[::2]; pk[a].__dict__[b] = v
    sys.modules.update(pk); warnings.simplefilter("ignore"); return m, tf
def pack(r, err, w):
    """What happened, as plain data (dtypes as numbers)."""
    out = []; num = lambda x: x.as_datatype_enum if hasattr(x, "as_datatype_enum") else x
    for k in w.calls:
        k = list(k)
        if k[0] == "modify": k[2:] = [num(x) for x in k[2:]]
        if k[0] in ("saved", "parse"): k[1] = "/some/model" if k[1] == "/some/model" else "saved dir" if w.saves and k[1] == w.saves[0][0] else "other" if isinstance(k[1], str) else "not a string"
        out.append(k)
    return dict(calls=out, result=r, err=err, saves=[x[1] for x in w.saves], left=[os.path.exists(x[0]) for x in w.saves], exists=w.exists, freeze=w.freeze, sig=w.sig)
def run(mod, tf, c, s):
    W[0] = w = world.World(s, DT, tf.float32); return pack(*world.run(w, mod, tf.keras.Model)), None
def L(x): return x.decode() if isinstance(x, bytes) else x
def oracle(c, s, pre, r, err):
    e = r["err"]; B = lambda x: bool(SymBool(T(x))) if not isinstance(x, bool) else x; q = lambda x: isinstance(x, dict); keras = c["entry"] == "keras"
    types_ok = not q(s["in"]) and not q(s["out"]) and B(AND(IN(s["in"], (1, 6)), IN(s["out"], (1, 6)))); ok = types_ok and c["odd"] not in ("target-none", "target-int") and B(IN(s["target"], ("arm", "xcore")))
    if keras: ok = ok and c["model"] == "model" and (s["policy"] is None or B(EQ(s["policy"], "float32")))
    calls = [[L(y) for y in x] for x in r["calls"]]; kinds = [x[0] for x in calls]; none = not calls and not r["saves"]
    if not ok: check(e == "ValueError" or e == "RuntimeError" and not B(s["eager"]), "unsupported options are rejected"); check(none, "nothing is converted before the options are validated"); cover("rejected"); return
    if not B(s["eager"]): check(e == "RuntimeError" and none, "graph mode is rejected"); cover("graph mode"); return
    rng = list(s["range"]) if c["rkind"] != "none" else None; int8 = B(OR(EQ(s["in"], 6), EQ(s["out"], 6))); pos = 0; stage = "done"; oc = s["outcome"]
    def same_rng(x): return x is None if rng is None else AND(x is not None and len(x) == 2, *[EQ(a, b) for a, b in zip(x, rng)]) if x is not None else False
    def modified(x, buf): check(x[0] == "modify" and x[1] == buf, "the input and output types are applied to the converted model"); CHECK(AND(EQ(x[2], s["in"]), EQ(x[3], s["out"])), "the requested types are applied")
    # conversion as a saved model
    if keras: check(r["saves"] == ["tf"], "the model is saved once in the TensorFlow format"); check(r["left"] == [False], "the temporary directory is removed"); check(all(r["exists"]), "the saved model exists while it is converted")
    where = "saved dir" if keras else "/some/model"; parsed = not (keras and B(EQ(oc, 1))); stage = None
    if parsed:
        check(kinds[:1] == ["parse"] and calls[0][1] == where, "the version is read from the model that is converted"); pos = 1
        if B(EQ(oc, 2)): stage = "OSError"
        elif not B(IN(s["version"], (1, 2))): stage = "ValueError"
        else:
            check(len(calls) > 1 and kinds[1] == "saved" and len(calls[1]) == 7, "a saved model is converted"); x = calls[1]; pos = 2
            check(x[1] == where and list(x[2]) == ["serve"] and list(x[3]) == ["serving_default"], "the serving signature is converted"); CHECK(AND(EQ(x[4], s["version"]), EQ(x[5], s["target"]), same_rng(x[6])), "version, target and default range reach the converter")
            if B(EQ(oc, 3)): stage = "RuntimeError"
            elif int8:
                check(len(calls) > 2, "requested types are not ignored"); modified(calls[2], "saved"); pos = 3
                if B(s["mfail_saved"]): stage = "ValueError"
    else: stage = "RuntimeError"
    if stage is None: check(e is None and L(r["result"]) == ("modified-saved" if int8 else "saved"), "the converted model is returned"); check(len(calls) == pos, "a model is converted once"); cover("saved model"); return
    if not keras: check(e == stage and len(calls) == pos, "a failing conversion raises its error"); cover("saved model failed"); return
    # conversion as a graph
    bad = False
    check(r["freeze"] == [False], "control flow is kept when variables are frozen"); check(r["sig"] == ([None] if c["traced"] else ["kept", "signature"]), "the model's own batch size is used")
    ins = [t for t in s["inputs"] if not B(EQ(t[1], 20))]; bad = any(None in t[2][1:] for t in ins)
    if bad: check(e == "ValueError" and len(calls) == pos, "unknown dimensions are rejected"); cover("unknown dimension"); return
    check(len(calls) > pos and kinds[pos] == "graphdef" and len(calls[pos]) == 9, "the graph is converted when the saved model cannot be"); x = calls[pos]; pos += 1; nm = lambda n: n[:-2] if n.endswith(":0") else n
    check(x[1] == "graph" and list(x[2]) == [nm(t[0]) for t in ins] and list(x[5]) == [nm(n) for n in s["outputs"]] and len(x[3]) == len(ins) and len(x[4]) == len(ins), "input and output names reach the converter")
    CHECK(AND(*[(EQ(y.e, t[1]) if isinstance(y, EnumName) else y == DATATYPES[int(t[1])]) for y, t in zip(x[3], ins)]), "input types reach the converter")
    for y, t in zip(x[4], ins):
        check(len(y) == len(t[2]) and None not in y, "input shapes reach the converter"); CHECK(AND(*[EQ(a, 1 if b is None else b) for a, b in zip(y, t[2])]), "input shapes reach the converter")
    quant = OR(rng is not None, *[IN(o, QUANT) for l in [s["nodes"]] + s["functions"] for o in l]); CHECK(AND(T(x[6]) == quant, EQ(x[7], s["target"]), same_rng(x[8])), "quantization switch, target and default range reach the converter")
    if B(s["gfail"]): check(e == "RuntimeError" and len(calls) == pos, "a failing conversion raises its error"); cover("graph failed"); return
    if int8:
        check(len(calls) > pos, "requested types are not ignored"); modified(calls[pos], "graphdef"); pos += 1
        if B(s["mfail_graph"]): check(e == "ValueError" and len(calls) == pos, "types that cannot be applied raise an error"); cover("types cannot be applied"); return
    check(e is None and L(r["result"]) == ("modified-graphdef" if int8 else "graphdef") and len(calls) == pos, "the converted model is returned"); cover("graph")
DATATYPES = [None, "DT_FLOAT", "DT_DOUBLE", "DT_INT32", "DT_UINT8", "DT_INT16", "DT_INT8", "DT_STRING", "DT_COMPLEX64", "DT_INT64", "DT_BOOL", "DT_QINT8", "DT_QUINT8", "DT_QINT32", "DT_BFLOAT16", "DT_QINT16", "DT_QUINT16", "DT_UINT16", "DT_COMPLEX128", "DT_HALF", "DT_RESOURCE", "DT_VARIANT", "DT_UINT32", "DT_UINT64"]
def canon(r):
    r = dict(r, calls=[[L(y) for y in x] for x in r["calls"]], result=L(r["result"]))
    for x in r["calls"]:
        if x[0] == "graphdef": x[3] = [DATATYPES[int(y.e)] if isinstance(y, EnumName) else y for y in x[3]]
    return r
COVERS = ["rejected", "graph mode", "saved model", "saved model failed", "unknown dimension", "graph failed", "types cannot be applied", "graph"]
