"""Model graphs for P22/P23: symbolic specification, stand-ins for tflite_schema/flatbuffers/tensorflow, comparison helpers."""
import sys, types, copy, itertools, numpy as np, z3
from core import *
FLOAT32, INT32, INT8, QUANTIZE, DEQUANTIZE, CUSTOM = 0, 2, 9, 114, 6, 32

class Auto(types.ModuleType):
    """Module whose unknown attributes are fresh classes."""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        c = type(n, (), {}); setattr(self, n, c); return c
class DType:
    def __init__(self, n): self.name = n
    def __repr__(self): return "tf." + self.name
class TF(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        d = DType(n); setattr(self, n, d); return d
class Obj:
    def __init__(self, **k): self.__dict__.update(k)
    def Pack(self, builder): return ("offset", self)
STORE = {}
def arr(l, frozen):
    a = np.empty(len(l), dtype=object)
    for i, x in enumerate(l): a[i] = x
    a.flags.writeable = not frozen; return a
def build(spec):
    """ModelT-like object as the schema's InitFromObj builds it (vectors are read-only numpy views)."""
    def sub(i, s):
        return Obj(tensors=SymList([Obj(name=b"s%dt%d" % (i, j), type=t, shape=[1], buffer=j, quantization=None, isVariable=False, shapeSignature=None, sparsity=None, hasRank=False) for j, t in enumerate(s["tensors"])]),
                   operators=[Obj(opcodeIndex=o[0], inputs=arr(o[1], True), outputs=arr(o[2], True), customOptions=[k], builtinOptions=None, builtinOptionsType=0, intermediates=None, mutatingVariableInputs=None) for k, o in enumerate(s["ops"])],
                   inputs=arr(s["inputs"], True), outputs=arr(s["outputs"], True), name=b"main%d" % i)
    sd = None if spec["sigs"] is None else [Obj(signatureKey=b"k%d" % j, subgraphIndex=g["sub"], inputs=[Obj(name=b"i%d" % q, tensorIndex=t) for q, t in enumerate(g["ins"])], outputs=[Obj(name=b"o%d" % q, tensorIndex=t) for q, t in enumerate(g["outs"])]) for j, g in enumerate(spec["sigs"])]
    return Obj(version=3, operatorCodes=[Obj(builtinCode=b, deprecatedBuiltinCode=b, customCode=c, version=1) for b, c in spec["opcodes"]], subgraphs=[sub(i, s) for i, s in enumerate(spec["subgraphs"])], buffers=[Obj(data=None)], signatureDefs=sd, metadata=None, description=b"d", metadataBuffer=None)
def dump(m):
    """The part of a model object the properties talk about, as plain lists."""
    oc = lambda i: next(((c.builtinCode, c.customCode) for j, c in enumerate(m.operatorCodes) if same(i, j)), None)
    return dict(subgraphs=[dict(tensors=[(t.name.decode() if isinstance(t.name, bytes) else t.name, t.type) for t in s.tensors], ops=[(int(o.customOptions[0]), oc(o.opcodeIndex), list(o.inputs), list(o.outputs)) for o in s.operators], inputs=list(s.inputs), outputs=list(s.outputs)) for s in m.subgraphs],
                sigs=None if m.signatureDefs is None else [dict(sub=g.subgraphIndex, ins=[x.tensorIndex for x in g.inputs], outs=[x.tensorIndex for x in g.outputs]) for g in m.signatureDefs])
def modules():
    schema = Auto("tflite_schema")
    class BuiltinOperator: pass
    for k, v in dict(ADD=0, DEQUANTIZE=6, CUSTOM=32, QUANTIZE=114, CONV_2D=3, RESHAPE=22, FAKE_QUANT=80).items(): setattr(BuiltinOperator, k, v)
    class TensorType: pass
    for k, v in dict(FLOAT32=0, FLOAT16=1, INT32=2, UINT8=3, INT64=4, STRING=5, BOOL=6, INT16=7, COMPLEX64=8, INT8=9, FLOAT64=10, COMPLEX128=11).items(): setattr(TensorType, k, v)
    class Model:
        @classmethod
        def GetRootAsModel(cls, buf, off=0): return STORE[bytes(buf)]
        GetRootAs = GetRootAsModel
    class ModelT:
        @classmethod
        def InitFromObj(cls, o): return build(o)
        @classmethod
        def InitFromPackedBuf(cls, buf, pos=0): return build(STORE[bytes(buf)])
    schema.BuiltinOperator, schema.TensorType, schema.Model, schema.ModelT = BuiltinOperator, TensorType, Model, ModelT
    fb = Auto("flatbuffers")
    class Builder:
        def __init__(self, n=0): self.m = None
        def Finish(self, off, file_identifier=None): self.m, self.fid = off[1], file_identifier
        def Output(self):
            tok = b"out%d" % len(STORE); STORE[tok] = ("model", self.m, self.fid); return tok
    fb.Builder = Builder
    return {"tensorflow": TF("tensorflow"), "flatbuffers": fb, "larq_compute_engine.mlir.python.tflite_schema": schema}
BUILTINS = dict(set=SymSet, dict=SymDict, frozenset=SymSet)
class Rewrite(__import__("ast").NodeTransformer):
    """Set and dictionary displays/comprehensions become containers that accept symbolic members."""
    def visit_Dict(self, n):
        import ast; self.generic_visit(n)
        if any(k is None for k in n.keys): return n
        return ast.copy_location(ast.Call(ast.Name("dict", ast.Load()), [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())] if n.keys else [], []), n)
    def visit_DictComp(self, n):
        import ast; self.generic_visit(n); return ast.copy_location(ast.Call(ast.Name("dict", ast.Load()), [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], []), n)
    def visit_Set(self, n):
        import ast; self.generic_visit(n); return ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)
    def visit_SetComp(self, n):
        import ast; self.generic_visit(n); return ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)
def load(path, name, extra):
    """Executes a module of the repository with stand-in imports (only while it is imported)."""
    import ast
    src = open(path).read(); tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, path)))
    mod = types.ModuleType(name); mod.__file__ = path; mod.__dict__.update(BUILTINS); mod.__package__ = name.rpartition(".")[0]
    add = dict(extra); pk = set()
    for k in list(add) + [name]:
        while "." in k:
            c = k.rpartition("."); pk.add(c[0]); k = c[0]
    for k in sorted(pk):
        if k not in add: p = types.ModuleType(k); p.__path__ = []; add[k] = p
    for k, v in add.items():
        a, _, b = k.rpartition(".")
        if a and not isinstance(add[a], TF): setattr(add[a], b, v)
        elif a: add[a].__dict__[b] = v; add[a].__dict__.setdefault("__path__", [])
    old = {k: sys.modules.get(k) for k in add}; sys.modules.update(add)
    try: exec(compile(tree, path, "exec"), mod.__dict__)
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return mod

# ---- term helpers (work on plain ints, too) ----------------------------------------------------
def T(x): return x if isinstance(x, z3.ExprRef) else term(x)
def AND(*a): return z3.And(*[T(x) for x in a]) if a else z3.BoolVal(True)
def OR(*a): return z3.Or(*[T(x) for x in a]) if a else z3.BoolVal(False)
def NOT(a): return z3.Not(T(a))
def EQ(a, b): return T(a) == T(b)
def IN(x, l): return OR(*[EQ(x, y) for y in l])
def ITE(c, a, b): return z3.If(T(c), T(a), T(b))
def PICK(i, l, d=-99):
    e = z3.IntVal(d)
    for j in range(len(l) - 1, -1, -1): e = z3.If(T(i) == j, T(l[j]), e)
    return e
def CHECK(c, label): check(SymBool(c), label)
def SAMECODE(a, b): d = lambda x: x.decode() if isinstance(x, bytes) else x; return a[0] == b[0] and d(a[1]) == d(b[1])
def canon(res):
    """Custom codes as text, as in the native dumps."""
    if res is None: return None
    for s in res["subgraphs"]: s["ops"] = [(o[0], o[1] and (o[1][0], o[1][1].decode() if isinstance(o[1][1], bytes) else o[1][1]), o[2], o[3]) for o in s["ops"]]
    return res
