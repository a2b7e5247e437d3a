"""The world around converter.py for P25: a Keras model, native converters and loaders that record what they are given and
answer as the specification says. Used symbolically and, with the real TensorFlow, natively."""
import os, pathlib
class Obj:
    def __init__(self, **k): self.__dict__.update(k)
SHAPES = [[], [None], [0], [None, 0], [0, 0], [0, None], [None, None, 0], [None, 0, 0, 0], [0, 0, 0, None]]     # 0: a known dimension
RANGES = ["none", "tuple", "list"]
class Fake:
    """Stands for def_function.Function: a model whose call is already traced."""
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): pass
class Tensor:
    def __init__(self, name, dtype, shape): self.name, self.dtype, self.l = name, dtype, list(shape)
    @property
    def shape(self): return Obj(as_list=lambda: list(self.l), rank=len(self.l), dims=list(self.l))
    def set_shape(self, shape): self.l = list(shape)
class World:
    def __init__(self, s, dtype, f32):
        self.s, self.dtype, self.f32, self.calls, self.saves, self.freeze, self.sig, self.exists = s, dtype, f32, [], [], [], [], []
    def saved_native(self, *a):
        self.exists.append(os.path.isdir(a[0])); self.calls.append(["saved"] + list(a))
        if self.s["outcome"] == 3: raise RuntimeError("Could not translate to flatbuffer.")
        return b"saved"
    def graphdef_native(self, *a):
        if any(isinstance(x, (list, tuple, dict, set, str, float)) for x in a[5:6]): raise TypeError("incompatible function arguments")
        self.calls.append(["graphdef"] + list(a))
        if self.s["gfail"]: raise RuntimeError("Could not convert GraphDef.")
        return b"graphdef"
    def modify(self, model, inference_input_type=None, inference_output_type=None):
        i, o = [self.f32 if x is None else x for x in (inference_input_type, inference_output_type)]; self.calls.append(["modify", model, i, o])
        if self.s["mfail_saved"] if model == b"saved" else self.s["mfail_graph"]: raise ValueError("Model is not integer quantized")
        return b"modified-" + model
    def parse(self, d):
        self.calls.append(["parse", d])
        if self.s["outcome"] == 2: raise IOError("SavedModel file does not exist")
        return Obj(saved_model_schema_version=self.s["version"]), None
    def input_signature(self, model, keep_original_batch_size=False): self.sig.append("kept" if keep_original_batch_size else "dropped"); return "signature"
    def trace(self, model, input_signature=None): self.sig.append(input_signature); return Obj(get_concrete_function=lambda *a, **k: Obj(inputs=[], outputs=[]))
    def constants(self, func, lower_control_flow=True, aggressive_inlining=False):
        self.freeze.append(lower_control_flow); s = self.s; n = lambda l: [Obj(op=o) for o in l]
        ts = [Tensor(nm, self.dtype(d), sh) for nm, d, sh in s["inputs"]]; gd = Obj(node=n(s["nodes"]), library=Obj(function=[Obj(node_def=n(f)) for f in s["functions"]]), SerializeToString=lambda: b"graph")
        return Obj(inputs=ts, outputs=[Tensor(nm, self.dtype(1), []) for nm in s["outputs"]], graph=Obj(as_graph_def=lambda *a, **k: gd))
    def model(self, base):
        w, s = self, self.s
        if s["model"] == "path": return "./model.h5"
        if s["model"] == "none": return None
        if s["model"] == "lookalike": base = object
        class M(base):
            def __init__(self): pass
            def save(self, filepath, *a, **k):
                w.saves.append([filepath, k.get("save_format", a)])
                if s["outcome"] == 1: raise RuntimeError("cannot be saved")
            @property
            def dtype_policy(self):
                if s["policy"] is None: raise AttributeError("dtype_policy")
                return Obj(name=s["policy"])
        m = M()
        object.__setattr__(m, "call", Fake() if s["traced"] else (lambda x: x)); return m
def run(w, conv, base):
    s = w.s; rng = {"none": None, "tuple": tuple(s["range"]), "list": list(s["range"])}[s["rkind"]]; typ = lambda x: x["odd"] if isinstance(x, dict) else w.dtype(x); d = "/some/model" if s["dir"] == "str" else pathlib.PurePosixPath("/some/model")
    kw = dict(inference_input_type=typ(s["in"]), inference_output_type=typ(s["out"]), target=s["target"], experimental_default_int8_range=rng)
    if s["defaults"]: kw = {}
    r, err = None, None
    try: r = conv.convert_keras_model(w.model(base), **kw) if s["entry"] == "keras" else conv.convert_saved_model(d, **kw)
    except (ValueError, RuntimeError, OSError) as e: err = type(e).__name__
    return r, err, w
