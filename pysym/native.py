"""Runs the repository's Python modules on concrete inputs with the real libraries (numpy, flatbuffers, TensorFlow and its schema)."""
import sys, os, json, types, importlib.util
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3"); os.environ.setdefault("TF_USE_LEGACY_KERAS", "1"); os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
def package(*names):
    for n in names: m = types.ModuleType(n); m.__path__ = []; sys.modules[n] = m
def load(repo, f, name):
    s = importlib.util.spec_from_file_location(name, os.path.join(repo, f)); m = importlib.util.module_from_spec(s); sys.modules[name] = m; s.loader.exec_module(m); return m
def unb(x): return x["bytes"].encode() if isinstance(x, dict) else x
def p_graph(name, repo, tasks):
    import numpy as np, flatbuffers, tensorflow as tf
    from tensorflow.lite.python import schema_py_generated as S
    package("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python"); sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S; sys.modules["larq_compute_engine.mlir.python"].tflite_schema = S
    util = load(repo, "larq_compute_engine/mlir/python/util.py", "larq_compute_engine.mlir.python.util")
    def build(s):
        m = S.ModelT(); m.version = 3; m.description = "d"; m.buffers = [S.BufferT()]; m.operatorCodes = []; m.subgraphs = []
        for b, c in s["opcodes"]: o = S.OperatorCodeT(); o.builtinCode = b; o.deprecatedBuiltinCode = b; o.customCode = unb(c); o.version = 1; m.operatorCodes.append(o)
        for i, g in enumerate(s["subgraphs"]):
            x = S.SubGraphT(); x.name = "main%d" % i; x.tensors = []; x.operators = []; x.inputs = g["inputs"]; x.outputs = g["outputs"]
            for j, t in enumerate(g["tensors"]): u = S.TensorT(); u.name = "s%dt%d" % (i, j); u.type = t; u.shape = [1]; u.buffer = 0; x.tensors.append(u)
            for k, o in enumerate(g["ops"]): u = S.OperatorT(); u.opcodeIndex = o[0]; u.inputs = o[1]; u.outputs = o[2]; u.customOptions = [k]; x.operators.append(u)
            m.subgraphs.append(x)
        if s["sigs"] is not None:
            m.signatureDefs = []
            for j, g in enumerate(s["sigs"]):
                d = S.SignatureDefT(); d.signatureKey = "k%d" % j; d.subgraphIndex = g["sub"]; d.inputs = []; d.outputs = []
                for l, n, q in ((g["ins"], "i", d.inputs), (g["outs"], "o", d.outputs)):
                    for z, t in enumerate(l): e = S.TensorMapT(); e.name = n + str(z); e.tensorIndex = t; q.append(e)
                m.signatureDefs.append(d)
        b = flatbuffers.Builder(1024); b.Finish(m.Pack(b), file_identifier=b"TFL3"); return bytes(b.Output())
    dec = lambda x: x.decode() if isinstance(x, bytes) else x; out = []; ints = lambda a: [] if a is None else [int(q) for q in a]
    for t in tasks:
        try:
            if name == "p22_io":
                r = t["config"]["request"]; o = util.modify_integer_quantized_model_io_type(build(t["spec"]), inference_input_type=tf.int8 if r & 1 else tf.float32, inference_output_type=tf.int8 if r & 2 else tf.float32)
            else: o = util.strip_lcedequantize_ops(build(t["spec"]))
            assert o[4:8] == b"TFL3"; m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(o, 0)); oc = m.operatorCodes
            res = dict(subgraphs=[dict(tensors=[(dec(u.name), u.type) for u in s.tensors], ops=[(int(u.customOptions[0]), (oc[u.opcodeIndex].builtinCode, dec(oc[u.opcodeIndex].customCode)), ints(u.inputs), ints(u.outputs)) for u in s.operators], inputs=ints(s.inputs), outputs=ints(s.outputs)) for s in m.subgraphs],
                       sigs=None if m.signatureDefs is None else [dict(sub=d.subgraphIndex, ins=[int(u.tensorIndex) for u in d.inputs or []], outs=[int(u.tensorIndex) for u in d.outputs or []]) for d in m.signatureDefs]); out.append(dict(res=res, err=None))
        except ValueError as e: out.append(dict(res=None, err=str(e)))
        except Exception as e: out.append(dict(res=None, err=None, escaped="no %s escapes: %s" % (type(e).__name__, str(e)[:80])))
    return out
def p24_predict(name, repo, tasks):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import pred, numpy as np
    package("larq_compute_engine", "larq_compute_engine.tflite", "larq_compute_engine.tflite.python"); base = load(repo, "larq_compute_engine/tflite/python/interpreter_base.py", "larq_compute_engine.tflite.python.interpreter_base"); top = load(repo, "larq_compute_engine/tflite/python/interpreter.py", "larq_compute_engine.tflite.python.interpreter"); out = []; sys.stderr = open(os.devnull, "w")
    for t in tasks:
        s = t["spec"]
        try:
            if t["config"]["mode"] == "options":
                got = []; w = types.ModuleType("larq_compute_engine.tflite.python.interpreter_wrapper_lite"); w.LiteInterpreter = lambda *a: got.append([x.decode() if isinstance(x, bytes) else x for x in a]); sys.modules[w.__name__] = w; sys.modules["larq_compute_engine.tflite.python"].interpreter_wrapper_lite = w
                top.Interpreter(b"model", num_threads=s["threads"], use_reference_bconv=s["ref"], use_indirect_bgemm=s["ind"], use_xnnpack=s["xnn"]); top.Interpreter(b"other"); top.Interpreter(b"third", s["threads"], s["ref"], s["ind"], s["xnn"]); out.append(dict(res=got, err=None))
            else: out.append(dict(res=pred.run(base.InterpreterBase, s, np.float64, lambda x: int(x)), err=None))
        except RuntimeError as e: out.append(dict(res=None, err=str(e)))
        except Exception as e: out.append(dict(res=None, err=None, escaped="no %s escapes: %s" % (type(e).__name__, str(e)[:80])))
    return out
def p25_convert(name, repo, tasks):
    import warnings, tensorflow as tf; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import world; warnings.simplefilter("ignore"); W = [None]
    from tensorflow.python.eager import def_function; from tensorflow.python.framework import convert_to_constants; from tensorflow.python.keras.saving import saving_utils; from tensorflow.python.saved_model import loader_impl
    def_function.Function = world.Fake; convert_to_constants.convert_variables_to_constants_v2 = lambda *a, **k: W[0].constants(*a, **k); saving_utils.model_input_signature = lambda *a, **k: W[0].input_signature(*a, **k); saving_utils.trace_model_call = lambda *a, **k: W[0].trace(*a, **k); loader_impl.parse_saved_model_with_debug_info = lambda d: W[0].parse(d); tf.executing_eagerly = lambda: W[0].s["eager"]
    package("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python")
    def mod(n, **k):
        m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m
    mod("larq_compute_engine.mlir._tf_tfl_flatbuffer", convert_graphdef_to_tflite_flatbuffer=lambda *a: W[0].graphdef_native(*a), convert_saved_model_to_tflite_flatbuffer=lambda *a: W[0].saved_native(*a)); mod("larq_compute_engine.mlir.python.util", modify_integer_quantized_model_io_type=lambda *a, **k: W[0].modify(*a, **k))
    conv = load(repo, "larq_compute_engine/mlir/python/converter.py", "larq_compute_engine.mlir.python.converter"); out = []; pack = None
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p25_convert.py")).read(); i = src.index("def pack("); ns = dict(os=os); exec(src[i:src.index("def run(")], ns); pack = ns["pack"]
    for t in tasks:
        W[0] = w = world.World(t["spec"], lambda e: tf.as_dtype(e), tf.float32)
        try: r = pack(*world.run(w, conv, tf.keras.Model)); r = json.loads(json.dumps(r, default=lambda b: b.decode() if isinstance(b, bytes) else str(b))); out.append(dict(res=r, err=None))
        except Exception as e: out.append(dict(res=None, err=None, escaped="no %s escapes: %s" % (type(e).__name__, str(e)[:80])))
    return out
if __name__ == "__main__":
    name, repo = sys.argv[1:3]; t = json.load(sys.stdin); f = {"p22_io": p_graph, "p23_strip": p_graph}.get(name) or globals()[name]; print(json.dumps(f(name, repo, t)))
