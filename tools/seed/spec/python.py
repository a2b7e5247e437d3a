GRAPH = '''import os, sys, types, importlib.util
import numpy as np, flatbuffers, tensorflow as tf
from tensorflow.lite.python import schema_py_generated as S
for n in ("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python"):
    q = types.ModuleType(n); q.__path__ = []; sys.modules[n] = q
sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S; sys.modules["larq_compute_engine.mlir.python"].tflite_schema = S
def load(f, name):
    s = importlib.util.spec_from_file_location(name, os.path.join(os.getcwd(), f)); m = importlib.util.module_from_spec(s); sys.modules[name] = m; s.loader.exec_module(m); return m
util = load("larq_compute_engine/mlir/python/util.py", "larq_compute_engine.mlir.python.util")
F32, I8, I32 = 0, 9, 2; Q, D = S.BuiltinOperator.QUANTIZE, S.BuiltinOperator.DEQUANTIZE
def build(codes, subgraphs, sigs=None):
    m = S.ModelT(); m.version = 3; m.buffers = [S.BufferT()]; m.operatorCodes = []; m.subgraphs = []
    for b, c in codes:
        o = S.OperatorCodeT(); o.builtinCode = b; o.deprecatedBuiltinCode = min(b, 127); o.customCode = c; o.version = 1; m.operatorCodes.append(o)
    for i, g in enumerate(subgraphs):
        x = S.SubGraphT(); x.name = "g%d" % i; x.tensors = []; x.operators = []; x.inputs = g["inputs"]; x.outputs = g["outputs"]
        for j, t in enumerate(g["tensors"]): u = S.TensorT(); u.name = "s%dt%d" % (i, j); u.type = t; u.shape = [1]; u.buffer = 0; x.tensors.append(u)
        for k, o in enumerate(g["ops"]): u = S.OperatorT(); u.opcodeIndex = o[0]; u.inputs = o[1]; u.outputs = o[2]; x.operators.append(u)
        m.subgraphs.append(x)
    if sigs is not None:
        m.signatureDefs = []
        for j, g in enumerate(sigs):
            d = S.SignatureDefT(); d.signatureKey = "k%d" % j; d.subgraphIndex = g["sub"]; d.inputs = []; d.outputs = []
            for l, n, q in ((g["ins"], "i", d.inputs), (g["outs"], "o", d.outputs)):
                for z, t in enumerate(l): e = S.TensorMapT(); e.name = n + str(z); e.tensorIndex = t; q.append(e)
            m.signatureDefs.append(d)
    b = flatbuffers.Builder(1024); b.Finish(m.Pack(b), file_identifier=b"TFL3"); return bytes(b.Output())
dec = lambda x: x.decode() if isinstance(x, bytes) else x
def names(model, i=0):
    m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(model, 0)); g = m.subgraphs[i]; nm = lambda l: [dec(g.tensors[t].name) if t >= 0 else None for t in l]
    sig = [([dec(g2.tensors[x.tensorIndex].name) for x in d.inputs], [dec(g2.tensors[x.tensorIndex].name) for x in d.outputs]) for d in m.signatureDefs or [] for g2 in [m.subgraphs[d.subgraphIndex]]]
    return dict(inputs=nm(g.inputs), outputs=nm(g.outputs), ops=[(o.opcodeIndex, nm(o.inputs), nm(o.outputs)) for o in g.operators], tensors=[dec(t.name) for t in g.tensors], sigs=sig)
def expect(got, want):
    for k, v in want.items():
        if got[k] != v: print("FAILED", k, got[k], "expected", v); sys.exit(1)
'''
PRED = '''import os, sys, types, importlib.util
import numpy as np
for n in ("larq_compute_engine", "larq_compute_engine.tflite", "larq_compute_engine.tflite.python"):
    q = types.ModuleType(n); q.__path__ = []; sys.modules[n] = q
def load(f, name):
    s = importlib.util.spec_from_file_location(name, os.path.join(os.getcwd(), f)); m = importlib.util.module_from_spec(s); sys.modules[name] = m; s.loader.exec_module(m); return m
base = load("larq_compute_engine/tflite/python/interpreter_base.py", "larq_compute_engine.tflite.python.interpreter_base")
'''
U = "mlir/python/util.py"
def p(**k): body = k.pop("demo"); return dict(k, kind="python", files={"demo.py": body})
S = [
 p(id="repeated-model-output", prop="P22", file=U, edits=[(U, "            subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]\n            for signature_def in _get_signature_defs(model, subgraph):\n                for i in range(len(signature_def.outputs)):\n                    if signature_def.outputs[i].tensorIndex == op.outputs[0]:\n                        signature_def.outputs[i].tensorIndex = op.inputs[0]\n            # Keep the operator if the rest of the model needs its result\n            if _is_used_elsewhere(subgraph, op.outputs[0], op):\n                continue\n            remove_tensors_idxs.add(op.outputs[0])\n            operators.remove(op)\n\n    # Remove tensors marked for deletion.\n    _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)\n\n    # Convert the model",
   "            subgraph.outputs[list(subgraph.outputs).index(op.outputs[0])] = op.inputs[0]\n            for signature_def in _get_signature_defs(model, subgraph):\n                for i in range(len(signature_def.outputs)):\n                    if signature_def.outputs[i].tensorIndex == op.outputs[0]:\n                        signature_def.outputs[i].tensorIndex = op.inputs[0]\n            # Keep the operator if the rest of the model needs its result\n            if _is_used_elsewhere(subgraph, op.outputs[0], op):\n                continue\n            remove_tensors_idxs.add(op.outputs[0])\n            operators.remove(op)\n\n    # Remove tensors marked for deletion.\n    _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)\n\n    # Convert the model")],
  demo=GRAPH + '''
m = build([(Q, None), (D, None), (0, None)], [dict(tensors=[F32, I8, I8, F32], inputs=[0], outputs=[3, 3], ops=[(0, [0], [1]), (2, [1], [2]), (1, [2], [3])])])
o = util.modify_integer_quantized_model_io_type(m, inference_input_type=tf.float32, inference_output_type=tf.int8)
expect(names(o), dict(outputs=["s0t2", "s0t2"], inputs=["s0t0"], tensors=["s0t0", "s0t1", "s0t2"]))
''', needs="a model that lists the same dequantized tensor twice among its outputs, asked for int8 output", breaks="the second output refers to a tensor that no longer exists"),
 p(id="strip-first-subgraph", prop="P23", file=U, old="    for subgraph in model.subgraphs:\n        _strip_lcedequantize_ops_subgraph(model, subgraph)", new="    _strip_lcedequantize_ops_subgraph(model, model.subgraphs[0])",
  demo=GRAPH + '''
g = lambda: dict(tensors=[I32, I32, F32], inputs=[0], outputs=[2], ops=[(1, [0], [1]), (0, [1], [2])])
m = build([(S.BuiltinOperator.CUSTOM, b"LceDequantize"), (0, None)], [g(), g()])
o = util.strip_lcedequantize_ops(m)
for i in (0, 1): expect(names(o, i), dict(outputs=["s%dt1" % i], ops=[(1, ["s%dt0" % i], ["s%dt1" % i])], tensors=["s%dt0" % i, "s%dt1" % i]))
''', needs="a model with more than one subgraph", breaks="the other subgraphs keep their trailing dequantize operators"),
 p(id="renumber-signature-outputs", prop="P22", file=U, old="            _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)\n", new="",
  demo=GRAPH + '''
m = build([(Q, None), (D, None), (0, None)], [dict(tensors=[F32, I8, F32, I8], inputs=[0], outputs=[2], ops=[(0, [0], [1]), (2, [1], [3]), (1, [3], [2])])], [dict(sub=0, ins=[0], outs=[2])])
o = util.modify_integer_quantized_model_io_type(m, inference_input_type=tf.int8, inference_output_type=tf.float32)
expect(names(o), dict(outputs=["s0t2"], inputs=["s0t1"], sigs=[(["s0t1"], ["s0t2"])]))
''', needs="a signature whose output tensor is numbered after a removed input tensor", breaks="the signature names another tensor than the model's output"),
 p(id="predict-output-list", prop="P24", file="tflite/python/interpreter_base.py", old="if len(self.output_shapes) == 1:", new="if len(outputs[0]) == 1 or len(self.output_shapes) == 1:",
  demo=PRED + '''
class N:
    output_shapes = [(1, 2), (1, 2)]
    def predict(self, inputs): return [inputs[0] * 2, inputs[0] + 1]
x = np.arange(2.0).reshape(1, 2); r = base.InterpreterBase(N()).predict(x)
if not (isinstance(r, list) and len(r) == 2 and (r[0] == x * 2).all() and (r[1] == x + 1).all()): print("FAILED", r); sys.exit(1)
x = np.arange(6.0).reshape(3, 2); r = base.InterpreterBase(N()).predict(x); assert len(r) == 2 and (r[1] == x + 1).all()
''', needs="a model with several outputs and exactly one sample", breaks="only the first output is returned"),
 p(id="generator-of-tuples", prop="P24", file="tflite/python/interpreter_base.py", old="            if isinstance(inputs, np.ndarray):\n                yield [np.expand_dims(inputs, axis=0)]\n            else:", new="            if not isinstance(inputs, list):\n                yield [np.expand_dims(inputs, axis=0)]\n            else:",
  demo=PRED + '''
class N:
    output_shapes = [(1, 2)]
    def predict(self, inputs):
        if len(inputs) != 2: print("FAILED", inputs); sys.exit(1)
        return [inputs[0] + 10 * inputs[1]]
x, y = np.arange(4.0).reshape(2, 2), np.ones((2, 2)); r = base.InterpreterBase(N()).predict((a, b) for a, b in zip(x, y))
if not (r == x + 10).all(): print("FAILED", r); sys.exit(1)
''', needs="a generator that yields tuples of inputs", breaks="the inputs of a sample are stacked into one array"),
]
def CONV(body): return '''import os, sys, types, importlib.util, warnings
os.environ["TF_USE_LEGACY_KERAS"] = "1"
import tensorflow as tf
warnings.simplefilter("ignore")
calls = []
for n in ("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python"):
    q = types.ModuleType(n); q.__path__ = []; sys.modules[n] = q
def mod(n, **k):
    q = types.ModuleType(n); q.__dict__.update(k); sys.modules[n] = q; return q
def fb(name):
    def f(*a): calls.append((name, a)); return b"flat"
    return f
mod("larq_compute_engine.mlir._tf_tfl_flatbuffer", convert_graphdef_to_tflite_flatbuffer=fb("graph"), convert_saved_model_to_tflite_flatbuffer=fb("saved"))
mod("larq_compute_engine.mlir.python.util", modify_integer_quantized_model_io_type=lambda m, **k: calls.append(("io", k)) or b"io")
from tensorflow.python.saved_model import loader_impl
class PB: saved_model_schema_version = 1
loader_impl.parse_saved_model_with_debug_info = lambda d: (PB(), None)
s = importlib.util.spec_from_file_location("larq_compute_engine.mlir.python.converter", os.path.join(os.getcwd(), "larq_compute_engine/mlir/python/converter.py")); c = importlib.util.module_from_spec(s); s.loader.exec_module(c)
''' + body
C = "mlir/python/converter.py"
S += [
 p(id="int8-output-only", prop="P25", edits=[(C, "        experimental_default_int8_range,\n    )\n\n    if inference_input_type != tf.float32 or inference_output_type != tf.float32:\n        tflite_buffer = modify_integer_quantized_model_io_type(\n            tflite_buffer,\n            inference_input_type=inference_input_type,\n            inference_output_type=inference_output_type,\n        )\n\n    return tflite_buffer\n\n\ndef", "        experimental_default_int8_range,\n    )\n\n    if inference_input_type != tf.float32:\n        tflite_buffer = modify_integer_quantized_model_io_type(\n            tflite_buffer,\n            inference_input_type=inference_input_type,\n            inference_output_type=inference_output_type,\n        )\n\n    return tflite_buffer\n\n\ndef")],
  demo=CONV('''
r = c.convert_saved_model("dir", inference_input_type=tf.float32, inference_output_type=tf.int8)
if r != b"io" or calls[-1] != ("io", dict(inference_input_type=tf.float32, inference_output_type=tf.int8)): print("FAILED", r, calls); sys.exit(1)
'''), needs="a saved model converted with float input and int8 output", breaks="the requested output type is ignored"),
 p(id="zero-range-not-quantized", prop="P25", file=C, old="        or experimental_default_int8_range is not None\n", new="        or any(experimental_default_int8_range or ())\n", demo=CONV('''
def bad(*a, **k): raise RuntimeError("no saved model")
tf.keras.Model.save = bad
m = tf.keras.Sequential([tf.keras.layers.Dense(2, input_shape=(3,))])
for rng, want in (((-1.0, 1.0), True), ((0.0, 0.0), True), (None, False)):
    calls.clear(); c.convert_keras_model(m, experimental_default_int8_range=rng)
    if calls[-1][0] != "graph" or bool(calls[-1][1][5]) != want: print("FAILED", rng, calls); sys.exit(1)
'''), needs="the graph based conversion with a default range of (0, 0)", breaks="the range is given but the conversion is told not to quantize"),
]
