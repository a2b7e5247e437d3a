"""P24: prediction feeds and collects every sample in order; the interpreter passes its options on."""
import os, types, json
from graph import *
import pred
FILE = "larq_compute_engine/tflite/python/interpreter_base.py"
ISH = [[1], [0], [2, 1], [1, 1], [3, 0, 1]]; OSH = [[1], [0], [0, 2], [1, 1, 3]]
def configs(tier):
    for b in range(len(pred.BAD)): yield dict(mode="bad", bad=b)
    yield dict(mode="options")
    for k in range(len(pred.KINDS)):
        for i in range(len(ISH)):
            if len(ISH[i]) > 1 and k in (0, 2): continue
            for o in range(len(OSH)):
                for n in range(1, 6 if tier else 4):
                    for w in (0, 1):
                        if w and (n != 2 or i > 2): continue
                        yield dict(mode="predict", kind=k, ish=i, osh=o, samples=n, wrong=w)
def spec(c):
    if c["mode"] == "options": return dict(threads=sym("num_threads", -1, 1000), ref=symbool("use_reference_bconv"), ind=symbool("use_indirect_bgemm"), xnn=symbool("use_xnnpack"), native="options")
    if c["mode"] == "bad": return dict(bad=c["bad"], ni=1, ishapes=[0], oshapes=[0], samples=1, values=[], kind=0, verbose=0)
    ish, osh = ISH[c["ish"]], OSH[c["osh"]]; V = lambda n: sym(n, -10**6, 10**6)
    return dict(bad=None, ni=len(ish) + c["wrong"], ishapes=ish, oshapes=osh, samples=c["samples"], kind=c["kind"], verbose=sym("verbose", -1, 2), values=[[[V("v%d_%d_%d" % (i, k, e)) for e in range(pred.size(s))] for k, s in enumerate(ish)] for i in range(c["samples"])])
def setup(repo):
    tq = types.ModuleType("tqdm"); tq.tqdm = lambda x, *a, **k: x; base = load(os.path.join(repo, FILE), "larq_compute_engine.tflite.python.interpreter_base", {"tqdm": tq})
    ext = {"larq_compute_engine.tflite.python.interpreter_base": base}; top = load(os.path.join(repo, "larq_compute_engine/tflite/python/interpreter.py"), "larq_compute_engine.tflite.python.interpreter", ext); return base, top
def options(top, s):
    """Which arguments reach the native interpreter."""
    import sys; got = []; w = types.ModuleType("w"); w.LiteInterpreter = lambda *a: (got.append(a), a)[0] and pred.Interp(dict(oshapes=[0]), None); names = ["larq_compute_engine", "larq_compute_engine.tflite", "larq_compute_engine.tflite.python"]; old = {k: sys.modules.get(k) for k in names + [names[-1] + ".interpreter_wrapper_lite"]}
    for n in names: sys.modules[n] = types.ModuleType(n); sys.modules[n].__path__ = []
    sys.modules[names[-1]].interpreter_wrapper_lite = w; sys.modules[names[-1] + ".interpreter_wrapper_lite"] = w
    try:
        top.Interpreter(b"model", num_threads=s["threads"], use_reference_bconv=s["ref"], use_indirect_bgemm=s["ind"], use_xnnpack=s["xnn"]); top.Interpreter(b"other"); top.Interpreter(b"third", s["threads"], s["ref"], s["ind"], s["xnn"])
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return [[x.decode() if isinstance(x, bytes) else x for x in a] for a in got]
def run(base, top, c, s):
    if c["mode"] == "options": return options(top, s), None
    try: return pred.run(base.InterpreterBase, s), None
    except RuntimeError as e: return None, e
def oracle(c, s, pre, r, err):
    if c["mode"] == "options":
        check(len(r) == 3 and all(len(a) == 5 for a in r), "the native interpreter takes five arguments"); B = lambda a, b: T(a) == T(b)
        for a, m in ((r[0], "model"), (r[2], "third")): CHECK(AND(a[0] == m, B(a[1], s["threads"]), B(a[2], s["ref"]), B(a[3], s["ind"]), B(a[4], s["xnn"])), "options reach the native interpreter unchanged")
        CHECK(AND(r[1][0] == "other", *[B(x, y) for x, y in zip(r[1][1:], (1, False, False, False))]), "defaults are one thread and no special kernels"); cover("options"); return
    if c["mode"] == "bad": check(bool(r["rejected"]) and r["calls"] == 0, "unsupported containers are rejected"); check(r["props"], "properties are those of the native interpreter"); cover("unsupported"); return
    if c["wrong"]: check(err is not None, "a wrong number of inputs raises an error"); cover("wrong number of inputs"); return
    check(err is None, "matching inputs are accepted"); check(r["props"], "properties are those of the native interpreter"); ni, no, n = len(s["ishapes"]), len(s["oshapes"]), s["samples"]
    check(len(r["calls"]) == n and all(len(x) == ni for x in r["calls"]), "one call per sample with all inputs")
    for i, call in enumerate(r["calls"]):
        for k, (sh, v) in enumerate(call):
            check(tuple(sh) == (1,) + pred.SHAPES[s["ishapes"][k]] and len(v) == len(s["values"][i][k]), "every sample has a batch dimension of one")
            CHECK(AND(*[EQ(x, y) for x, y in zip(v, s["values"][i][k])]), "samples are fed in order to the right input")
    check(bool(r["single"]) == (no == 1) and len(r["outputs"]) == no, "one array per output"); flat = [[x for k in range(ni) for x in s["values"][i][k]] for i in range(n)]
    for j, (sh, v) in enumerate(r["outputs"]):
        z = pred.size(s["oshapes"][j]); check(tuple(sh) == (n,) + pred.SHAPES[s["oshapes"][j]] and len(v) == n * z, "one row per sample")
        CHECK(AND(*[EQ(v[i * z + e], pred.F(flat[i], j, e)) for i in range(n) for e in range(z)]), "outputs are stacked in order")
    cover("predicted")
def canon(r): return r
COVERS = ["predicted", "unsupported", "wrong number of inputs", "options"]
