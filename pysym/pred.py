"""Containers and a recording interpreter for P24; used symbolically and natively (numpy only)."""
import numpy as np
SHAPES = [(), (2,), (1, 2), (2, 1)]
KINDS = ["array", "list", "iterator of arrays", "iterator of lists", "generator of tuples", "iterator object"]
def obj(shape, flat, dtype=object):
    a = np.empty(int(np.prod(shape, dtype=int)), dtype=dtype)
    for i, x in enumerate(flat): a[i] = x
    return a.reshape(shape)
def size(shape): return int(np.prod(SHAPES[shape], dtype=int))
class It:
    def __init__(self, l): self.i = iter(l)
    def __iter__(self): return self
    def __next__(self): return next(self.i)
def container(s, dtype=object):
    v = s["values"]; n, ni = s["samples"], len(s["ishapes"]); row = lambda i, k: obj(SHAPES[s["ishapes"][k]], v[i][k], dtype); kind = KINDS[s["kind"]]
    stack = lambda k: obj((n,) + SHAPES[s["ishapes"][k]], [x for i in range(n) for x in v[i][k]], dtype)
    if kind == "array": return stack(0)
    if kind == "list": return [stack(k) for k in range(ni)]
    if kind == "iterator of arrays": return iter([row(i, 0) for i in range(n)])
    if kind == "iterator of lists": return iter([[row(i, k) for k in range(ni)] for i in range(n)])
    if kind == "generator of tuples": return (tuple(row(i, k) for k in range(ni)) for i in range(n))
    return It([[row(i, k) for k in range(ni)] if ni > 1 else row(i, 0) for i in range(n)])
def F(flat, j, e): return sum([(3 * q + 2 * j + e + 1) * x for q, x in enumerate(flat)], 1000 * j + 7 * e)
class Interp:
    """Stands for the native interpreter: records what it is given, answers with a function of it."""
    def __init__(self, s, dtype=object):
        self.s, self.calls, self.dtype = s, [], dtype; self.output_shapes = [(1,) + SHAPES[o] for o in s["oshapes"]]
        for n in ("input_types", "input_shapes", "input_scales", "input_zero_points", "output_types", "output_scales", "output_zero_points"): setattr(self, n, ["token", n])
    def predict(self, inputs):
        if not isinstance(inputs, list): raise TypeError("the native interpreter takes a list")
        if len(inputs) != self.s["ni"]: raise RuntimeError("Expected %d input tensors but got %d" % (self.s["ni"], len(inputs)))
        self.calls.append([(tuple(int(d) for d in a.shape), list(a.reshape(-1))) for a in inputs]); flat = [x for a in inputs for x in a.reshape(-1)]
        return [obj((1,) + SHAPES[o], [F(flat, j, e) for e in range(size(o))], self.dtype) for j, o in enumerate(self.s["oshapes"])]
BAD = [None, 3, (1, 2), {"a": 1}, "text", range(3)]
def run(base, s, dtype=object, conv=lambda x: x):
    it = Interp(s, dtype); b = base(it); props = all(getattr(b, n) is getattr(it, n) for n in ("input_types", "input_shapes", "input_scales", "input_zero_points", "output_types", "output_shapes", "output_scales", "output_zero_points"))
    if s["bad"] is not None:
        try: b.predict(BAD[s["bad"]])
        except ValueError: return dict(props=props, rejected=True, calls=len(it.calls))
        return dict(props=props, rejected=False, calls=len(it.calls))
    out = b.predict(container(s, dtype), s["verbose"]); single = isinstance(out, np.ndarray); l = [out] if single else list(out)
    return dict(props=props, single=single, calls=[[(sh, [conv(x) for x in v]) for sh, v in c] for c in it.calls], outputs=[(tuple(int(d) for d in a.shape), [conv(x) for x in a.reshape(-1)]) for a in l])
