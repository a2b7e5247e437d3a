"""Symbolic execution of Python code with solver-backed proxy values.

A program under test runs in CPython; integers, booleans, strings and enum-like objects may be proxies
around Z3 terms.  Whenever Python needs a truth value or a concrete index, the path condition is asked:
one possible value -> continue, several -> the run is forked (re-executed with a decision prefix)."""
import builtins, operator, time, z3

class Undecided(BaseException): pass
class Stop(BaseException): pass            # infeasible or pruned path
class Violation(BaseException):
    def __init__(self, label, model): self.label, self.model = label, model

class Path:
    """State of the current run."""
    cur = None
    def __init__(self, prefix, stats, solver):
        self.prefix, self.pos, self.taken, self.fork = list(prefix), 0, [], []
        self.solver, self.stats, self.syms, self.covers, self.batch = solver, stats, {}, set(), None; self.model = None; self.given = None
    def check(self, *extra, keep=True):
        t = time.time(); r = self.solver.check(*extra); self.stats["queries"] += 1; self.stats["solver_s"] += time.time() - t
        self.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unknown: raise Undecided("solver unknown")
        if r == z3.sat and keep: self.model = self.solver.model()
        return r == z3.sat
    def add(self, c):
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c)): self.model = None
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix): d = self.prefix[self.pos]
        else:
            # the last model of the path condition shows that one side is feasible
            v = self.model.eval(c) if self.model is not None else None
            if v is not None and z3.is_true(v): t, f = True, self.check(z3.Not(c), keep=False)
            elif v is not None and z3.is_false(v): f, t = True, self.check(c)
            else:
                t = self.check(c); f = self.check(z3.Not(c), keep=False) if t else True
            if t and f: self.fork.append(self.taken + [False]); d = True; self.stats["forks"] += 1
            else: d = t
        self.pos += 1; self.taken.append(d); self.add(c if d else z3.Not(c)); return d
    def concretize(self, e):
        """Fork over all values of an integer term."""
        e = z3.simplify(e)
        while not z3.is_int_value(e):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if isinstance(v, tuple): self.pos += 1; self.taken.append(v)
                else: raise Undecided("replayed decisions diverge")
                if v[0]: self.add(e == v[1]); return v[1]
                self.add(e != v[1]); continue
            if not self.check(): raise Stop()
            v = self.solver.model().eval(e, model_completion=True).as_long()
            if self.check(e != v): self.fork.append(self.taken + [(False, v)]); self.stats["forks"] += 1
            self.pos += 1; self.taken.append((True, v)); self.add(e == v); return v
        return e.as_long()

def P(): return Path.cur
# strings are only compared: a symbolic string is the number of an interned literal, or of none of them
LITERALS = {}; STRINGS = set()
def intern(s): return LITERALS.setdefault(s, len(LITERALS))
intern("")
def term(x):
    if isinstance(x, (SymInt, SymBool, SymStr)): return x.e
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, str): return z3.IntVal(intern(x))
    return z3.IntVal(int(x))
def isint(x):
    if isinstance(x, SymInt): return True
    if isinstance(x, (bool, SymBool)): return False
    return isinstance(x, int) or hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype.kind in "iu"

class SymBool:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __bool__(self): return P().branch(self.e)
    def __and__(self, o): return SymBool(z3.And(self.e, term(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(z3.Or(self.e, term(o)))
    __ror__ = __or__
    def __invert__(self): return SymBool(z3.Not(self.e))
    def __eq__(self, o): return SymBool(self.e == term(o)) if isinstance(o, (bool, SymBool)) else NotImplemented
    def __ne__(self, o): return SymBool(self.e != term(o)) if isinstance(o, (bool, SymBool)) else NotImplemented
    def __hash__(self): return hash(bool(self))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return "SymBool(%s)" % z3.simplify(self.e)

def _cmp(op):
    def f(self, o): return SymBool(op(self.e, term(o))) if isint(o) else NotImplemented
    return f
def _ar(op, swap=False):
    def f(self, o):
        if not isint(o): return NotImplemented
        return mkint(op(term(o), self.e) if swap else op(self.e, term(o)))
    return f
def mkint(e):
    e = z3.simplify(e); return e.as_long() if z3.is_int_value(e) else SymInt(e)
class SymInt:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    __eq__, __ne__ = _cmp(operator.eq), _cmp(operator.ne)
    __lt__, __le__, __gt__, __ge__ = map(_cmp, (operator.lt, operator.le, operator.gt, operator.ge))
    __add__, __radd__, __sub__, __rsub__ = _ar(operator.add), _ar(operator.add), _ar(operator.sub), _ar(operator.sub, True)
    __mul__ = __rmul__ = _ar(operator.mul)
    def __neg__(self): return mkint(-self.e)
    def __index__(self): return P().concretize(self.e)
    __int__ = __index__
    def __bool__(self): return P().branch(self.e != 0)
    def __hash__(self): return hash(P().concretize(self.e))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return "SymInt(%s)" % z3.simplify(self.e)
    def __format__(self, s): return format(repr(self), s)

class SymStr:
    """String used only through comparisons (and formatting)."""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __eq__(self, o): return SymBool(self.e == term(o)) if isinstance(o, (str, SymStr)) else NotImplemented
    def __ne__(self, o): return SymBool(self.e != term(o)) if isinstance(o, (str, SymStr)) else NotImplemented
    def __bool__(self): return P().branch(self.e != intern(""))
    def __hash__(self): return 0        # only meaningful in SymDict / SymSet
    def __deepcopy__(self, memo): return self
    def __repr__(self): return "SymStr"
    __str__ = __repr__
    def lower(self): raise Undecided("string operation")
    upper = strip = lower

def same(a, b):
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else builtins.bool(r)
class SymSet:
    def __init__(self, it=()): self.l = []; self.update(it)
    def add(self, x):
        if not any(same(x, y) for y in self.l): self.l.append(x)
    def update(self, *its):
        for it in its:
            for x in list(it): self.add(x)
    def __ior__(self, o): self.update(o); return self
    def __or__(self, o): r = SymSet(self.l); r.update(o); return r
    union = __or__
    def __and__(self, o): return SymSet(x for x in self.l if x in o)
    intersection = __and__
    def __sub__(self, o): return SymSet(x for x in self.l if x not in o)
    difference = __sub__
    def discard(self, x): self.l = [y for y in self.l if not same(x, y)]
    remove = discard
    def __contains__(self, x): return any(same(x, y) for y in self.l)
    def __len__(self): return len(self.l)
    def __bool__(self): return bool(self.l)
    def __iter__(self): return iter(list(self.l))
    def __eq__(self, o): return len(self) == len(list(o)) and all(x in self for x in o)
    def issubset(self, o): return all(x in o for x in self.l)
    __le__ = issubset
    def isdisjoint(self, o): return not any(x in o for x in self.l)
    def copy(self): return SymSet(self.l)
    __hash__ = None
class SymDict:
    def __init__(self, *a, **k):
        self.l = []
        for x in a: self.update(x)
        self.update(k)
    def update(self, x):
        for k, v in (x.items() if hasattr(x, "items") else x): self[k] = v
    def __setitem__(self, k, v):
        for p in self.l:
            if same(p[0], k): p[1] = v; return
        self.l.append([k, v])
    def get(self, k, d=None):
        # all keys and values integers: one if-then-else term instead of a fork
        if isinstance(k, SymInt) and self.l and isint(d) and all(isint(p[0]) and isint(p[1]) for p in self.l):
            e = term(d)
            for p in reversed(self.l): e = z3.If(k.e == term(p[0]), term(p[1]), e)
            return mkint(e)
        for p in self.l:
            if same(p[0], k): return p[1]
        return d
    def __getitem__(self, k):
        for p in self.l:
            if same(p[0], k): return p[1]
        raise KeyError(k)
    def pop(self, k, *d):
        for i, p in enumerate(self.l):
            if same(p[0], k): del self.l[i]; return p[1]
        if d: return d[0]
        raise KeyError(k)
    def setdefault(self, k, d=None):
        if k not in self: self[k] = d
        return self[k]
    def __delitem__(self, k): self.pop(k)
    def __contains__(self, k): return any(same(p[0], k) for p in self.l)
    def __len__(self): return len(self.l)
    def __bool__(self): return bool(self.l)
    def __iter__(self): return iter([p[0] for p in self.l])
    def keys(self): return [p[0] for p in self.l]
    def values(self): return [p[1] for p in self.l]
    def items(self): return [tuple(p) for p in self.l]
    __hash__ = None

class SymList(list):
    """A list that may be indexed by a symbolic integer without forking."""
    def __getitem__(self, i):
        if isinstance(i, SymInt) and len(self) and SymBool(z3.And(i.e >= 0, i.e < len(self))): return Lazy(i, list(self))
        return list.__getitem__(self, i)
class Lazy:
    """One of several objects, selected by a symbolic index; integer attributes are merged into one term."""
    def __init__(self, i, l): self.__dict__.update(_i=i, _l=l)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        v = [getattr(o, n) for o in self._l]
        if all(isint(x) for x in v):
            e = term(v[-1])
            for k in range(len(v) - 2, -1, -1): e = z3.If(self._i.e == k, term(v[k]), e)
            return mkint(e)
        return v[int(self._i)]
    def __setattr__(self, n, v): setattr(self._l[int(self._i)], n, v)
    def __eq__(self, o): return self._l[int(self._i)] == o
    __hash__ = None

# ---- harness interface -------------------------------------------------------------------------
def sym(name, lo, hi):
    if P().given is not None: return int(P().given[name]) if lo < hi else lo
    e = z3.Int(name); P().syms[name] = e; P().add(z3.And(e >= lo, e <= hi)); return SymInt(e) if lo < hi else lo
def symbool(name):
    if P().given is not None: return bool(P().given[name])
    e = z3.Bool(name); P().syms[name] = e; return SymBool(e)
def symstr(name):
    if P().given is not None: return P().given[name]
    e = z3.Int(name); P().syms[name] = e; STRINGS.add(name); P().add(e >= 0); return SymStr(e)
def assume(c):
    e = term(c)
    if P().given is not None:
        if not z3.is_true(z3.simplify(e)): raise Stop()
        return
    P().add(e)
    if not P().check(): raise Stop()
def check(c, label):
    P().stats["asserts"] += 1; P().labels.add(label)
    if isinstance(c, bool): e = z3.BoolVal(c)
    else: e = term(c)
    e = z3.simplify(e)
    if z3.is_true(e): P().stats["folded"] += 1; return
    if z3.is_false(e) and P().check(): raise Violation(label, P().solver.model())
    if P().batch is not None: P().batch.append((label, e)); return
    if P().check(z3.Not(e)): raise Violation(label, P().solver.model())
def flush():
    """Decides all batched assertions of the path with one query."""
    b, P().batch = P().batch, None
    if b and P().check(z3.Not(z3.And(*[e for _, e in b]))):
        m = P().solver.model()
        raise Violation(next(l for l, e in b if not z3.is_true(m.eval(e, model_completion=True))), m)
def cover(label): P().covers.add(label)

def new_stats(): return dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, forks=0, paths=0, asserts=0, folded=0, pruned=0)
def explore(base, fn, deadline):
    """Runs fn(base()) on every feasible path; base (the symbolic input and its assumptions) is built once."""
    stats = new_stats(); work = [[]]; out = dict(stats=stats, covers=set(), labels=set(), violations=[], undecided=[], models=[]); solver = z3.Solver(); solver.set("timeout", 20000)
    p0 = Path([], stats, solver); p0.labels = out["labels"]; Path.cur = p0
    try: b = base()
    except Stop: stats["pruned"] += 1; return out
    if p0.taken: raise Exception("the symbolic input must not fork")
    while work:
        if time.time() > deadline: out["undecided"].append("time limit with %d paths left" % len(work)); break
        solver.push(); p = Path(work.pop(), stats, solver); p.labels, p.syms, Path.cur = out["labels"], dict(p0.syms), p
        try:
            fn(b); stats["paths"] += 1; out["covers"] |= p.covers
            if len(out["models"]) < 2 and p.check(): out["models"].append(values(p, solver.model()))
        except Stop: stats["pruned"] += 1
        except Violation as v:
            out["violations"].append((v.label, values(p, v.model)))
            if len(out["violations"]) >= 3: break
        except Undecided as u: out["undecided"].append(str(u))
        work += p.fork; solver.pop()
    Path.cur = None; return out
def concrete(given, fn):
    """Runs fn() with every symbol replaced by its value; returns (result, label of the violated assertion or None)."""
    p = Path([], new_stats(), z3.Solver()); p.labels = set(); p.given = given; Path.cur = p
    try: return fn(), None
    except Violation as v: return None, v.label
    finally: Path.cur = None
def values(p, m):
    r = {}
    for n, e in p.syms.items():
        v = m.eval(e, model_completion=True); r[n] = z3.is_true(v) if z3.is_bool(v) else next((k for k, q in LITERALS.items() if q == v.as_long()), "other%d" % v.as_long()) if n in STRINGS else v.as_long()
    return r
