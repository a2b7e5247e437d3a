"""python3-vt main.py MODULE tier out.json deadline: explores all configurations of a Python check."""
import sys, os, json, time, importlib, subprocess, random, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, graph
REPO = os.environ.get("LCE_REPO", "/repo")
def setup(h):
    if hasattr(h, "setup"): return h.setup(REPO)
    ext = graph.modules(); return graph.load(os.path.join(REPO, h.FILE), h.FILE[:-3].replace("/", "."), ext), ext
def one(a):
    h, c, deadline = importlib.import_module(a[0]), a[1], a[2]; global CACHE
    try: mod, ext = CACHE
    except NameError: CACHE = mod, ext = setup(h)
    def base(): s = h.spec(c); return s, (h.prepare(c, s) if hasattr(h, "prepare") else None)
    def fn(b):
        s, pre = b
        try: res, err = h.run(mod, ext, c, s)
        except (core.Undecided, core.Stop, core.Violation): raise
        except Exception as e:
            if core.P().check(): raise core.Violation("no %s escapes: %s" % (type(e).__name__, str(e)[:80]), core.P().solver.model())
            raise core.Stop()
        core.P().batch = []; h.oracle(c, s, pre, res, err); core.flush()
    FN = set(); RUNS = []; path = os.path.join(REPO, h.FILE)
    def prof(fr, ev, arg):
        if ev == "call" and fr.f_code.co_filename == path: FN.add(fr.f_code.co_name)
    fn0 = fn
    def fn(b):
        RUNS.append(1)
        if len(RUNS) < 12: sys.setprofile(prof)
        try: return fn0(b)
        finally: sys.setprofile(None)
    try: r = core.explore(base, fn, deadline)
    except Exception as e: r = dict(stats=core.new_stats(), covers=set(), labels=set(), violations=[], undecided=["internal: " + traceback.format_exc()[-600:]], models=[])
    r["config"] = c; r["functions"] = sorted(FN); return r
def plain(x):
    try: return int(x)
    except Exception: return str(x)
def conc(h, mod, ext, c, v, native=None):
    """Concrete run of one model: (result, error text, violated label)."""
    box = {}
    def fn():
        s = h.spec(c); pre = h.prepare(c, s) if hasattr(h, "prepare") else None
        if native is None: res, err = h.run(mod, ext, c, s)
        else: res, err = native["res"], native["err"]
        if native is not None and native.get("escaped"): raise core.Violation(native["escaped"], None)
        if hasattr(h, "canon"): res = h.canon(res)
        box["r"] = json.loads(json.dumps(res, default=plain)), (err is not None)
        core.P().batch = None; h.oracle(c, s, pre, res, err)
    _, label = core.concrete(v, fn); return box.get("r"), label
def natives(name, h, items):
    """Runs the real module on real libraries for (config, values) pairs."""
    specs = []
    for c, v in items: r, _ = core.concrete(v, lambda: h.spec(c)); specs.append(dict(config=c, spec=r, values=v))
    p = subprocess.run(["/opt/lce/venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "native.py"), name, REPO], input=json.dumps(specs, default=lambda b: {"bytes": b.decode()} if isinstance(b, bytes) else str(b)), capture_output=True, text=True, timeout=300)
    try: return json.loads(p.stdout.splitlines()[-1])
    except Exception: raise Exception("native run failed: " + p.stderr[-800:])
if __name__ == "__main__" and sys.argv[1] == "-replay":
    t = json.load(open(sys.argv[2])); h = importlib.import_module(t["module"]); r = natives(t["module"], h, [(t["config"], t["values"])])[0]; print(conc(h, None, None, t["config"], t["values"], r)[1] or "holds"); sys.exit()
if __name__ == "__main__":
    name, tier, out, limit = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]); h = importlib.import_module(name)
    cf = list(h.configs(tier)); t0 = time.time(); tot = core.new_stats(); R = dict(configs=len(cf), covers=set(), labels=set(), functions=set(), violations=[], undecided=[], models=[])
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(one, [(name, c, t0 + limit) for c in cf], chunksize=1):
            for k, v in r["stats"].items(): tot[k] += v
            R["functions"] |= set(r["functions"]); R["covers"] |= r["covers"]; R["labels"] |= r["labels"]; R["undecided"] += [(u, r["config"]) for u in r["undecided"]]
            R["violations"] += [(l, r["config"], v) for l, v in r["violations"]]; R["models"] += [(r["config"], m) for m in r["models"]]
            if os.environ.get("LCE_VERBOSE"): print(r["config"], r["stats"]["paths"], r["stats"]["queries"], round(r["stats"]["solver_s"], 1), flush=True)
            if len(R["violations"]) >= 30: pool.terminate(); break
    # counterexamples are confirmed, and samples of the explored paths validated, on the real module with the real libraries
    random.Random(int(os.environ.get("VERIF_SEED", "1"))).shuffle(R["models"]); R["models"] = R["models"][:24]; seen = {}; V = []
    for l, c, v in R["violations"]:
        if seen.setdefault(l, 0) < 2: seen[l] += 1; V.append((l, c, v))
    R["violations"] = []; R["unconfirmed"] = []; R["mismatch"] = []; R["traces"] = 0
    try:
        mod, ext = setup(h); N = natives(name, h, [(c, v) for _, c, v in V] + [tuple(m) for m in R["models"]])
        for (l, c, v), n in zip(V, N):
            got = conc(h, mod, ext, c, v, n)[1]; R["violations" if got else "unconfirmed"].append((got or l, c, v))
        for (c, v), n in zip(R["models"], N[len(V):]):
            a, la = conc(h, mod, ext, c, v); b, lb = conc(h, mod, ext, c, v, n)
            if a == b and la == lb: R["traces"] += 1
            else: R["mismatch"].append((c, v, str((a, la))[:400], str((b, lb))[:400]))
    except Exception as e: R["mismatch"].append(("native validation failed", traceback.format_exc()[-800:])); R["unconfirmed"] += V if not R["violations"] else []
    R["file"], R["need"] = h.FILE, h.COVERS
    R["covers"], R["labels"], R["functions"], R["stats"], R["seconds"] = sorted(R["covers"]), sorted(R["labels"]), sorted(R["functions"]), tot, time.time() - t0; json.dump(R, open(out, "w"))
