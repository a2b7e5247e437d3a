"""Checks of the Python sources: runs pysym/main.py and turns its result into evidence."""
import os, json, subprocess, hashlib
import driver
from driver import log, VERIF
def run(ck, c):
    budget = c["thorough_s"] if ck.tier == "thorough" else c["quick_s"]; r = ck.res; left = len(c["units"])
    native = [u for u in c["units"] if not isinstance(u, str)]
    if native: driver.build_engine(); ck.prefetch(native)
    for u in native: ck.run_unit(u, max(5.0, (budget - ck.elapsed()) / left)); left -= 1
    for u in c["units"]:
        if u in native: continue
        out = os.path.join(ck.work, u + ".json"); dl = max(5.0, (budget - ck.elapsed()) / left); left -= 1
        try: p = subprocess.run(["python3-vt", os.path.join(VERIF, "pysym", "main.py"), u, str(ck.t), out, str(dl)], capture_output=True, text=True, timeout=dl + 500); J = json.load(open(out))
        except Exception as e: r.errors.append("unit %s: %s %s" % (u, e, p.stderr[-600:] if "p" in dir() else "")); continue
        st = J["stats"]; r.tot.update(dict(configs=J["configs"], paths=st["paths"], states=st["paths"], steps=st["forks"], asserts=st["asserts"], asserts_folded=st["folded"], asserts_solver=st["asserts"] - st["folded"], queries=st["queries"], sat=st["sat"], unsat=st["unsat"], unknown=st["unknown"], solver_s=st["solver_s"]))
        r.functions.update("%s: %s" % (J["file"], f) for f in J["functions"]); r.labels.update({"%s: %s" % (u, l): 1 for l in J["labels"]}); r.covers.update({"%s: %s" % (u, l): 1 for l in J["covers"]}); r.traces_ok += J["traces"]
        for m in J["models"][:8]: r.samples.append("%s: %s" % (u, json.dumps(m)))
        internal = [x for x in J["undecided"] if x[0].startswith("internal")]; r.incon += ["%s: %s" % (u, json.dumps(x)[:300]) for x in J["undecided"] if not x[0].startswith("internal")][:60]
        for x in internal[:3]: r.errors.append("unit %s: %s" % (u, json.dumps(x)))
        for n in J["need"]:
            if n not in J["covers"] and not J["undecided"] and not J["violations"]: r.errors.append("unit %s: situation '%s' was never reached" % (u, n))
        if st["paths"] == 0 and not J["violations"]: r.errors.append("unit %s: nothing explored" % u)
        for m in J["mismatch"]: r.mismatch.append("%s: %s" % (u, json.dumps(m)[:900]))
        for kind, l in (("violations", r.viol), ("unconfirmed", r.unconf)):
            for lab, cf, v in J[kind]:
                h = hashlib.sha1((u + lab + json.dumps(v)).encode()).hexdigest()[:10]; rp = os.path.join(ck.replay_dir, "%s-%s-%s.json" % (ck.pid, u, h))
                json.dump(dict(module=u, label=lab, config=cf, values=v, how="python3-vt pysym/main.py -replay FILE"), open(rp, "w"), indent=1)
                l.append(dict(unit=u, kind="assert", label=lab, loc=J["file"], choices=dict(cf, **v), path=rp, native="reproduced" if kind == "violations" else None))
        r.units.append(dict(unit=u, harness="pysym/%s.py" % u, configurations=J["configs"], paths=st["paths"], asserts=st["asserts"], queries=st["queries"], solver_s=round(st["solver_s"], 2), wall_s=round(J["seconds"], 1), time_limit_hit=any("time limit" in x[0] for x in J["undecided"])))
    return ck.finish(bounds=c["bounds"], notes=c["notes"])
