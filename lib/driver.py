#!/usr/bin/env python3
"""Shared driver: compile harness + real sources to LLVM bitcode, execute symbolically, replay, report, write evidence."""
import concurrent.futures, os, sys, json, time, glob, subprocess, hashlib, shutil, random, tempfile, fcntl
from collections import Counter
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LCE_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine", "build", "lcesym")
INC = ["-I%s/stubs/inc" % VERIF, "-I%s/stubs" % VERIF, "-I%s/harness" % VERIF, "-I%s" % REPO]
BASE = ["-std=c++17", "-fno-exceptions", "-ffp-contract=off", "-Wno-everything", "-ferror-limit=5"]
SYMFLAGS = ["-O1", "-gline-tables-only", "-fno-pic", "-fno-pie", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-mllvm", "-phi-node-folding-threshold=16", "-mllvm", "-two-entry-phi-node-folding-threshold=24", "-include", os.path.join(VERIF, "stubs", "rt_sym.h"), "-Xclang", "-no-opaque-pointers"][:-2]
UBFLAGS = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds", "-fsanitize-trap=all"]
def log(*a): print(*a, flush=True)
def build_engine():
    os.makedirs(os.path.join(VERIF, "engine", "build"), exist_ok=True)
    with open(os.path.join(VERIF, "engine", "build", ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "engine"), "build/lcesym"], capture_output=True, text=True)
        if r.returncode: log(r.stdout[-2000:], r.stderr[-3000:]); raise SystemExit(3)

class Unit:
    """One harness.  defs: extra -D flags; ub: also trap undefined behaviour; share: fraction of the time budget."""
    def __init__(self, name, src, defs=(), ub=False, share=1.0, tier=None, quick=True, params=None, flags=(), need_covers=(), native=True, jobs=8, timeout_ok=True, mlir=False):
        self.mlir = mlir
        self.name, self.src, self.defs, self.ub, self.share, self.quick, self.params, self.flags, self.need_covers, self.native, self.jobs = name, src, list(defs), ub, share, quick, dict(params or {}), list(flags), list(need_covers), native, jobs

class Result:
    def __init__(self):
        self.tot = Counter(); self.labels = Counter(); self.covers = Counter(); self.functions = set(); self.incon = []; self.viol = []; self.known = []; self.unconf = []; self.samples = []; self.traces_ok = 0; self.mismatch = []; self.units = []; self.errors = []; self.solver_max = 0.0; self.extra = {}; self.assumptions = []

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith(("#", "fixed:")):
                j = json.loads(l)
                if j["property"] == pid and j.get("status") == "open": out.append(j)
    return out
def match_known(k, v):
    m = k["match"]
    if "kind" in m and m["kind"] != v["kind"]: return False
    if "label" in m and m["label"] != v["label"]: return False
    if "unit" in m and m["unit"] != v.get("unit"): return False
    if "loc" in m and m["loc"] not in v["loc"]: return False
    for key, val in m.get("choices", {}).items():
        if v["choices"].get(key) not in (val if isinstance(val, list) else [val]): return False
    return True

def run_native(exe, rec, tier, fill, params, timeout=60):
    env = dict(os.environ, LCE_REPLAY=rec, LCE_TIER=str(tier), LCE_FILL=str(fill), ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=%d:max_malloc_fill_size=100000000:abort_on_error=0:allocator_may_return_null=1" % fill, MSAN_OPTIONS="halt_on_error=0:exit_code=99:poison_in_malloc=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
    for k, v in params.items(): env["LCE_P_" + k] = str(v)
    try: r = subprocess.run([exe], env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired: return "timeout", ""
    out = r.stdout + r.stderr
    return r.returncode, out

class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t = 1 if tier == "thorough" else 0
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time(); self.res = Result()
        self.work = tempfile.mkdtemp(prefix="lce-%s-" % pid)
        self.known = load_known(pid)
        self.replay_dir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(self.replay_dir, exist_ok=True)
        for f in glob.glob(os.path.join(self.replay_dir, pid + "-*")): os.unlink(f)
    def elapsed(self): return time.time() - self.t0

    def compile_native(self, u, san):
        if san == "msan":
            exe = os.path.join(self.work, u.name + ".msan")
            return exe, ["clang++"] + BASE + ["-O1", "-g1", "-fsanitize=memory", "-fsanitize-recover=memory"] + INC + u.flags + ["-D" + d for d in u.defs] + [os.path.join(VERIF, "harness", u.src), os.path.join(VERIF, "lib", "replay.cc"), "-o", exe]
        exe = os.path.join(self.work, u.name + "." + ("san" if san else "nat"))
        fl = ["-O1", "-g1", "-fsanitize=address"] + (["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=alignment,vptr,function,null", "-fno-sanitize-recover=undefined,float-cast-overflow"] if san else [])
        return exe, ["clang++"] + BASE + fl + INC + u.flags + ["-D" + d for d in u.defs] + [os.path.join(VERIF, "harness", u.src), os.path.join(VERIF, "lib", "replay.cc"), "-o", exe]

    def prefetch(self, units):
        """Compile every unit (bitcode and native) in the background."""
        self.pool = concurrent.futures.ThreadPoolExecutor(5); self.jobs = {}
        run = lambda cmd: subprocess.run(cmd, capture_output=True, text=True)
        if any(u.mlir for u in units):
            import drr
            gen = os.path.join(self.work, "gen")
            try: self.res.extra["patterns_generated"] = drr.generate(gen, REPO)
            except drr.GenError as e: self.res.errors.append("patterns: %s" % e)
            for u in units:
                if u.mlir and "-I" + gen not in u.flags: u.flags = u.flags + ["-I" + gen, "-I/usr/lib/llvm-18/include", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1"]
        for u in units:
            bc = os.path.join(self.work, u.name + ".bc"); self.jobs[u.name, "bc"] = self.pool.submit(run, ["clang++"] + BASE + SYMFLAGS + (UBFLAGS if u.ub else []) + INC + u.flags + ["-D" + d for d in u.defs] + [os.path.join(VERIF, "harness", u.src), "-o", bc])
            if u.native: self.jobs[u.name, "nat"] = self.pool.submit(run, self.compile_native(u, False)[1])

    def run_unit(self, u, deadline):
        r = self.res; bc = os.path.join(self.work, u.name + ".bc"); t0 = time.time()
        exe, _ = self.compile_native(u, False)
        c = self.jobs[u.name, "bc"].result(); t0 = time.time()
        if c.returncode:
            r.errors.append("unit %s does not compile: %s" % (u.name, c.stderr[-1500:])); return
        out = os.path.join(self.work, u.name)
        ec = [ENGINE, bc, "-j", str(u.jobs), "-o", out, "-t", str(deadline), "-tier", str(self.t), "-seed", str(self.seed), "-traces", "3", "-e", "harness_main"]
        for k in self.known: ec += ["-known", k["match"].get("label", "")]
        for k, v in u.params.items(): ec += ["-P", "%s=%s" % (k, v)]
        try: e = subprocess.run(ec, capture_output=True, text=True, timeout=deadline + 240, errors="replace"); erc, eerr = e.returncode, e.stderr
        except subprocess.TimeoutExpired: erc, eerr = 99, "engine timeout"; 
        traces = []; viols = []; tot = Counter(); cov = Counter(); lab = Counter(); nw = 0
        for f in sorted(glob.glob(out + ".w*.json")):
            try: j = json.load(open(f))
            except Exception as ex: r.errors.append("unit %s: unreadable engine output %s" % (u.name, ex)); continue
            nw += 1
            for k, v in j.items():
                if isinstance(v, bool): tot[k] += int(v)
                elif isinstance(v, (int, float)) and k != "solver_max_s": tot[k] += v
            r.solver_max = max(r.solver_max, j["solver_max_s"])
            cov.update(j["covers"]); lab.update(j["labels"])
            for x in j["inconclusive"]: 
                if len(r.incon) < 200: r.incon.append("%s: %s" % (u.name, x))
            r.functions.update(j["functions"]); traces += j["traces"]; viols += j["violations"]
            for s in j["samples"][:2]: 
                if len(r.samples) < 40: r.samples.append("%s: %s" % (u.name, s))
        if erc or nw < (u.jobs if u.jobs > 1 else 1): r.errors.append("unit %s: engine exit %s (%d workers reported): %s" % (u.name, erc, nw, eerr[-800:]))
        r.tot.update(tot); r.labels.update({"%s: %s" % (u.name, k): v for k, v in lab.items()}); r.covers.update({"%s: %s" % (u.name, k): v for k, v in cov.items()})
        for n in u.need_covers:
            if not cov.get(n) and not tot["deadline"]: r.errors.append("unit %s: situation '%s' was never reached" % (u.name, n))
        if tot["paths"] == 0 or (tot["asserts"] == 0 and "LCE_MEMORY_ONLY" not in u.defs):
            if not viols: r.errors.append("unit %s: nothing explored" % u.name)
        # ---- native: replay of violations, cross validation of traces
        exe_ok = False
        if u.native:
            nat = self.jobs[u.name, "nat"].result(); exe_ok = nat.returncode == 0
            if not exe_ok: r.errors.append("unit %s: native build failed: %s" % (u.name, nat.stderr[-800:]))
        san = None; msan = None; seen = Counter(); capped = Counter()
        for v in viols:
            v["unit"] = u.name; key = (v["kind"], v["label"])
            kn = [k for k in self.known if match_known(k, v)]
            key2 = key + (kn[0]["id"] if kn else "",)
            if seen[key2] >= (1 if kn else 3): capped[key2] += 1; continue
            seen[key2] += 1
            h = hashlib.sha1((u.name + v["kind"] + v["label"] + v["replay"]).encode()).hexdigest()[:10]
            rp = os.path.join(self.replay_dir, "%s-%s-%s.txt" % (self.pid, u.name, h))
            open(rp, "w").write("# unit %s (harness/%s %s)\n# %s: %s\n# at %s\n# choices %s\n%s" % (u.name, u.src, " ".join(u.defs), v["kind"], v["label"], v["loc"], json.dumps(v["choices"]), v["replay"]))
            conf = None
            if u.native:
                if san is None:
                    san, sc = self.compile_native(u, True); s = subprocess.run(sc, capture_output=True, text=True)
                    if s.returncode: san = False
                for ex in ([san] if san else []) + ([exe] if exe_ok else []):
                    for fill in (0xAA, 0, 0xFF, 0x55):
                        rc, o = run_native(ex, rp, self.t, fill, u.params)
                        if rc == 77 or (rc not in (0, 2, 3, 4) and rc != "timeout") or (rc == "timeout"):
                            line = [l for l in o.splitlines() if "ASSERT-FAIL" in l or "ERROR:" in l or "runtime error" in l]
                            conf = "rc=%s %s" % (rc, line[0][:300] if line else ""); break
                    if conf: break
                if not conf and v["kind"] in ("assert", "uninit"):  # perhaps only visible as an uninitialised value: a MemorySanitizer build, judged by the harness's own assertions only
                    if msan is None:
                        msan, sc = self.compile_native(u, "msan"); s = subprocess.run(sc, capture_output=True, text=True)
                        if s.returncode: msan = False
                    if msan:
                        rc, o = run_native(msan, rp, self.t, 0xAA, u.params); line = [l for l in o.splitlines() if "ASSERT-FAIL" in l]
                        if rc == 77 and line: conf = "rc=77 %s (MemorySanitizer build)" % line[0][:300]
            v["native"] = conf; v["path"] = rp
            with open(rp, "a") as f: f.write("# native replay: %s\n" % conf)
            if not conf and u.native: 
                if not kn: r.unconf.append(v)
            elif kn: r.known.append((kn[0], v))
            else: r.viol.append(v)
        if exe_ok:
            random.Random(self.seed).shuffle(traces)
            for i, t in enumerate(traces[:24]):
                rp = os.path.join(self.work, "trace%d.txt" % i); open(rp, "w").write(t)
                want = [l for l in t.splitlines() if l.startswith("O ")]
                rc, o = run_native(exe, rp, self.t, 0xAA, u.params)
                got = [l for l in o.splitlines() if l.startswith("O ")]
                if rc == 0 and got == want: r.traces_ok += 1
                elif rc == 77 and got == want[:len(got)] and viols: r.traces_ok += 1
                else: r.mismatch.append("%s: native rc=%s, %d/%d observations agree; %s" % (u.name, rc, sum(a == b for a, b in zip(got, want)), len(want), (o[-300:] if rc else ""))); shutil.copy(rp, os.path.join(self.replay_dir, "%s-mismatch-%d.txt" % (self.pid, i)))
        r.units.append(dict(unit=u.name, harness=u.src, defs=u.defs, ub_traps=u.ub, configurations=tot["configs"], paths=tot["paths"], asserts=tot["asserts"], queries=tot["queries"], solver_s=round(tot["solver_s"], 2), wall_s=round(time.time() - t0, 1), time_limit_hit=bool(tot["deadline"]), params=u.params))
        if os.environ.get("LCE_VERBOSE"): log(json.dumps(r.units[-1]))

    def finish(self, bounds="", notes="", technique="solver"):
        r = self.res; wall = time.time() - self.t0; tot = r.tot
        for k, v in {id(k): (k, v) for k, v in r.known}.values(): log("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, k["what"], k["id"]))
        for v in r.viol: log("  %s: %s at %s choices=%s native: %s" % (v["kind"], v["label"], v["loc"][:300], json.dumps(v["choices"]), v.get("native")))
        seen = set()
        for v in r.viol:
            k = (v["unit"], v["kind"], v["label"])
            if k in seen: continue
            seen.add(k); log("VIOLATION property=%s replay=%s" % (self.pid, v["path"]))
        for v in r.unconf[:5]: log("UNCONFIRMED (symbolic counterexample not reproduced natively): %s %s at %s replay=%s" % (v["kind"], v["label"], v["loc"][:200], v["path"]))
        for m in r.mismatch[:5]: log("ENGINE-MISMATCH:", m)
        for e in r.errors[:8]: log("ERROR:", e)
        for i in sorted(set(r.incon))[:8]: log("INCOMPLETE:", i[:300])
        cov = dict(states=int(tot["states"]), transitions=int(tot["steps"]), traces_validated_against_impl=r.traces_ok, samples=r.samples[:12] or ["none"],
                   configurations=int(tot["configs"]), paths=int(tot["paths"]), asserts_checked=int(tot["asserts"]), asserts_closed_by_rewriting=int(tot["asserts_folded"]), asserts_sent_to_solver=int(tot["asserts_solver"]),
                   solver_queries=int(tot["queries"]), solver_sat=int(tot["sat"]), solver_unsat=int(tot["unsat"]), solver_unknown=int(tot["unknown"]), solver_seconds=round(tot["solver_s"], 2), solver_slowest_query_s=round(r.solver_max, 2), fp_interval_queries=int(tot.get("interval_queries", 0)), fp_exact_queries=int(tot["fp_queries"]), fp_abstracted_queries=int(tot["uf_queries"]),
                   functions_encoded=sorted(r.functions), bounds=bounds, units=r.units, situations_reached=dict(r.covers), asserted=dict(r.labels), inconclusive=sorted(set(r.incon))[:60], exhaustive=not r.incon and not r.errors, known_findings_reproduced=sorted({k["id"] for k, _ in r.known}), unconfirmed=[v["label"] for v in r.unconf], engine_mismatches=r.mismatch[:10])
        cov.update(r.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=r.assumptions + ([notes] if notes else []), wall_s=round(wall, 2), violations=len(r.viol))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s %s: %d configurations, %d paths, %d assertions, %d solver queries (%.1f s solver), %d traces validated, %.1f s" % (self.pid, self.tier, tot["configs"], tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], r.traces_ok, wall))
        if r.viol: return 1
        if r.errors or r.unconf or r.mismatch: return 2
        return 0
