#!/usr/bin/env python3
"""mk2.py SPEC.py [id...]: builds /verif/seeded/<id> for every entry of SPEC.S in scratch copies of /repo's HEAD (never touching /repo), verifies the demo on both and runs the checks.
Entry: dict(id, prop, file, old, new, kind="kernel"|"mlir"|"python", h=harness, defs="", args="", runs=300, tier=0, needs, breaks, checks=None)."""
import sys, os, shutil, subprocess, json, importlib.util, difflib, tempfile
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def archive(d): shutil.rmtree(d, ignore_errors=True); os.makedirs(d); sh("git -C /repo archive HEAD | tar x -C " + d)
DEMO_K = """#!/bin/bash
# Compiles the real kernels with small stand-ins for TFLite/ruy and runs concrete inputs.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++ -std=c++17 -O1 -w -fsanitize=address -fno-exceptions -I"$d/stubs/inc" -I"$d/stubs" -I"$d" -I"$PWD" {defs} "$d/{h}" "$d/demo_rt.cc" -o "$t/demo" || exit 99
export ASAN_OPTIONS=detect_leaks=0 RUNS={runs} TIER={tier} {env}
"$t/demo" {args}
"""
DEMO_M = """#!/bin/bash
# Compiles the real passes (and the classes generated from the .td files) with small stand-ins for MLIR and runs them on concrete graphs.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; mkdir "$t/gen"
PYTHONDONTWRITEBYTECODE=1 python3 "$d/lib/drr.py" "$t/gen" "$PWD" >/dev/null || exit 99
clang++ -std=c++17 -O1 -w -fsanitize=address -fno-exceptions -I"$d/stubs/inc" -I"$d/stubs" -I"$d" -I"$PWD" -I"$t/gen" -I/usr/lib/llvm-18/include -DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1 {defs} "$d/{h}" "$d/demo_rt.cc" -o "$t/demo" || exit 99
export ASAN_OPTIONS=detect_leaks=0 RUNS={runs} TIER={tier} {env}
"$t/demo" {args}
"""
def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    clean, pat = "/tmp/seed_clean", "/tmp/seed_pat"; archive(clean)
    for s in m.S:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        archive(pat); edits = s.get("edits") or [(s["file"], s["old"], s["new"])]; patch = ""
        for f, old, new in edits:
            rel = "larq_compute_engine/" + f; p = pat + "/" + rel; t = open(p).read()
            if t.count(old) != 1: print(s["id"], "BAD old text", t.count(old), f); break
            open(p, "w").write(t.replace(old, new))
        else:
            for rel in dict.fromkeys("larq_compute_engine/" + f for f, _, _ in edits):
                a, b = open(clean + "/" + rel).read(), open(pat + "/" + rel).read()
                patch += "diff --git a/%s b/%s\n" % (rel, rel) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + rel, "b/" + rel))
            d = V + "/seeded/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); open(d + "/patch.diff", "w").write(patch)
            if s["kind"] == "python":
                for f, text in s["files"].items(): open(d + "/" + f, "w").write(text)
                open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1\nexec %s "$d/demo.py"\n' % s.get("py", "/opt/lce/venv/bin/python"))
            else:
                shutil.copytree(V + "/stubs", d + "/stubs"); os.remove(d + "/stubs/rt_sym.h") if os.path.exists(d + "/stubs/rt_sym.h") else None
                mlir = s["kind"] == "mlir"
                if not mlir:
                    for x in ("mlir_stub.h", "mlir_tf_stub.h", "convert_stub.h", "pybind_stub.h"):
                        if os.path.exists(d + "/stubs/" + x) and s.get("slim", True): os.remove(d + "/stubs/" + x)
                    shutil.rmtree(d + "/stubs/td", ignore_errors=True)
                else: os.makedirs(d + "/lib"); shutil.copy(V + "/lib/drr.py", d + "/lib/drr.py")
                for x in ["lce.h", "tfl_env.h", "conv_env.h"] + (["mlir_env.h", "mlir_eval.h"] if mlir else []) + s.get("also", []) + [s["h"]]: shutil.copy(V + "/harness/" + x, d)
                shutil.copy(V + "/tools/seed/demo_rt.cc", d)
                open(d + "/demo.sh", "w").write((DEMO_M if mlir else DEMO_K).format(defs=s.get("defs", ""), h=s["h"], runs=s.get("runs", 300), tier=s.get("tier", 0), args=s.get("args", ""), env=s.get("env", "")))
            os.chmod(d + "/demo.sh", 0o755); json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0 = sh(["bash", d + "/demo.sh"], cwd=clean); r1 = sh(["bash", d + "/demo.sh"], cwd=pat); ap = sh("git -C /repo apply --check " + d + "/patch.diff")
            out = ["apply %s" % ("ok" if not ap.returncode else "FAILS"), "clean rc=%d%s" % (r0.returncode, "" if not r0.returncode else " !!! " + r0.stderr[-300:]), "patched rc=%d %s" % (r1.returncode, (r1.stderr + r1.stdout).strip().replace("\n", " ")[-150:])]
            for c in ([] if os.environ.get("NOCHECK") else (s.get("checks") or s["prop"]).split()):
                r = sh(["python3", V + "/run.py", c, "quick"], cwd=V, env=dict(os.environ, LCE_REPO=pat, VERIF_SEED="1")); out.append("%s:%s" % (c, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode))
            print(s["id"], *out, sep="\n    ", flush=True)
    shutil.rmtree(clean); shutil.rmtree(pat)
main()
