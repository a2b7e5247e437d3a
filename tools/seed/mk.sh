#!/bin/bash
# mk.sh ID HARNESS "flags" "args": builds /verif/seeded/ID from the working-tree diff of /repo plus a demo made of a harness with concrete inputs; verifies it; restores /repo.
# env: PROP NEEDS BREAKS [RUNS] [TIER]
id=$1; h=$2; fl=$3; args=$4; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
git -C /repo checkout -q -- .
cp -r /verif/stubs $d/; rm -f $d/stubs/rt_sym.h; cp /verif/tools/seed/demo_rt.cc $d/; cp /verif/harness/{lce.h,tfl_env.h,conv_env.h,$h} $d/
cat > $d/demo.sh <<X
#!/bin/bash
# Compiles the real kernels with small stand-ins for TFLite/ruy and runs concrete inputs.
d=\$(cd "\$(dirname "\$0")" && pwd); t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
clang++ -std=c++17 -O1 -w -fsanitize=address -fno-exceptions -I"\$d/stubs/inc" -I"\$d/stubs" -I"\$d" -I"\$PWD" $fl "\$d/$h" "\$d/demo_rt.cc" -o "\$t/demo" || exit 99
export ASAN_OPTIONS=detect_leaks=0 RUNS=${RUNS:-300} TIER=${TIER:-0}
"\$t/demo" $args
X
chmod +x $d/demo.sh
python3 - <<P
import json,os
json.dump({"property": os.environ["PROP"], "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open("$d/meta.json","w"), indent=1)
P
cd /repo; if bash $d/demo.sh >/tmp/demo.o 2>&1; then echo "clean ok"; else echo "CLEAN FAILS"; tail -3 /tmp/demo.o; fi
git apply $d/patch.diff; if bash $d/demo.sh >/tmp/demo.o 2>&1; then echo "PATCHED PASSES (bad)"; else echo "patched fails: $(tail -2 /tmp/demo.o | tr '\n' ' ')"; fi
cd /verif; for p in ${CHECKS:-$PROP}; do timeout 900 python3 run.py $p quick > /tmp/chk.o 2>&1; echo "check $p rc=$? $(grep -m1 VIOLATION /tmp/chk.o)"; done
git -C /repo checkout -q -- .
