#!/usr/bin/env python3
# ed.py FILE OLD NEW [count]: replace in /repo
import sys
p="/repo/larq_compute_engine/"+sys.argv[1]; s=open(p).read(); o,n=[x.encode().decode("unicode_escape") for x in sys.argv[2:4]]
assert s.count(o)==1,(s.count(o)); open(p,"w").write(s.replace(o,n))
