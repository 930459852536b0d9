#!/usr/bin/env python3
"""newbug.py ID PROPERTY 'needs' 'what' : turns /repo's working-tree diff into seeded/ID and undoes it.
demo.c or demo.py is read from stdin (first line '#py' or '//c')."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CSH = '''#!/bin/bash
# builds and runs demo.c against /repo's sources
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=$(ls /repo/xcsf/*.c | grep -v '/main\\.c$')
(cd "$T" && for f in $S; do echo $f; done | xargs -P 8 -I{} gcc -w -std=gnu11 -O1 -fopenmp -DPARALLEL -DPARALLEL_MATCH -DPARALLEL_PRED -DPARALLEL_UPDATE -DDSFMT_MEXP=19937 -I/opt/vp/cmake/include -I/repo/xcsf -c {} ) || exit 2
gcc -w -std=gnu11 -O1 -fopenmp -DDSFMT_MEXP=19937 -I/opt/vp/cmake/include -I/repo/xcsf "$D/demo.c" "$T"/*.o -ldSFMT-19937 -lcjson -lm -o "$T/demo" || exit 2
cd "$T" && OMP_NUM_THREADS=2 timeout 120 ./demo
'''
PSH = '''#!/bin/bash
# runs demo.py against the module /opt/vp/build.sh built from /repo
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build/repo timeout 120 /opt/vp/venv/bin/python "$D/demo.py"
'''
id, prop, needs, what = sys.argv[1:5]
demo = sys.stdin.read()
d = os.path.join(V, "seeded", id)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
py = demo.startswith("#py")
open(d + ("/demo.py" if py else "/demo.c"), "w").write(demo)
open(d + "/demo.sh", "w").write(PSH if py else CSH)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
print("seeded", id)
