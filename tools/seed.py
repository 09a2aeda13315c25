#!/usr/bin/env python3
"""seed.py ID PROPERTY DIRS NEEDS BREAKS < demo.cpp : records the uncommitted change in /repo
as a planted bug (patch.diff, demo.sh with its own build kit, meta.json) and undoes it.
DIRS: modules the demonstration needs ("a,b", or "all", with "+fort" for the Fortran parts)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, dirs, needs, breaks = sys.argv[1:6]
d = "%s/seeded/%s" % (V, i)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff.strip(), "no change in /repo"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
shutil.rmtree(d + "/kit", ignore_errors=True)
os.makedirs(d + "/kit/tools")
for f in ("build.py", "fortran.sh"):
    shutil.copy(V + "/tools/" + f, d + "/kit/tools/" + f)
shutil.copytree(V + "/shims", d + "/kit/shims")
open(d + "/demo.cpp", "w").write(sys.stdin.read())
fort = "+fort" in dirs
dirs = dirs.replace("+fort", "")
opt = ("" if dirs == "all" else '--dirs "%s" ' % dirs) + ("--fort " if fort else "")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Builds the modules the demonstration needs from the working tree and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 VERIF_BUILD=$T OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=4
P=$(python3 "$D/kit/tools/build.py" rel "$D/demo.cpp" %s) || exit 2
cd "$T" && timeout 120 $P
''' % opt)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
print(i, "recorded")
