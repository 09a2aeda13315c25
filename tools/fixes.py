#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from /repo's fix: commits."""
import subprocess, re
KEY = [("decision forest", "C18"), ("decision tree", "C17"), ("standardize", "C01"), ("kernel functions", "C08"), ("cosine", "C08"),
       ("gemm-based Euclidean", "C08"), ("kd and ball", "C09"), ("k-nearest", "C09"), ("radius", "C09"), ("nearest neighbors", "C09")]
KEY = [tuple(l.split("\t")) for l in open("/verif/tools/fixes.tsv").read().splitlines() if l] + KEY
old = open("/verif/known_findings.txt").read().splitlines()
out = [l for l in old if not l.startswith("fixed:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    ids = [p for k, p in KEY if k.lower() in s[5:].lower()]
    assert ids, s
    out.append("fixed: property=%s %s %s" % (ids[0], h, s[5:]))
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
