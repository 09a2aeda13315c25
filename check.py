#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] : builds the library from /repo's working
tree, runs the generated-input search for property ID and writes evidence/ID.json.
check.py --replay FILE : runs one saved case.     check.py --setup : builds everything."""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/tools")
import build as B

REG = json.load(open(V + "/checks.json"))
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive",
           GOMP_SPINCOUNT="0", OMP_DYNAMIC="false", MALLOC_PERTURB_="165", LC_ALL="C", TZ="UTC",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:max_malloc_fill_size=1048576:malloc_fill_byte=165",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
for k in list(ENV):
    if k.startswith("AOCL_DA"):
        del ENV[k]


def setup():
    todo = {}
    for pid, c in REG.items():
        todo.setdefault(c.get("config", "rel"), set()).add(c["harness"])
    for cfg, hs in sorted(todo.items()):
        _, t = B.build(cfg, sorted(hs))
        print("setup: %s built in %.1f s" % (cfg, t))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()

    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    if a and a[0] == "--replay":
        f = open(a[1]).read()
        pid = [l.split()[1] for l in f.splitlines() if l.startswith("prop ")][0]
    else:
        pid = a[0]
    c = REG[pid]
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    full = "--full" in a or a[0] == "--replay"
    bins, bt = B.build(c.get("config", "rel"), [c["harness"]], dirs=None if full else c.get("dirs"), fort=c.get("fort", False))
    part = bins[0].endswith(".part")
    tmp = V + "/build/out"
    os.makedirs(tmp, exist_ok=True)
    rdir = V + "/build/replays"
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    if a[0] == "--replay":
        sys.exit(subprocess.run([bins[0], "--replay", os.path.abspath(a[1]), "--replays", rdir], env=ENV).returncode)
    out = "%s/%s.json" % (tmp, pid)
    if os.path.exists(out):
        os.unlink(out)
    scratch = "%s/scratch-%s-%d" % (tmp, pid, os.getpid())
    os.makedirs(scratch)
    env = dict(ENV, VERIF_SCRATCH=scratch)
    cmd = [bins[0], "--prop", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--replays", rdir,
           "--budget", opt("--budget", "300" if tier == "quick" else "3000"), "--mult", opt("--mult", "1")]
    if opt("--only"):
        cmd += ["--only", opt("--only")]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors="replace", cwd=scratch)
    subprocess.run(["rm", "-rf", scratch])
    if part and (r.returncode or not os.path.exists(out)):
        # confirm with the whole library before saying anything
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + a + ["--full"])
    known = {}
    kf = V + "/known_findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            w = l.split(None, 3)
            if len(w) >= 4 and w[0] == "finding:":
                known[w[2]] = w[1].split("=")[1]
    rc = r.returncode
    lines = []
    for l in r.stdout.splitlines():
        if l.startswith("KNOWN-FINDING:"):
            fid = l.split()[2].rstrip(":")
            if known.get(fid) != pid:      # a probe that fails and is not listed is a violation
                p = "%s/%s-%s.replay" % (rdir, pid, fid)
                open(p, "w").write("prop %s\nprobe %s\n" % (pid, fid))
                l = "VIOLATION property=%s replay=%s" % (pid, p)
                rc = 1
        lines.append(l)
    print("\n".join(lines))
    if not os.path.exists(out):
        print("the harness ended without an answer (status %d)" % r.returncode)
        sys.exit(3)
    d = json.load(open(out))
    tests = d["tests"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": d["evaluations"],
            "distinct_nontrivial": d["distinct_nontrivial"],
            "rule": " || ".join("%s: %s" % (k, t["rule"]) for k, t in tests.items()),
            "samples": [{"test": k, "case": s} for k, t in tests.items() for s in t["samples"]],
            "discarded": d["discarded"], "planned": d["planned"], "time_cap_reached": d["capped"],
            "per_test": {k: {q: t[q] for q in ("evaluations", "distinct_nontrivial", "discarded", "labels")} for k, t in tests.items()},
            "unreproduced": d["unreproduced"], "unreproduced_msg": d["unreproduced_msg"],
            "known_findings": d["known_findings"],
            "build_s": round(bt, 1), "search_s": round(d["search_s"], 1),
        },
        "assumptions": c.get("assumptions", []) + [
            "AOCL-Utils, AOCL-Sparse, AOCL-DLP and kernel-templates are absent here; /verif/shims stands in for them",
            "one BLAS/LAPACK (OpenBLAS), one CPU, LP64"],
        "wall_s": round(time.time() - t0, 1),
        "violations": d["violations"] + (1 if rc == 1 and not d["violations"] else 0),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    sys.exit(rc)


main()
