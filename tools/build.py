#!/usr/bin/env python3
"""Builds the whole AOCL-DA library from /repo's working tree (plus the shims for
the four dependencies that are not installed here) and links harnesses to it.

usage: build.py CONFIG HARNESS...      (HARNESS: name of /verif/harness/<name>.cpp)
CONFIG: rel   g++ -O1
        asan  as rel, with address+undefined sanitizers on the modules that parse
              untrusted bytes or do index arithmetic (the others are built plainly)
        arch  as rel, with a second namespace (generic_avx512) for dynamic dispatch
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
BLAS_INC = "/usr/include/x86_64-linux-gnu/openblas-pthread"
BLAS = "/usr/lib/x86_64-linux-gnu/openblas-pthread/libopenblas.so"
GEN = "-march=x86-64 -mavx2 -mfma"
A512 = GEN + " -mavx512f -mavx512dq -mavx512vl"
SAN = "-g1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr,enum -fno-sanitize-recover=all -fno-omit-frame-pointer"


def incs():
    core = R + "/source/core"
    dirs = [R + "/source/include"]
    dirs += sorted(d for d in glob.glob(core + "/*") if os.path.isdir(d))
    dirs += [core + "/decision_forest/tree"]
    dirs += [R + "/external/Lbfgsb.3.0", R + "/external/RALFit",
             R + "/external/RALFit/libRALFit/include", V + "/shims",
             R + "/external/kernel-templates", BLAS_INC]
    return " ".join("-I" + d for d in dirs)


def classify():
    """-> {source: 'pub' | 'arch'}; follows source/CMakeLists.txt where it lists the
    file, and falls back on the text for a file it does not list."""
    core = R + "/source/core"
    cm = open(R + "/source/CMakeLists.txt").read()
    cm = re.sub(r"#[^\n]*", "", cm)
    sets = {}
    for m in re.finditer(r"set\((\w+)\s+([^()]*)\)", cm):
        sets.setdefault(m.group(1), []).extend(m.group(2).split())

    def expand(name, seen=()):
        out = []
        for w in sets.get(name, []):
            m = re.fullmatch(r"\$\{(\w+)\}", w)
            if m and m.group(1) not in seen:
                out += expand(m.group(1), seen + (name,))
            elif w.startswith("core/"):
                out.append(R + "/source/" + w)
        return out
    pub, disp = set(expand("DA_CORE_PUBLIC")), set(expand("DA_CORE_DYNAMIC_DISPATCH"))
    res = {}
    for f in sorted(glob.glob(core + "/**/*.cpp", recursive=True) +
                    glob.glob(core + "/**/*.c", recursive=True)):
        if f in disp:
            res[f] = "arch"
        elif f in pub:
            res[f] = "pub"
        else:
            t = open(f, errors="replace").read()
            if "PUBLIC_ONLY_NOT_BUILT" in t:
                continue
            res[f] = "arch" if "namespace ARCH" in t else "pub"
    return res


def tree_state():
    st = {}
    for top in ("source", "external"):
        for d, _, fs in os.walk(R + "/" + top):
            for f in fs:
                p = os.path.join(d, f)
                try:
                    st[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime]
                except OSError:
                    pass
    return st


# Sanitized in config 'asan'. The others stay plain: they only make the link complete.
ASAN_DIRS = ("csv/", "data_management/", "utilities/", "interpolation/", "decision_forest/",
             "nearest_neighbors/", "basic_statistics/", "approximate_neighbors/")


def ninja_text(config, harnesses, dirs=None):
    I = incs()
    ver = r'-DAOCLDA_VERSION_STRING=\"AOCL-DA\" -DAOCLDA_GIT_COMMIT=\"unknown\"'
    if config == "arch":
        avail, zmax = "-Dgeneric_AVAILABLE -Dgeneric_avx512_AVAILABLE", "generic_avx512"
    else:
        avail, zmax = "-Dgeneric_AVAILABLE", "generic"
    opt = "-O1 -w -fPIC -fopenmp -ffunction-sections -fdata-sections"
    san = SAN if config == "asan" else ""
    pubdef = f"-DZNVER_MAX={zmax} {avail} {ver}"
    L = []

    def rule(n, cmd):
        L.append(f"rule {n}\n command = {cmd} $san -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n")
    rule("pub", f"g++ -std=c++17 {opt} {GEN} {pubdef} {I}")
    rule("arch", f"g++ -std=c++17 {opt} {GEN} -DARCH_generic -DZNVER_MAX=generic -Dgeneric_AVAILABLE {ver} {I}")
    rule("arch512", f"g++ -std=c++17 {opt} {A512} -DARCH_generic_avx512 -DZNVER_MAX=generic_avx512 -Dgeneric_avx512_AVAILABLE {ver} {I}")
    rule("carch", f"gcc {opt} {GEN} -DARCH_generic {I}")
    # the harnesses see both the public headers and (for the internal containers) the core headers
    rule("har", f"g++ -std=c++17 {opt} {GEN} -DARCH_generic {pubdef} {I} -I{V}/harness")
    L.append(f"rule fort\n command = sh {V}/tools/fortran.sh {R}/external $p $out\n")
    L.append("rule ar\n command = rm -f $out && ar rcs $out $in\n")
    L.append(f"rule link\n command = g++ -fopenmp {san} -Wl,--gc-sections -o $out $in {BLAS} -lgfortran -lgomp -lmvec -lm -lpthread\n")
    objs, inc = [], []

    def add(rule_, src, tag=""):
        rel = os.path.relpath(src, R + "/source/core") if src.startswith(R) else "shim/" + os.path.basename(src)
        o = "o/" + tag + rel.replace("/", "_") + ".o"
        s = SAN if config == "asan" and (rel.startswith(ASAN_DIRS)) else ""
        L.append(f"build {o}: {rule_} {src}\n san = {s}\n")
        objs.append(o)
        if dirs is None or tag == "" and rel.split("/")[0] in ALWAYS + list(dirs) + ["shim"]:
            inc.append(o)
    # slow files first
    slow = ("data_store_public", "kmeans.cpp", "linear_model.cpp", "nearest_neighbors.cpp", "decision_forest.cpp", "tsne.cpp",
            "kernel_pca.cpp", "optimization.cpp", "approximate_neighbors.cpp", "svm.cpp", "pca.cpp")
    srcs = classify()
    for s in sorted(srcs, key=lambda f: (not f.endswith(slow), f)):
        k = srcs[s]
        if s.endswith(".c"):
            add("carch", s)
        else:
            add(k, s)
            if config == "arch" and k == "arch":
                add("arch512", s, "z_")
    add("pub", V + "/shims/shims.cpp")
    for p in "sd":
        L.append(f"build fort_{p}.a: fort {V}/tools/fortran.sh {' '.join(sorted(glob.glob(R + '/external/Lbfgsb.3.0/*.F90') + glob.glob(R + '/external/RALFit/libRALFit/src/*.F90')))}\n p = {p}\n")
    L.append("build libda.a: ar " + " ".join(objs) + "\n")
    L.append("build part: phony " + " ".join(inc) + "\n")
    for h in harnesses:
        src = h if "/" in h else f"{V}/harness/{h}.cpp"
        b = os.path.splitext(os.path.basename(src))[0]
        L.append(f"build h/{b}.o: har {src}\n san = {san}\n")
        L.append(f"build bin/{b}: link h/{b}.o libda.a fort_s.a fort_d.a\n")
    return "".join(L), inc


# A check that needs only some modules compiles only those (dirs, plus ALWAYS). The rest is
# referred to by the handle factory alone; stand-ins that trap take its place. When anything
# else refers to a module left out, or when a violation is found, the whole library is used.
ALWAYS = ["utilities", "dynamic_dispatch", "metrics", "basic_statistics"]
FACTORY = ("utilities_da_handle.cpp.o", "utilities_da_handle_public.cpp.o", "utilities_options_public.cpp.o", "utilities_model_persistence.cpp.o", "utilities_basic_handle.cpp.o")


def link_part(B, h, inc, fort, config):
    """-> path of the program, or None when the selected modules are not enough"""
    san = SAN.split() if config == "asan" else []
    for f in glob.glob(B + "/part.*"):
        os.unlink(f)
    subprocess.check_call(["ar", "rcs", "part.a"] + inc, cwd=B)
    base = ["g++", "-no-pie", "-fopenmp"] + san + ["-Wl,--gc-sections", "h/%s.o" % h, "part.a"]
    libs = (["fort_s.a", "fort_d.a"] if fort else []) + [BLAS, "-lgfortran", "-lgomp", "-lmvec", "-lm", "-lpthread"]
    r = subprocess.run(base + libs + ["-Wl,--no-demangle", "-Wl,--warn-unresolved-symbols", "-o", "part.tmp"],
                       cwd=B, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    names, obj = set(), ""
    for l in r.stdout.splitlines():
        m = re.search(r"\((\w[\w.]*\.o)\)", l) or re.search(r"(\S+\.o):", l)
        if m:
            obj = os.path.basename(m.group(1))
        m = re.search(r"undefined reference to [`'](\S+?)'", l)
        if m:
            if obj not in FACTORY:
                return None
            names.add(m.group(1))
        elif "more undefined references" in l:
            pass
        elif re.search(r"error|cannot find", l):
            return None
    if r.returncode:
        return None
    with open(B + "/part.s", "w") as f:
        f.write(".text\n.balign 64\n")
        for n in sorted(names):
            f.write('.globl "%s"\n"%s":\n' % (n, n))
        f.write(" ud2\n .zero 4096\n.section .note.GNU-stack,\"\",@progbits\n")
    r = subprocess.run(base + ["part.s"] + libs + ["-o", "bin/%s.part" % h], cwd=B,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    for f in glob.glob(B + "/part.*"):
        os.unlink(f)
    return None if r.returncode else "%s/bin/%s.part" % (B, h)


def build(config, harnesses, quiet=True, dirs=None, fort=False):
    T = os.environ.get("VERIF_BUILD", V + "/build")
    B = f"{T}/{config}"
    os.makedirs(B, exist_ok=True)
    lock = open(f"{T}/.lock.{config}", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    st = tree_state()
    sf = B + "/tree.json"
    try:
        old = json.load(open(sf))
    except Exception:
        old = None
    if old is None:
        if os.path.isdir(B + "/o"):
            shutil.rmtree(B + "/o")
    else:
        # a file whose text changed without its time moving forward would be missed by ninja
        for p, (h, m) in st.items():
            if p in old and old[p][0] != h and m <= old[p][1]:
                for d in ("o", "h", "bin"):
                    shutil.rmtree(B + "/" + d, ignore_errors=True)
                for f in glob.glob(B + "/*.a") + glob.glob(B + "/.ninja*"):
                    os.unlink(f)
                break
    os.makedirs(B + "/o", exist_ok=True)
    json.dump(st, open(sf, "w"))
    nf = B + "/build.ninja"
    txt, inc = ninja_text(config, harnesses, dirs)
    # keep rules of harnesses seen before: ninja would forget nothing, but be minimal
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    tg = ["bin/" + os.path.splitext(os.path.basename(h))[0] for h in harnesses]
    if dirs is not None:
        os.makedirs(B + "/bin", exist_ok=True)
        h0 = os.path.splitext(os.path.basename(harnesses[0]))[0]
        tg = ["part", "h/%s.o" % h0] + (["fort_s.a", "fort_d.a"] if fort else [])
    r = subprocess.run(["ninja", "-C", B] + tg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        i = r.stdout.find("FAILED")
        sys.stderr.write(r.stdout[i:i + 6000] + "\n")
        raise SystemExit("build failed: no answer")
    if not quiet:
        print("\n".join(r.stdout.splitlines()[-1:])[:300])
    if dirs is not None:
        p = link_part(B, h0, inc, fort, config)
        lock.close()
        if p:
            return [p], time.time() - t0
        b, t = build(config, harnesses, quiet)
        return b, time.time() - t0
    lock.close()
    return [f"{B}/{t}" for t in tg], time.time() - t0


if __name__ == "__main__":
    # build.py CONFIG HARNESS... [--dirs a,b] [--fort]
    a = sys.argv[1:]
    dirs = None
    if "--dirs" in a:
        i = a.index("--dirs")
        dirs = [d for d in a[i + 1].split(",") if d]
        del a[i:i + 2]
    out, t = build(a[0], [x for x in a[1:] if x != "--fort"], dirs=dirs, fort="--fort" in a)
    print(*out)
