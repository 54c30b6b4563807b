"""Builds the harness (cached by content) and the libraries of the application under test (never cached)."""
import hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SAN = ["-fsanitize=address,bounds,signed-integer-overflow,shift-exponent,null,unreachable,integer-divide-by-zero,return,vla-bound,bool", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CFLAGS = ["-std=gnu11", "-O1", "-g1", "-fPIC", "-w", "-Wno-error", "-Wno-implicit-function-declaration", "-Wno-int-conversion"]
APPDEF = ["-DHAVE_BAGL", '-DAPPNAME="Ergo"', '-DAPPVERSION="3.7.5"', "-DMAJOR_VERSION=3", "-DMINOR_VERSION=7", "-DPATCH_VERSION=5"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]
VARIANTS = {"app": APPDEF + SAN + COV, "nanos": APPDEF + SAN + COV + ["-DTARGET_NANOS"], "debug": APPDEF + SAN + COV + ["-DDEBUG_BUILD"],
            "plain": APPDEF + COV + ["-fno-omit-frame-pointer"], "unit": SAN + COV}
SDKC = ["base58", "bip32", "buffer", "read", "varint", "write"]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def sources(d, ext):
    out = []
    for b, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(b, f) for f in sorted(fs) if f.endswith(ext)]
    return out

def harness():
    """Path of the harness directory, building it when its sources changed."""
    files = sources(os.path.join(VERIF, "harness"), (".cpp", ".hpp", ".h")) + sources(os.path.join(VERIF, "sdk"), (".c", ".h", ".cpp", ".hpp", ".S")) + [os.path.abspath(__file__)]
    h = hashlib.sha256()
    for f in files: h.update(os.path.relpath(f, VERIF).encode()); h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "h-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(d, "harness")): return d
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    jobs = []
    inc = ["-I" + os.path.join(VERIF, "sdk/include")]
    objs = []
    for f in sources(os.path.join(VERIF, "harness"), ".cpp") + [os.path.join(VERIF, "sdk/src/stub.cpp"), os.path.join(VERIF, "sdk/src/prim.cpp")]:
        o = os.path.join(tmp, os.path.basename(f) + ".o"); objs.append(o)
        opt = ["-O2"] if f.endswith("prim.cpp") else ["-O1"]
        jobs.append(["clang++", "-std=c++17", "-g1", "-fPIC", "-w"] + opt + inc + ["-c", f, "-o", o])
    objs.append(os.path.join(tmp, "guard.o")); jobs.append(["clang", "-c", os.path.join(VERIF, "sdk/src/guard.S"), "-o", objs[-1]])
    for s in SDKC:
        for kind, fl in (("san", SAN), ("plain", ["-fno-omit-frame-pointer"])):
            jobs.append(["clang"] + CFLAGS + fl + inc + ["-c", os.path.join(VERIF, "sdk/src", s + ".c"), "-o", os.path.join(tmp, f"sdk-{s}.{kind}.o")])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(run, jobs))
    for c, (rc, out) in zip(jobs, res):
        if rc: sys.stderr.write(" ".join(c) + "\n" + out); shutil.rmtree(tmp); raise SystemExit(2)
    rc, out = run(["clang++", "-g1", "-rdynamic", "-fsanitize=address,undefined"] + objs + ["-o", os.path.join(tmp, "harness"), "-lgmp", "-ldl"])
    if rc: sys.stderr.write(out); shutil.rmtree(tmp); raise SystemExit(2)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp)                # another check was faster
    return d

def variant(kind, hdir, out):
    """Builds the library `kind` from the working tree into directory `out`."""
    flags = VARIANTS[kind]
    if kind == "unit":
        src = [f for s in ("common", "ergo", "helpers") for f in sources(os.path.join(REPO, "src", s), ".c")]
        shims = sources(os.path.join(VERIF, "unit"), ".c")
    else:
        src, shims = sources(os.path.join(REPO, "src"), ".c"), []
    od = os.path.join(out, kind); os.makedirs(od, exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "sdk/include"), "-I" + os.path.join(REPO, "src")]
    jobs = []
    for i, f in enumerate(src + shims):
        jobs.append((f, os.path.join(od, f"{i}-{os.path.basename(f)}.o")))
    strict = ["-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-Werror=implicit-int"]   # doors must fit the tree exactly
    def comp(j): return run(["clang"] + [x for x in CFLAGS if j[0] not in shims or x.startswith("-std") or x[1] in "Ogf"] + flags + (strict if j[0] in shims else []) + inc + ["-c", j[0], "-o", j[1]])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, jobs))
    objs = []
    for (f, o), (rc, txt) in zip(jobs, res):
        if rc == 0: objs.append(o)
        elif f in shims: sys.stderr.write(f"note: unit/{os.path.basename(f)} does not compile against this tree, its parts are skipped:\n{txt}")
        else: sys.stderr.write(f"cannot compile {f}:\n{txt}"); raise SystemExit(2)
    so = os.path.join(out, kind + ".so")
    san = [] if kind == "plain" else ["-shared-libsan"][:0]
    sdk = [os.path.join(hdir, f"sdk-{s}.{'plain' if kind == 'plain' else 'san'}.o") for s in SDKC]
    wrap = ["-Wl,-z,lazy"]
    if kind == "plain":                               # SDK calls leave the application's stack alone, see guard.S
        wrap = ["-Wl,-z,now"] + ["-Wl,--wrap=" + l.split()[1] for l in open(os.path.join(VERIF, "sdk/src/guard.S")) if l.startswith("    G ")]
    rc, txt = run(["clang", "-shared", "-fPIC", "-Wl,-Bsymbolic"] + wrap + ["-o", so] + objs + sdk + san)
    if rc: sys.stderr.write(txt); raise SystemExit(2)
    return so

if __name__ == "__main__":
    print(harness())
