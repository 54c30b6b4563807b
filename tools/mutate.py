#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-n MAX] [--scale S] [--seed S] [--ops a|b|c] FILE...: small mutations of the given files under src/, one at a
time, in scratch copies; every check (at the given scale, one worker) runs until one reports a violation. Writes one line per mutant that
compiles: what changed, and which check caught it first; mutants that survive are then run against the existing tests."""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
import build, runpy
def strip(s): return re.sub(r'//.*', '', s)
def mutants(fn):
    L = open(os.path.join("/repo/src", fn)).read().split("\n"); out = []
    incomment = False; depth = 0
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"): incomment = "*/" not in s; continue
        if incomment: incomment = "*/" not in s; continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*"): continue
        code = strip(l); codem = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group()), code)
        def sub(a, b, t): out.append((i, l[:a] + t + l[b:]))
        for m in re.finditer(r'(<=|>=|==|!=|&&|\|\||<<|>>|->|\+\+|--|\+=|-=|\|=|&=|<|>|\+|-|\||&|\*|/|%|!)', codem):
            o = m.group()
            alt = {"<=": ["<", "=="], ">=": [">", "=="], "==": ["!=", ">=", "<="], "!=": ["==", "<"], "&&": ["||"], "||": ["&&"], "<": ["<=", "!="], ">": [">=", "!="], "+": ["-"], "-": ["+"], "++": ["--"], "+=": ["-="], "-=": ["+="], "|": ["&"], "/": ["*"], "%": ["/"], "!": [""], "<<": [">>"], ">>": ["<<"]}.get(o, [])
            if o in ("<", ">", "+", "-", "|", "/", "%") and not re.match(r'\s', codem[m.end():m.end() + 1] or " "): continue
            for t in alt: sub(m.start(), m.end(), t)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', codem):
            try: v = int(m.group(), 0)
            except ValueError: continue
            sub(m.start(), m.end(), str(v + 1)); 
            if v > 0: sub(m.start(), m.end(), str(v - 1))
        for a, b in (("true", "false"), ("false", "true")):
            for m in re.finditer(r'\b%s\b' % a, codem): sub(m.start(), m.end(), b)
        for m in re.finditer(r'\b(sizeof\([^()]*\)|[A-Z][A-Z0-9_]*(?:LEN|SIZE|COUNT|MAX|MIN)[A-Z0-9_]*)\b', codem): sub(m.start(), m.end(), "(" + l[m.start():m.end()] + " - 1)"); sub(m.start(), m.end(), "(" + l[m.start():m.end()] + " + 1)")
        if s.endswith(";") and not s.startswith(("return", "case", "default", "typedef", "static", "extern", "}", "const")) and not re.match(r'^[a-z_0-9A-Z]+(\s+|\s*\*\s*)[a-z_0-9A-Z\[\]]+(\s*=|;)', s): out.append((i, "" if s.count("(") == s.count(")") else None))
        m = re.match(r'^(\s*)if \((.*)\) \{$', l)
        if m: out.append((i, f"{m.group(1)}if (0 && ({m.group(2)})) {{")); out.append((i, f"{m.group(1)}if (1 || ({m.group(2)})) {{"))
        m = re.match(r'^(\s*)if \((.*)\) (return .*|continue;|break;)$', l)
        if m: out.append((i, ""))
        # statement over several lines
        if s.endswith(";") and s.count("(") < s.count(")"):
            j = i; bal = s.count("(") - s.count(")")
            while bal < 0 and j > 0: j -= 1; bal += L[j].count("(") - L[j].count(")")
            if bal == 0 and not re.match(r'^\s*(return|if|for|while|switch|case|static|typedef|const|[\w]+\s+\w+\s*=)', L[j]) and j > 0: out.append(((j, i), ""))
    seen = set(); res = []
    for i, n in out:
        if n is None: continue
        k = (i, n)
        if k in seen: continue
        seen.add(k); res.append(k)
    return L, res
def mutants_b(fn):
    """narrower and differently signed types, neighbouring statements and arguments exchanged, related names confused, statements that are
    skipped or done twice now and then, conditions that hold only so often"""
    L = open(os.path.join("/repo/src", fn)).read().split("\n"); out = []; txt = "\n".join(L)
    names = sorted(set(re.findall(r'\b[a-z_0-9]+_(?:count|size|len|index|value|id|key|path|amount|state|count_left)\b', txt)))
    incomment = False; simple = lambda s: s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("return", "case", "default", "typedef", "static", "extern", "}", "const", "goto", "break", "continue")) and not re.match(r'^[a-z_0-9A-Z]+(\s+|\s*\*+\s*)[a-z_0-9A-Z\[\]*]+(\s*=|\s*;|\s*,|\s*\[)', s)
    T = {"uint64_t": ["uint32_t", "int64_t"], "uint32_t": ["uint16_t", "int32_t"], "uint16_t": ["uint8_t", "int16_t"], "size_t": ["uint8_t"], "int64_t": ["int32_t", "uint64_t"], "uint8_t": ["int8_t"], "int": ["uint8_t"]}
    inmacro = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"): incomment = "*/" not in s; continue
        if incomment: incomment = "*/" not in s; continue
        mac = inmacro or s.startswith("#"); inmacro = mac and s.endswith("\\")
        if not s or s.startswith("//") or s.startswith("*") or (s.startswith("#") and not s.startswith("#define")): continue
        def sub(a, b, t): out.append((i, l[:a] + t + l[b:]))
        for m in re.finditer(r'\b(uint64_t|uint32_t|uint16_t|size_t|int64_t|uint8_t|int)\b(?!\s*\*)', l):
            if m.group() == "uint8_t" and "[" in l: continue
            for t in T[m.group()]: sub(m.start(), m.end(), t)
        for m in re.finditer(r'(?<=[(,] )(&?[\w>.\-]+), (&?[\w>.\-]+)(?=[,)])|(?<=\()(&?[\w>.\-]+), (&?[\w>.\-]+)(?=[,)])', l):
            x, y = [g for g in m.groups() if g]; sub(m.start(), m.end(), f"{y}, {x}")
        r = random.Random(fn + str(i))
        for m in re.finditer(r'\b[a-z_0-9]+_(?:count|size|len|index|value|id|key|path|amount|state)\b', l):
            o = [n for n in names if n != m.group() and n.rsplit("_", 1)[1] == m.group().rsplit("_", 1)[1]]
            for n in r.sample(o, min(2, len(o))): sub(m.start(), m.end(), n)
        if mac: continue
        ind = l[:len(l) - len(l.lstrip())]
        if simple(s):
            for k in (1, 3): out.append((i, ind + "{ static unsigned k_; if (k_++ %% 5 != %d) { %s } }" % (k, s)))
            if not s.startswith("app_") or "busy" not in s: out.append((i, l + " " + s))
            n = L[i + 1] if i + 1 < len(L) else ""
            if simple(n.strip()) and len(n) - len(n.lstrip()) == len(ind): out.append(((i, i + 1), n + "\n" + l))
        m = re.match(r'^(\s*)(\} else )?if \((.*)\) (\{|return .*|continue;|break;)$', l)
        if m and m.group(3).count("(") == m.group(3).count(")"):
            for k in (2, 6): out.append((i, f"{m.group(1)}{m.group(2) or ''}if (({{ static unsigned k_; bool c_ = ({m.group(3)}); k_ += c_; c_ && k_ % 8 != {k}; }})) {m.group(4)}"))
            out.append((i, f"{m.group(1)}{m.group(2) or ''}if (({{ static unsigned k_; bool c_ = ({m.group(3)}); k_ += !c_; c_ || k_ % 32 == 19; }})) {m.group(4)}"))
    seen = set(); res = []
    for k in out:
        if k not in seen: seen.add(k); res.append(k)
    return L, res
def mutants_c(fn):
    """one value of a number received from the host, of a parameter or of a counter is treated as another one"""
    txt = open(os.path.join("/repo/src", fn)).read(); L = txt.split("\n"); out = []
    K = {"8": [0, 1, 2, 3, 4, 5, 8, 10, 19, 20, 127, 128, 255], "16": [0, 1, 2, 5, 127, 128, 255, 256, 257, 16383, 16384, 32767, 32768, 65535], "32": [0, 1, 2, 20, 127, 128, 254, 255, 256, 510, 4096, 16384, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff], "64": [0, 1, 2, 9, 10, 127, 128, 65535, 0xffffffff, 1 << 32, 999999999, 1000000000, (1 << 53), (1 << 56) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]}
    lit = lambda k: "%dULL" % k
    for i, l in enumerate(L):
        m = re.search(r'buffer_read_u(8|16|32|64)\(\w+, &([\w>.\-]+)', l)
        if m and l.strip().startswith("CHECK_READ_PARAM"):
            for k in K[m.group(1)]: out.append((i, l + " if (%s == %s) %s ^= 1;" % (m.group(2), lit(k), m.group(2))))
        elif m and l.strip().startswith("if (!buffer_read") and l.rstrip().endswith(")) {"):
            for k in K[m.group(1)]: out.append((i, l.replace("if (!", "if (({ bool ok_ = ", 1).replace(")) {", "); if (%s == %s) %s ^= 1; !ok_; })) {" % (m.group(2), lit(k), m.group(2)))))
        m = re.match(r'^(\s*)([\w>.\-]+)(--|\+\+);$', l)
        if m:
            for k in (0, 1, 2, 3, 4, 7, 19, 20, 130, 257): out.append((i, "%s%s %s= %s == %d ? 2 : 1;" % (m.group(1), m.group(2), m.group(3)[0], m.group(2), k)))
    for m in re.finditer(r'^[a-zA-Z_][\w \n*]*?\b\w+\(([^(){};]*)\) \{$', txt, re.M):
        if re.match(r'\s*(if|while|for|switch|else)\b', m.group(0)) or fn.endswith(".h") and "rw_buffer" in m.group(0): continue
        i = txt[:m.end()].count("\n")
        for q in re.finditer(r'(?:^|,)\s*(const )?(uint8_t|uint16_t|uint32_t|uint64_t|int64_t|int32_t|size_t) (\w+)\s*(?=,|$)', m.group(1)):
            if q.group(1): continue
            t = {"size_t": "32", "int64_t": "64", "int32_t": "32"}.get(q.group(2), q.group(2)[4:-2])
            for k in K[t]: out.append((i, L[i] + " if (%s == (%s) %s) %s ^= 1;" % (q.group(3), q.group(2), lit(k), q.group(3))))
    seen = set(); res = []
    for k in out:
        if k not in seen: seen.add(k); res.append(k)
    return L, res
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("-j", type=int, default=6); ap.add_argument("-n", type=int, default=0); ap.add_argument("--scale", default="4"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--ids", default=""); ap.add_argument("--ops", default="a"); ap.add_argument("files", nargs="+"); a = ap.parse_args()
h = build.harness(); base = tempfile.mkdtemp(prefix="mut-", dir="/tmp"); KINDS = ["app", "unit", "plain", "nanos", "debug"]
IDS = a.ids.split(",") if a.ids else "C27 C13 C15 C14 C17 C06 C01 C02 C03 C04 C05 C07 C08 C09 C11 C12 C22 C25 C24 C23 C18 C20 C19 C26 C10 C28 C21 C16".split()
PARTS = {"C02": ["app", "nanos"], "C13": ["unit", "app"], "C14": ["unit", "app"], "C15": ["unit", "app"], "C16": ["plain"], "C17": ["unit", "app"], "C27": ["unit", "app"], "C19": ["app", "debug"], "C28": ["app", "nanos"]}
INC = ["-I" + os.path.join(V, "sdk/include")]
def flagsof(kind, shim): return ["clang"] + build.CFLAGS + build.VARIANTS[kind] + INC
def cc(root, cmd):
    return subprocess.run(cmd + ["-g0"], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
def compile_all(root, out, only=None, old=None):
    """shared objects of all variants of tree `root`; only the file `only` is compiled (all if it is a header), the other objects come from
    `old`; None if it does not compile, "same" if the code of the application is the same as in `old`"""
    objs, sos = {}, {}
    for kind in KINDS:
        src = build.sources(os.path.join(root, "src"), ".c") if kind != "unit" else [f for s in ("common", "ergo", "helpers") for f in build.sources(os.path.join(root, "src", s), ".c")]
        if kind == "unit": src = src + build.sources(os.path.join(V, "unit"), ".c")
        objs[kind] = []; same = True
        for f in src:
            rel = os.path.relpath(f, root) if f.startswith(root) else f; o = kind + "-" + (rel.replace("/", "_") if f.startswith(root) else os.path.basename(f)) + ".o"
            if old and only and rel != only: objs[kind].append(os.path.join(old, o)); continue
            if cc(root, flagsof(kind, False) + ["-Isrc", "-c", rel, "-o", os.path.join(out, o)]): return None
            if old and open(os.path.join(out, o), "rb").read() == open(os.path.join(old, o), "rb").read(): objs[kind].append(os.path.join(old, o)); continue
            same = False; objs[kind].append(os.path.join(out, o))
        if old and same and kind == "app": return "same"
    for kind in KINDS:
        so = os.path.join(out, kind + ".so"); wrap = ["-Wl,-z,lazy"]
        if kind == "plain": wrap = ["-Wl,-z,now"] + ["-Wl,--wrap=" + l.split()[1] for l in open(os.path.join(V, "sdk/src/guard.S")) if l.startswith("    G ")]
        rc, t = build.run(["clang", "-shared", "-fPIC", "-Wl,-Bsymbolic"] + wrap + ["-o", so] + objs[kind] + [os.path.join(h, f"sdk-{s}.{'plain' if kind == 'plain' else 'san'}.o") for s in build.SDKC])
        if rc: return None
        sos[kind] = so
    return sos
env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1")
os.makedirs(base + "/o"); shutil.copytree("/repo/src", base + "/r/src"); assert compile_all(base + "/r", base + "/o")
lock = threading.Lock(); outf = open(a.out, "a")
done = set()
try:
    for l in open(a.out): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
except Exception: pass
def one(job):
    fn, (i, new), L = job; lo, hi = i if isinstance(i, tuple) else (i, i)
    if (fn, lo + 1, new.strip()) in done: return
    d = tempfile.mkdtemp(prefix="x", dir=base); r = d + "/r"; os.makedirs(d + "/o")
    try:
        shutil.copytree(base + "/r/src", r + "/src"); M = L[:lo] + [new] + [""] * (hi - lo) + L[hi + 1:]; open(os.path.join(r, "src", fn), "w").write("\n".join(M))
        isc = fn.endswith(".c"); sos = compile_all(r, d + "/o", "src/" + fn if isc else None, base + "/o")
        rec = {"file": fn, "line": lo + 1, "old": "\n".join(L[lo:hi + 1]).strip(), "new": new.strip()}
        if not sos: return
        if sos == "same":
            with lock: outf.write(json.dumps(dict(rec, caught="same code")) + "\n"); outf.flush()
            return
        caught = None
        for c in IDS:
            cmd = [h + "/harness"]
            for k in PARTS.get(c, ["app"]): cmd += ["--" + k, sos[k]]
            cmd += ["--tmp", d, "--scale", a.scale, "--workers", "1", "--check", c, "--tier", "quick", "--seed", str(a.seed), "--cap", "60", "--evidence", d + "/e.json", "--replay-dir", d]
            try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=200)
            except subprocess.TimeoutExpired: caught = c + " timeout"; break
            if p.returncode != 0: caught = c if p.returncode == 1 and b"VIOLATION" in p.stdout else f"{c} rc={p.returncode}"; break
        rec["caught"] = caught
        if not caught:
            # the existing tests
            t = d + "/t"; subprocess.run(f"cp -a /repo {t} && rm -rf {t}/_build && cp {r}/src/{fn} {t}/src/{fn} && mkdir {d}/vp && cp -a /opt/vp/. {d}/vp/ && sed -i 's#/repo#{t}#g; s#/opt/vp#{d}/vp#g' {d}/vp/*.sh {d}/vp/*.py; bash {d}/vp/build.sh >/dev/null 2>&1; bash {d}/vp/test.sh {d}/out.json", shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            try: rec["tests"] = len(json.load(open(d + "/out.json"))["passed"])
            except Exception as e: rec["tests"] = 0
        with lock: outf.write(json.dumps(rec) + "\n"); outf.flush()
    finally: shutil.rmtree(d, ignore_errors=True)
jobs = []
for f in a.files: L, ms = {"a": mutants, "b": mutants_b, "c": mutants_c}[a.ops](f); jobs += [(f, m, L) for m in ms]
random.Random(a.seed).shuffle(jobs)
if a.n: jobs = jobs[:a.n]
print(len(jobs), "mutants"); sys.stdout.flush()
def safe(j):
    try: one(j)
    except Exception as e: print("ERR", j[0], j[1], e)
with ThreadPoolExecutor(a.j) as ex: list(ex.map(safe, jobs))
shutil.rmtree(base)
