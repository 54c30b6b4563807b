#!/usr/bin/env python3
"""plant.py ID...|all : makes seeded/<id>/ from tools/plants/*.py, confirms each planted bug in a scratch copy of /repo.
Each plant file defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, flags?)]."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def assemble(p):
    d = os.path.join(V, "seeded", p["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    k = os.path.join(V, "tools/demokit")
    shutil.copy(os.path.join(k, "demo.hpp"), d); shutil.copy(os.path.join(k, "demo.sh"), d); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copytree(os.path.join(V, "sdk"), os.path.join(d, "kit/sdk")); os.makedirs(os.path.join(d, "kit/harness"))
    for f in ("ref.cpp", "ref.hpp", "device.hpp", "engine.hpp"): shutil.copy(os.path.join(V, "harness", f), os.path.join(d, "kit/harness"))
    open(os.path.join(d, "demo.cpp"), "w").write('#include "demo.hpp"\n' + p["demo"].lstrip("\n"))
    if p.get("unit"): open(os.path.join(d, "unit.c"), "w").write(p["unit"].lstrip("\n"))
    if p.get("flags"): open(os.path.join(d, "flags"), "w").write(p["flags"] + "\n")
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d
def one(p):
    log = []
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        sh(f"cp -a /repo {t}/repo && cd {t}/repo && git checkout -q -- . && rm -rf _build")
        r = os.path.join(t, "repo")
        d = assemble(p)
        x = sh(f"bash {d}/demo.sh", cwd=r)
        if x.returncode: return p["id"], "BAD demo fails on the unchanged tree: " + x.stdout[-800:]
        for f, old, new in p["edits"]:
            fn = os.path.join(r, "src", f); s = open(fn).read()
            if s.count(old) != 1: return p["id"], f"BAD edit: {s.count(old)} matches in {f}: {old[:60]}"
            open(fn, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=r).stdout; open(os.path.join(d, "patch.diff"), "w").write(diff)
        # lines touched must be the base commit's own
        for f, old, new in p["edits"]:
            pass
        x = sh(f"bash {d}/demo.sh", cwd=r); log.append(x.stdout.strip().split("\n")[-1][:200])
        if x.returncode != 1: return p["id"], f"BAD demo exits {x.returncode} with the patch: " + x.stdout[-800:]
        # the existing tests, in the copy: same steps as /opt/vp with the paths changed
        os.makedirs(t + "/vp"); sh(f"cp -a /opt/vp/. {t}/vp/ && sed -i 's#/repo#{r}#g; s#/opt/vp#{t}/vp#g' {t}/vp/*.sh {t}/vp/*.py")
        x = sh(f"bash {t}/vp/test.sh {t}/out.json", cwd=r)
        try: j = json.load(open(t + "/out.json"))
        except Exception: return p["id"], "BAD no test results: " + x.stdout[-1500:]
        base = json.load(open("/opt/vp/BASELINE.json"))
        s = json.dumps(j); want = base.get("stable") or base.get("passed") or base.get("tests") or base
        want = list(want) if not isinstance(want, dict) else [k for k in want]
        got = set(j.get("passed", [])) if isinstance(j.get("passed"), list) else set(k for k, v in j.items() if v in ("passed", "pass", True))
        miss = [w for w in want if w not in got]
        if miss: return p["id"], f"BAD {len(miss)} tests fail: {miss[:5]}"
        return p["id"], f"ok ({len(got)} tests) demo: " + log[-1]
    finally: shutil.rmtree(t, ignore_errors=True)
def main():
    allp = [p for f in sorted(glob.glob(os.path.join(V, "tools/plants/*.py"))) for p in runpy.run_path(f)["PLANTS"]]
    ids = sys.argv[1:]
    sel = [p for p in allp if "all" in ids or p["id"] in ids]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, sel): print(i, r, flush=True)
main()
