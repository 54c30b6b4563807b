#!/usr/bin/env python3
"""check.py ID quick|thorough [engine options]: decides one property on /repo's working tree.
check.py --replay FILE: runs a replay file again."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
PARTS = {"C02": ["app", "nanos"], "C28": ["app", "nanos"], "C13": ["unit", "app"], "C14": ["unit", "app"], "C15": ["unit", "app"], "C16": ["plain"], "C17": ["unit", "app"], "C27": ["unit", "app"], "C19": ["app", "debug"]}
DEFAULT = ["app"]

def main(a):
    replay = None
    if a[0] == "--replay":
        replay = os.path.abspath(a[1]); pid = [l.split()[1] for l in open(replay) if l.startswith("property ")][0]; tier = "quick"; extra = a[2:]
    else: pid, tier, extra = a[0], a[1], a[2:]
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1"
    os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1"
    h = build.harness()
    for d in ("evidence", "replay"): os.makedirs(os.path.join(build.VERIF, d), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=build.BUILD)
    try:
        cmd = [os.path.join(h, "harness")]
        for k in PARTS.get(pid, DEFAULT): cmd += ["--" + k, build.variant(k, h, tmp)]
        cmd += ["--tmp", tmp]
        if replay: cmd += ["--replay", replay]
        else:
            cap = {"quick": "100", "thorough": "700"}[tier]
            cmd += ["--scale", "80", "--check", pid, "--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1"), "--cap", cap, "--evidence", os.path.join(build.VERIF, "evidence", pid + ".json"), "--replay-dir", os.path.join(build.VERIF, "replay")]
        return subprocess.run(cmd + extra).returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
