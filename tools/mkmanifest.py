#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = open(os.path.join(V, "harness/checks.cpp")).read()
have = re.findall(r'^\s*\{"(C\d\d)",', src, re.M)
TECH = {
 "default": "property-based testing: coverage-guided generated command histories against a reference model of the device, with shrinking",
 "C10": "fuzzing under address and undefined-behaviour sanitizers: generated, mutated and random command histories",
 "C21": "property-based testing with injected platform faults: every fallible call of generated operations",
 "C13": "property-based testing: round trip and differential against a reference codec over generated values and byte strings",
 "C14": "property-based testing: differential against unbounded integers over generated amounts",
 "C15": "stateful property-based testing against a byte-queue model",
 "C16": "property-based testing with a generated random source and memory scanning after every answer",
 "C17": "property-based testing: near-miss generation of ergo trees against a reference classifier and address encoder",
 "C26": "metamorphic property-based testing: the same operation fresh and after a generated history",
 "C27": "stateful property-based testing of the serialisers against a reference serialiser",
 "C28": "stateful model-based property testing: generated histories of commands and menu buttons against a model of the menu",
}
NOTE = "Samples generated cases, coverage guided, under sanitizers; no proof of absence. Trusts the stub Ledger SDK in /verif/sdk and the reference model in /verif/harness, both written from the documentation."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["default"]),
                       "level": "fault_enumeration" if i == "C21" else "exploration", "level_note": NOTE})
    else: na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the application is compiled unchanged against the stub SDK in /verif/sdk. Replays: python3 tools/check.py --replay FILE."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
