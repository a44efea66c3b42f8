#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist (checks/Cxx.py with META)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
META = {
 "C01": ("runtime differential monitor + ASan/UBSan", "Held on every prove call generated; oracle is direct squaring in an independent class-group implementation plus the verifying equation."),
 "C02": ("runtime differential monitor + ASan/UBSan", "Verdict of every surface equals the defining equation evaluated by an independent class-group implementation on every statement and mutant generated."),
 "C03": ("runtime differential monitor + ASan/UBSan", "As C02, on chains of depth 0..64 and structural mutants that satisfy every local equation but one."),
 "C04": ("runtime differential monitor + ASan/UBSan", "Both routes compared with each other and with the reference on every chain and mutant generated."),
 "C06": ("runtime differential monitor + ASan/UBSan", "Every element of thousands of small class groups and random large elements; strings around them judged by an independent decoder and by uniqueness."),
 "C05": ("runtime differential monitor + ASan/UBSan", "Every derivation and refusal generated matched an independent SHA-256 expansion and GMP primality on the C, C++ and Python surfaces."),
}
p = os.path.join(V, "tools", "meta.json")
if os.path.exists(p):
    META.update({k: tuple(v) for k, v in json.load(open(p)).items()})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for d in props:
    i = d["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        t, n = META[i]
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i, evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "Verification hooks" in c or " hooks: " in c]
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="CHIAVDF_VERIF_HOOKS", enable="harness builds pass -DCHIAVDF_VERIF_HOOKS -I/verif/harness/hooks when compiling /repo/src", source_commits=hooks), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
