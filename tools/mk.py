#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
have = set()
for d, _, fs in os.walk(os.path.join(ROOT, "harness", "checks")):
    for f in fs:
        if f.endswith("_test.go"):
            have |= set(re.findall(r"^func Test(P\d\d)\(", open(os.path.join(d, f)).read(), re.M))
checks, na, lines = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] not in have and p["id"] not in NOT_APPLICABLE:
        print("skipping", p["id"], "(no check)")
        continue
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for_all"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing (rapid): " + p["technique"],
        "level": "exploration",
        "level_note": p["note"]})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("".join(l + "\n" for l in lines))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the exported API of /repo's working tree."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
by = {s: h for h, s in (l.split("\t", 1) for l in log)}
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
kf["fixed"] = []
listed = set()
for l in open(os.path.join(HERE, "fixed.tsv")):
    pid, s = l.rstrip("\n").split("\t")
    listed.add(s)
    if s not in by:
        print("no commit:", s)
        continue
    kf["fixed"].append("fixed: property=%s %s %s" % (pid, by[s], s[len("fix: "):]))
for s in by:
    if s.startswith("fix:") and s not in listed:
        print("unlisted fix:", s)
json.dump(kf, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
