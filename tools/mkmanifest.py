#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and kani/src/cNN.rs."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C31": "truly parallel threads: Kani executes one thread, and a permission-based verifier for tower's Arc/atomics/locks would need the code rewritten in its dialect; the sequential contracts of the same functions are C08 and C11",
}
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    f = "%s/kani/src/%s.rs" % (R, p["id"].lower())
    if p["id"] in NA or not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "not claimed yet: its contracts are not written")))
        continue
    t = open(f).read()
    proofs = len(re.findall(r"(?m)^\s*//@ .*\bproof\b", t)); bounded = len(re.findall(r"(?m)^\s*//@ .*\bbounded\b", t))
    lv = re.search(r"(?m)^//! level: (.*)$", t)
    kd = re.search(r"(?m)^//! kind: (\w+)$", t)
    level = kd.group(1) if kd else "proof" if proofs else "other"
    note = "%d contract(s) proved for every input%s over the real crate by Kani/CBMC; trusts Kani, CBMC and the specification models of tokio, tokio-util, tracing, indexmap, hdrhistogram and FuturesUnordered; single-threaded." % (proofs, (", plus %d bounded stand-in(s) labelled bounded in the evidence and not counted as proved" % bounded) if bounded else "")
    if lv: note += " " + lv.group(1)
    checks.append(dict(property=p["id"], quick_cmd="./check.py %s --tier quick" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="contracts on the real code discharged by Kani/CBMC (deductive, all inputs)", level=level, level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="Contracts live in kani/src/cNN.rs; models of dependencies in models/. known_findings.txt lists genuine defects recorded or repaired.")
hk = R + "/hooks/manifest.json"
if os.path.exists(hk): m["hooks"] = json.load(open(hk))
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
