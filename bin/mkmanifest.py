#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = ("TLA+ specification (Session.tla: every operation, exact rational semantics); TLC checks recorded traces of the real crate against it "
        "(Trace.tla), on sessions made by TLC from Gen.tla and by a seeded generator; ")
DESIGN = __import__("re").findall(r'"(\w+)": \("([C0-9 ]+)"', open(f"{V}/bin/check").read())
EXTRA = json.load(open(f"{V}/bin/techniques.json"))
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
        "evidence_file": f"evidence/{i}.json", "technique": EXTRA.get(i, {}).get("technique", TECH + ("design models that TLC checks: " + ", ".join(m + ".tla" for m, ps in DESIGN if i in ps.split()) if any(i in ps.split() for m, ps in DESIGN) else "no design model of its own")), "level": "model_checking",
        "level_note": EXTRA.get(i, {}).get("note", EXTRA["default"]["note"])})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks use the public interface of cam-geom only. See DESIGN.md."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
