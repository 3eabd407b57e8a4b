#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from lib/catalogue.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import catalogue, props
rows, checks, nas = [], [], []
for p in sorted(catalogue.P, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["title"]
    rows.append({"id": p["id"], "title": p["title"],
                 "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [
                     {"name": n, "where": w} for n, w in p["mech"]]}})
    if "reason" in p:
        nas.append({"property": p["id"], "reason": p["reason"]})
        assert p["id"] not in props.PROPS
    else:
        assert p["id"] in props.PROPS, p["id"]
        cmd = "python3 check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd,
                       "thorough_cmd": cmd + " --thorough",
                       "technique": p["technique"], "level": "other",
                       "level_note": p["note"]})
assert set(props.PROPS) == {c["property"] for c in checks}, \
    set(props.PROPS) ^ {c["property"] for c in checks}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
           "not_applicable": nas,
           "notes": "All checks are static: they parse /repo's current "
           "sources with clang and never run the library."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nas), "not applicable")
