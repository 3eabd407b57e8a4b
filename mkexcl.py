#!/usr/bin/env python3
"""Maintenance (not run by the checks): list the functions for which a rule
of the engine cannot be decided precisely.  Every entry is (rule, function,
reason, objects); a report about one of these objects in the function is
"not decided" in the evidence.  The arguments are report files of the engine
for behaviour-preserving variants of the code: a decision that depends on the
form in which the code is written counts as not decided as well."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common, rules_engine, props
from rules_engine import kind_of
common.REPO = os.environ.get("VERIF_REPO", "/repo")
eng = rules_engine.Engine()
path = os.path.join(common.VERIF, "rules", "exclusions.json")
ippath = os.path.join(common.VERIF, "rules", "inplace.json")
old = json.load(open(path)) if os.path.exists(path) else {}
oldip = json.load(open(ippath)) if os.path.exists(ippath) else {}
reasons = json.load(open(os.path.join(common.VERIF, "rules", "reasons.json")))
known = {(f["rule"], f["where"]) for f in
         json.load(open(os.path.join(common.VERIF, "known-findings.json")))["findings"]}
merged = json.load(open(os.path.join(common.extract()[0], "merged.json")))
base = sorted({f["name"] for f in eng.ir.fns} | set(merged))
json.dump(base, open(os.path.join(common.VERIF, "rules", "functions.json"), "w"),
          indent=0)
base = set(base)
new, ip, nn = {}, {}, {}


class Variant:
    object_args = eng.object_args
    annotated_args = eng.annotated_args

    def __init__(self, d):
        self.d = d

    def settled(self, fn):
        return fn in base


variants = [(None, eng)] + [(f, Variant(json.load(open(f)))) for f in sys.argv[1:]]
for name, v in variants:
    added = {}
    for p, d in props.PROPS.items():
        if "cats" not in d:
            continue
        for r in v.d["reports"]:
            cat, fn = r[0], r[1]
            # (the "extract" variants pass unset locals to the new helpers)
            if name and cat == "uninit":
                continue
            if cat not in d["cats"] or (cat, fn) in known or fn not in base:
                continue
            if d.get("filter") and not d["filter"](r, v if name else eng):
                continue
            e = new.setdefault(cat, {}).setdefault(
                fn, {"reason": reasons.get(cat, {}).get(fn) or
                     reasons["default"].get(cat) or
                     "the engine cannot relate the values involved",
                     "of": []})
            k = kind_of(cat, r[4])
            if k not in e["of"]:
                e["of"].append(k)
                e["of"].sort()
                added[cat] = added.get(cat, 0) + 1
    for f, p in rules_engine.written(v):
        if f["fn"] in base and ("cow-param", f["fn"]) not in known and \
                p[0] not in ip.setdefault(f["fn"], []):
            ip[f["fn"]].append(p[0])
            added["cow-param"] = added.get("cow-param", 0) + 1
    for f, p in rules_engine.dereferenced(v):
        if ("null-param", f["fn"]) not in known and \
                p[0] not in nn.setdefault(f["fn"], []):
            nn[f["fn"]].append(p[0])
            added["null-param"] = added.get("null-param", 0) + 1
    print(name, added)
# decisions that depend on the form in which the code is written
for c, fs in json.load(open(os.path.join(common.VERIF, "rules",
                                         "fragile.json"))).items():
    for fn, why in fs.items():
        new.setdefault(c, {}).setdefault(fn, {})
        new[c][fn] = {"reason": why, "of": None}
for c in new:
    new[c] = dict(sorted(new[c].items()))
json.dump(dict(sorted(new.items())), open(path, "w"), indent=1)
json.dump({f: sorted(ip[f]) for f in sorted(ip) if ip[f]}, open(ippath, "w"), indent=0)
json.dump({f: sorted(nn[f]) for f in sorted(nn) if nn[f]},
          open(os.path.join(common.VERIF, "rules", "nonnull.json"), "w"), indent=0)
for c in sorted(new):
    print(c, len(new[c]), "added", sorted(set(new[c]) - set(old.get(c, {})))[:20],
          "removed", sorted(set(old.get(c, {})) - set(new[c]))[:20])
print("cow-param", sum(map(len, ip.values())), "added", sorted(set(ip) - set(oldip))[:10],
      "removed", sorted(set(oldip) - set(ip))[:10])
