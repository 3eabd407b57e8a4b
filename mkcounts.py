#!/usr/bin/env python3
"""Regenerates rules/counts.json: the counted arrays, and the accesses whose
guard is weaker than a comparison with the count in the same function."""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from rules_index import *
from collections import defaultdict

P = program()
C = Counts(P)
SKIP = {"isl_blk.data", "isl_space.tuple_id", "isl_term.pow",
        "isl_tarjan_graph.order", "isl_tarjan_graph.node", "range_data.signs",
        "isl_mat.row", "isl_space.nested",
        "isl_tarjan_graph.stack", "isl_vec.el", "isl_constraint_index.index"}
n = defaultdict(int)
by = defaultdict(lambda: defaultdict(int))
for f in P.fns:
    A = C.accesses(f)
    B = C.bits(f) if A else {}
    for b, rec, arr, i, line in A:
        if b not in B:
            continue
        n[(rec, arr)] += 1
        for x in {x for r, x, k in B[b] if r == rec and x not in
                  ("ref", "flags", "bits", "max_con", "depth")
                  or r == rec == "isl_hash_table" and x == "bits"}:
            by[(rec, arr)][x] += 1
pairs = {}
for k in sorted(n):
    xs = sorted(by[k], key=lambda x: -by[k][x])
    name = "%s.%s" % (rec_key(P, k[0]), k[1])
    if not xs or by[k][xs[0]] < .5 * n[k] or name in SKIP:
        continue
    xs = [x for x in xs if x == xs[0] or
          x in ("n_must", "n_may") and xs[0] in ("n_must", "n_may")]
    pairs[name] = [rec_key(P, k[0]), xs]
pairs["isl_printer.buf"] = ["isl_printer", ["buf_size"]]
for rec in P.recs:
    if rec.startswith("anon@isl_multi_templ.h:"):
        pairs[rec_key(P, rec) + ".p"] = ["isl_multi_*", ["n"]]
weak = {}
for f, k, kind, lv, line in levels(P, C, pairs):
    if lv < 2:
        d = weak.setdefault(f.name, {}).setdefault(k, {})
        d[kind] = min(lv, d.get(kind, 2))
json.dump({"pairs": pairs, "weaker": weak},
          open(os.path.join(HERE, "rules", "counts.json"), "w"),
          indent=1, sort_keys=True)
for k in pairs:
    print(k, pairs[k], n[(k, 0)] if 0 else "")
print(len(weak), "functions with weaker obligations")
