#!/usr/bin/env python3
"""Regenerates rules/complete.json: the loops that go through all elements of
an array ('e': left early only if the function fails, 's': each iteration
looks at its element)."""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import rules_loops

json.dump(rules_loops.derive(),
          open(os.path.join(HERE, "rules", "complete.json"), "w"),
          indent=1, sort_keys=True)
