#!/usr/bin/env python3
"""Write rules/released.json: how each destructor releases each field."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from rules_struct import derive_roles

with open(os.path.join(HERE, "rules", "released.json"), "w") as h:
    json.dump(derive_roles(), h, indent=1, sort_keys=True)
    h.write("\n")
