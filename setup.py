#!/usr/bin/env python3
"""Build the extractor and the engine (offline, from tool/)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
print(common.build_tools())
