#!/usr/bin/env python3
"""Builds the IR extractor (the checks also build it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
print(vp.irdump_path())
