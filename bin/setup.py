#!/usr/bin/env python3
"""Builds the TLC overrides, the library and every harness once."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.classes()
vlib.build_harness(*sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(vlib.VERIF, "harness", "*.cpp"))))
