#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
MODULES = {"B": "c_bp", "T": "c_tree", "M": "c_mesh", "S": "c_shape", "V": "c_bv", "O": "c_oct", "C": "c_ccd", "R": "c_req", "G": "c_geom", "X": "c_taylor", "D": "c_det", "W": "c_world",
           "M03": "c_meshq", "M04": "c_meshq", "M05": "c_meshs", "M06": "c_meshs"}
def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    try:
        return importlib.import_module(MODULES.get(prop) or MODULES[prop[0]]).run(prop, tier)
    except vlib.CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
if __name__ == "__main__":
    sys.exit(main())
