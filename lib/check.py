#!/usr/bin/env python3
"""python3 lib/check.py <property>: decides one property on /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULES = {"F": "c_field", "E": "c_ecc", "S": "c_sss", "D": "c_dme", "V": "c_values", "O": "c_ot", "P": "c_puda",
           "R": "c_opprf", "A": "c_sym", "C": "c_sym", "U": "c_sym", "G": "c_elgamal"}


def main():
    prop = sys.argv[1]
    c = vlib.Check(prop)
    try:
        getattr(importlib.import_module(MODULES[prop[0]]), prop.lower())(c)
    except vlib.CheckError as e:
        if not c.violations:
            print("ERROR property=%s %s" % (prop, e))
            return 2
    except Exception:
        if not c.violations:
            traceback.print_exc()
            return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
