#!/usr/bin/env python3
"""run.py ID [quick|thorough]: runs the check of one property. Exit 0: held; 1: VIOLATION lines; 2: error of the check."""
import sys, os, importlib, traceback
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(here), 'tools'), here]
import vlib
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else None
    ck = vlib.Check(pid, tier)
    try:
        importlib.import_module(pid.lower()).check(ck)
    except vlib.CheckError as e:
        if not ck.violations: print('ERROR of the check: %s' % e); return 2
    except Exception:
        if not ck.violations: traceback.print_exc(); return 2
    return ck.finish()
sys.exit(main())
