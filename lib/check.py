#!/usr/bin/env python3
"""check.py ID: decides one property; VERIF_TIER is quick or thorough."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    fam = {'P': 'check_stack', 'X': 'check_sync', 'L': 'check_log', 'G': 'check_logger', 'V': 'check_value',
           'S': 'check_sync', 'U': 'check_fut'}[pid[0]]
    mod = __import__(fam)
    chk = vlib.Check(pid, tier)
    try:
        getattr(mod, pid)(chk)
        rc = chk.finish()
    except vlib.CheckError as e:
        print('ERROR: %s' % e)
        rc = 1 if chk.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if chk.violations else 2
    sys.exit(rc)


main()
