#!/usr/bin/env python3
"""usage: check.py PROPERTY quick|thorough"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib, checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = vlib.Check(pid, tier)
    try:
        checks.CHECKS[pid](c)
        return c.finish()
    except vlib.CheckError as e:
        print('ERROR %s: %s' % (pid, e), file=sys.stderr)
        if c.bad:   # what has been found on the real code before counts
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if c.bad:
            return c.finish()
        return 2
    finally:
        c.close()


sys.exit(main())
