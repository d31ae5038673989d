#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only EXT:FN]"""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
from nv import build, driver, props          # noqa: E402


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    jobs = 8
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
        elif a[i] == '--only':
            only = a[i + 1]
        elif a[i] == '--jobs':
            jobs = int(a[i + 1])
        i += 2
    t0 = time.time()
    opts = driver.Opts(tier)
    try:
        p = props.PROPS[pid]
        build.generate()
        units = p['units'](tier)
        if only:
            x, f = only.split(':')
            for u in units:
                if u.ext == x or x == '*':
                    u.probs = [q for q in u.probs if q[0] == f]
                    u.canaries = []
                else:
                    u.probs = []
            units = [u for u in units if u.probs]
        rc = driver.report(pid, p.get('level', 'proof'), units, opts,
                           p.get('assume', ()), p.get('cov'), t0, jobs)
    except build.BuildError as e:
        print('ERROR build: %s' % e)
        rc = 3
    finally:
        build.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
