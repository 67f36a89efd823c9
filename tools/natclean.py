#!/usr/bin/env python3
"""Runs every harness natively with fixed inputs: on a tree where the property holds each must exit 0 or 77."""
import concurrent.futures as cf, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import checks, run_check as rc
ids = sys.argv[1:] or sorted(checks.PROPS)
pool = cf.ThreadPoolExecutor(6)
for p in ids:
    work = tempfile.mkdtemp(prefix='sx_nat_', dir='/tmp')
    try:
        for us in checks.PROPS[p]['units']:
            u = rc.Unit(work, us)
            for e in us['entries']:
                exe = u.native(pool, e['name'])
                for v in ({},):
                    r, out = rc.run_native(exe, v, os.path.join(work, 'values'), 'quick')
                    if r not in (0, 77):
                        print(p, us['harness'], e['name'], r, out[-2500:], flush=True)
        print(p, 'done', flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
