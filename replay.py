#!/usr/bin/env python3
"""
replay.py FILE -- re-run a recorded counterexample on the unmodified code in /repo.
Exit 1 when the violation shows, 0 when it does not.
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)


def inner(path):
    from symx import driver
    with open(path) as f:
        v = json.load(f)
    driver.setup_native([v['module']])
    inputs = [(a, b, c) for a, b, c in v['inputs']]
    status, msg, ctx = driver.run_native(v['property'], v['module'], v['func'], v['params'], inputs, driver.load_known())
    print('property %s, harness %s %s' % (v['property'], v['func'], v['params']))
    for i in v['inputs']:
        print('  %s = %r' % (i[0], i[2]))
    for o in ctx.observed:
        print('  observed: %r' % (o,))
    print('status: %s %s' % (status, msg))
    return 1 if status == 'violation' else 0


def main():
    if sys.argv[1] == '--inner':
        sys.exit(inner(sys.argv[2]))
    with open(sys.argv[1]) as f:
        v = json.load(f)
    rc = 0
    for seed in v.get('seeds', [0]):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
        rc = subprocess.run(['python3-vt', os.path.abspath(__file__), '--inner', sys.argv[1]], env=env).returncode
        if rc == 1:
            break
    sys.exit(rc)


if __name__ == '__main__':
    main()
