#!/usr/bin/env python3
"""
check.py Cxx  -- decide property Cxx on /repo's current working tree.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
import json
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('SYMX_CHILD'):
    env = dict(os.environ, PYTHONHASHSEED='0', SYMX_CHILD='1', PYTHONDONTWRITEBYTECODE='1')
    os.execvpe('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:], env)

import importlib
import multiprocessing
import signal
import subprocess
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(6000)

from symx import driver, core          # noqa: E402
from plan import PLAN, PEEK, NO_PEEK                  # noqa: E402


def warm():
    for name in ('isspace', 'word', 'isdecimal'):
        core.char_table(name)


def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
        only = None if only == '--thorough' else only
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modules = PLAN[prop]
    driver.setup(modules)
    warm()
    known = driver.load_known()
    driver.NAT.activate()
    jobs = []
    bounds = []
    assumptions = []
    for m in modules:
        mod = sys.modules['harness.' + m]
        for prop_id, func, params, budget in mod.tasks(prop, tier):
            if only and only not in func:
                continue
            jobs.append((prop, m, func, params, budget, known, seed, True))
            if prop in PEEK and func not in NO_PEEK:
                jobs.append((prop, m, func, dict(params, _peek=True), budget, known, seed, True))
        bounds.extend(x for x in getattr(mod, 'BOUNDS', {}).get(prop, ()) if x not in bounds)
        assumptions.extend(x for x in getattr(mod, 'ASSUMPTIONS', {}).get(prop, ()) if x not in assumptions)
    total = {f: 0 for f in core.Stats.FIELDS}
    functions, reasons, tags, knowns = set(), {}, {}, {}
    samples, spurious, mism, truncated, harnesses = [], [], [], [], {}
    violation = None
    cap = float(os.environ.get('SYMX_CAP', '600' if tier == 'quick' else '7200'))
    capped = False
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('SYMX_JOBS', os.cpu_count() or 4))) as pool:
        it = pool.imap_unordered(driver.run_task, jobs, chunksize=1)
        n = 0
        while n < len(jobs):
            try:
                res = it.next(timeout=max(1, cap - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                capped = True
                break
            n += 1
            st = res['stats']
            for f in core.Stats.FIELDS:
                total[f] += st[f]
            functions.update(st['functions'])
            for k, v in st['incomplete_reasons'].items():
                reasons[k] = reasons.get(k, 0) + v
            for k, v in res['tags'].items():
                tags[k] = tags.get(k, 0) + v
            for k, v in res['known'].items():
                knowns[k] = knowns.get(k, 0) + v
            h = harnesses.setdefault(res['task'], {'tasks': 0, 'paths': 0, 'wall_s': 0.0})
            h['tasks'] += 1
            h['paths'] += st['paths']
            h['wall_s'] = round(h['wall_s'] + res['wall'], 2)
            if len(samples) < 12 and st['samples']:
                samples.append({'harness': res['task'], 'params': driver.jsonable(res['params']), **st['samples'][-1]})
            spurious.extend(res['spurious'][:2])
            mism.extend(res['mismatch_samples'][:2])
            if res['truncated']:
                truncated.append('%s %s' % (res['task'], json.dumps(driver.jsonable(res['params']))))
            if res['violation']:
                violation = res['violation']
                break
        pool.terminate()
    rc = 0
    replay_path = None
    if violation:
        violation['property'] = prop
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'evidence', 'replay', '%s.json' % prop)
        with open(replay_path, 'w') as f:
            json.dump(violation, f, indent=1)
        env = {k: v for k, v in os.environ.items() if k not in ('SYMX_CHILD', 'PYTHONHASHSEED')}
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), replay_path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            rc = 1
        else:
            print('counterexample did not replay in a fresh interpreter:', violation['message'])
            print(r.stdout)
            rc = 3
    if rc == 0 and not violation and total['paths'] and not total['validated']:
        print('no path of the encoding could be validated against the code')
        rc = 2
    if not jobs:
        print('no tasks')
        rc = 2
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total['paths'],
            'transitions': total['decisions'],
            'traces_validated_against_impl': total['validated'],
            'samples': samples,
            'exhaustive': not truncated and not capped and not total['incomplete'] and not total['mismatches'] and rc == 0,
            'meaning': 'states = feasible path conditions explored to the end, each standing for every input that '
                       'satisfies it; transitions = solver-decided forks; every completed path is re-run on the '
                       'unmodified code with a solver model and its output compared',
            'tasks': len(jobs), 'harnesses': harnesses,
            'property_assertions': total['checks'],
            'branch_conditions': total['branches'], 'solver_queries': total['queries'],
            'solver_s': round(total['solver_s'], 3), 'solver': 'z3 %s' % core.z3.get_version_string(),
            'functions_encoded': sorted(f for f in functions if f.startswith('sqlpuzzle')),
            'bounds': bounds,
            'paths_cut_by_assumption': total['infeasible'],
            'paths_not_exhaustive': total['incomplete'],
            'not_exhaustive_reasons': reasons,
            'encoding_mismatches': total['mismatches'], 'mismatch_samples': mism[:5], 'spurious': spurious[:5],
            'truncated_tasks': truncated[:40], 'time_cap_reached': capped,
            'reached': tags, 'known_findings_hit': knowns,
        },
        'assumptions': assumptions,
        'wall_s': round(wall, 3), 'violations': 1 if rc == 1 else 0,
    }
    if violation:
        evidence['coverage']['counterexample'] = driver.jsonable(violation)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, k)]['what']))
    print('%s: %d paths, %d validated, %d forks, %d queries (%.1fs solver), %d mismatches, %d incomplete, '
          '%d truncated, %d tasks, wall %.1fs' % (
              prop, total['paths'], total['validated'], total['decisions'], total['queries'], total['solver_s'],
              total['mismatches'], total['incomplete'], len(truncated), len(jobs), wall))
    if '-v' in sys.argv or os.environ.get('SYMX_V'):
        print(json.dumps(harnesses, indent=1))
        print(json.dumps(reasons, indent=1), json.dumps(tags), json.dumps(spurious[:3], indent=1),
              json.dumps(mism[:3], indent=1), truncated[:10])
    if rc == 1:
        print(violation['message'])
        print(json.dumps({'harness': violation['func'], 'params': driver.jsonable(violation['params']),
                          'inputs': violation['inputs']}))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
