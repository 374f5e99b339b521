#!/usr/bin/env python3
"""Ad-hoc runner: simcheck.py FAMILY PROFILE [n] [seed] -- prints a summary (development tool)."""
import importlib
import os
import shutil
import sys
import tempfile
import time
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot, core, driver


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('fam')
    ap.add_argument('profile')
    ap.add_argument('n', type=int, nargs='?', default=200)
    ap.add_argument('seed', nargs='?', default='1')
    ap.add_argument('-i', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-d', action='store_true')
    ap.add_argument('-k', help='only show keys containing this')
    a = ap.parse_args()
    fam, profile, n, seed = a.fam, a.profile, a.n, a.seed
    boot.boot()
    family = importlib.import_module('sim.fam_' + fam)
    root = tempfile.mkdtemp(prefix='launchsim-')
    if a.i is not None:
        i = a.i
        r = driver.run_once(family, profile, seed=driver.run_seed(seed, family.NAME + '/' + profile, i),
                            scratch=root, want='full')
        import json
        if a.d:
            print(json.dumps(r.get('desc'), indent=None))
        print('\n'.join(r.get('trace', [])))
        print([('%.6f' % (t / 1e9 - 1000), d / 1e6) for t, d in r.get('stalls', [])])
        if a.v:
            print(r.get('screen'), r.get('err'))
        print(r['viol'], r.get('harness'), r.get('died'), r.get('aborted'))
        shutil.rmtree(root)
        return
    t0 = time.time()
    c = Counter()
    f = Counter()
    ex = {}
    steps = []
    for r in driver.explore(family, profile, seed, n, os.cpu_count(), time.time() + 600, root):
        c['runs'] += 1
        c['nontrivial'] += r['nontrivial']
        steps.append(r['steps'])
        if r.get('harness'):
            c['harness'] += 1
            ex.setdefault(('harness', r['harness'][-300:]), []).append(r['i'])
        if r.get('died'):
            ex.setdefault(('died', r['died']), []).append(r['i'])
        for fa, fb in r['faults'].items():
            f[fa] += fb
        for v in r['viol']:
            ex.setdefault((','.join(v['props']), v['key']), []).append((r['i'], v['msg'][:200]))
        for m in r['marks']:
            f['mark:' + m] += 1
    print(c, dict(sorted(f.items())), 'steps avg', sum(steps) / max(1, len(steps)), 'max', max(steps or [0]))
    for kx, v in sorted(ex.items(), key=lambda kv: -len(kv[1])):
        if not a.k or a.k in str(kx):
            print(len(v), kx, *['%s %s' % (x if isinstance(x, int) else x[0], '' if isinstance(x, int) else x[1]) for x in v[:4]], sep='\n     ')
    print('%.1f s' % (time.time() - t0))
    for d in os.listdir(root):
        os.rmdir(os.path.join(root, d))
    shutil.rmtree(root)


main()
