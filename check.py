#!/usr/bin/env python3
"""Decide one property by seeded simulation of /repo's working tree.

    check.py C01 [--tier quick|thorough] [--seed N] [--runs N]     search
    check.py --replay FILE                                         re-execute a violation
    check.py --selftest [N]                                        determinism of the simulation

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check
itself failed.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'

from sim import driver, plan  # noqa: E402
from sim.core import REAL_MONOTONIC  # noqa: E402






def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('known', []) if e['property'] == prop]


def is_known(known, family, profile, v):
    for e in known:
        if e['family'] == family and e['key'] == v['key'] and (
                not e.get('message_contains') or e['message_contains'] in v['msg']):
            return e
    return None


def relevant(res, prop):
    """The violations of this property in a result; unexpected deaths of a run concern it, too."""
    vs = [v for v in res.get('viol', []) if prop in v['props'] or v['props'] == ['*']]
    return vs


def collect(prop, family_name, profile, seed, n, nworkers, deadline, root, known, stats):
    fam = importlib.import_module('sim.fam_' + family_name)
    found = {}
    for r in driver.explore(fam, profile, seed, n, nworkers, deadline, root):
        stats['runs'] += 1
        stats['steps'] += r['steps']
        stats['switches'] += r['switches']
        stats['sim_ns'] += r['sim_ns']
        for a, b in r['faults'].items():
            stats['faults'][a] += b
        for m in r['marks']:
            stats['marks'][m] += 1
        if r['nontrivial']:
            stats['nontrivial'] += 1
            stats['cases'].add((family_name, profile, r['desc_hash'], r['sched']))
        stats['scheds'].add((family_name, r['sched']))
        stats['descs'].add((family_name, profile, r['desc_hash']))
        if r['i'] < 2 and r.get('desc') and len(stats['samples']) < 4:
            stats['samples'].append({'family': family_name, 'profile': profile, 'seed': r['seed'],
                                     'scenario': r['desc'], 'steps': r['steps'],
                                     'simulated_s': r['sim_ns'] / 1e9})
        if r.get('harness'):
            stats['harness'].append((family_name, profile, r['seed'], r['harness'][-1500:]))
            continue
        if r.get('died'):
            found.setdefault(('died', r['died']), []).append(r)
            continue
        if r['i'] % 97 == 0 and not r.get('viol'):
            stats['recheck'].append((family_name, profile, r['seed'], r['digest']))
        for v in relevant(r, prop):
            e = is_known(known, family_name, profile, v)
            if e is not None:
                stats['known'][e['id']] += 1
                continue
            found.setdefault(v['key'], []).append((r, v))
    return fam, found


def write_replay(prop, family, profile, seed, res, v, choices, note):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%016x.json' % (
        prop, family.NAME, ''.join(c if c.isalnum() else '_' for c in v['key'])[:30], seed))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'family': family.NAME, 'profile': profile, 'seed': seed,
                   'key': v['key'], 'message': v['msg'], 'choices': choices,
                   'digest': res.get('digest'), 'scenario': res.get('desc'),
                   'faults': res.get('faults'), 'trace': res.get('trace'), 'note': note},
                  f, indent=1)
    return path


def report(prop, fam, profile, found, root, budget_end):
    """Confirm, minimise and write out the violations; returns the replay paths."""
    out = []
    unconfirmed = []
    for key, items in sorted(found.items(), key=lambda kv: -len(kv[1]))[:3]:
        if isinstance(key, tuple):
            r = items[0]
            again = driver.run_once(fam, profile, seed=r['seed'], scratch=root)
            if again.get('died'):
                v = {'key': 'died', 'msg': 'the run never ended: ' + again['died'], 'props': [prop]}
                out.append((write_replay(prop, fam, profile, r['seed'], again, v, None,
                                         'not minimised: the run does not end'), v))
            else:
                unconfirmed.append((profile, r['seed'], 'died'))
            continue
        items.sort(key=lambda rv: rv[0]['n_choices'])
        for r, v in items[:3]:
            def pred(res, key=key):
                return any(w['key'] == key for w in relevant(res, prop)) and not res.get('harness')
            full = driver.run_once(fam, profile, replay=r['choices'], scratch=root, want='full')
            if not pred(full):
                unconfirmed.append((profile, r['seed'], key))
                continue
            budget = max(3, min(40, budget_end - REAL_MONOTONIC()))
            best, nruns = driver.minimise(fam, profile, full['choices'], pred, root, budget_s=budget)
            res = driver.run_once(fam, profile, replay=best, scratch=root, want='full')
            res2 = driver.run_once(fam, profile, replay=best, scratch=root, want='full')
            if not pred(res) or res['digest'] != res2['digest']:
                unconfirmed.append((profile, r['seed'], key))
                continue
            w = next(w for w in relevant(res, prop) if w['key'] == key)
            out.append((write_replay(prop, fam, profile, r['seed'], res, w, best,
                                     '%d choices reduced to %d in %d runs' % (
                                         r['n_choices'], len(best), nruns)), w))
            break
    return out, unconfirmed


def recheck(samples):
    """Repeat runs in a fresh interpreter under another hash seed; the event logs must agree."""
    samples = samples[:24]
    if not samples:
        return 0, []
    env = dict(os.environ, PYTHONHASHSEED='4711')
    p = subprocess.run([PY, '-B', os.path.join(HERE, 'check.py'), '--digests'], env=env,
                       input=json.dumps([s[:3] for s in samples]), capture_output=True, text=True,
                       timeout=200)
    got = json.loads(p.stdout.strip().splitlines()[-1]) if p.returncode == 0 else []
    bad = [s for s, g in zip(samples, got) if s[3] != g]
    return len(got), bad


def do_digests():
    boot()
    root = tempfile.mkdtemp(prefix='launchsim-')
    out = []
    try:
        for fam, profile, seed in json.loads(sys.stdin.read()):
            r = driver.run_once(importlib.import_module('sim.fam_' + fam), profile, seed=seed,
                                scratch=root)
            out.append(r.get('digest'))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(json.dumps(out))


def boot():
    from sim import boot as b
    b.boot()


def boot_repo():
    from sim import boot as b
    return b.REPO


def do_replay(path):
    with open(path) as f:
        rp = json.load(f)
    boot()
    fam = importlib.import_module('sim.fam_' + rp['family'])
    root = tempfile.mkdtemp(prefix='launchsim-')
    try:
        kw = {'seed': rp['seed']} if rp['choices'] is None else {'replay': rp['choices']}
        res = driver.run_once(fam, rp['profile'], scratch=root, want='full', **kw)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for line in res.get('trace') or []:
        print(line)
    if res.get('harness'):
        print(res['harness'])
        return 2
    hit = [v for v in relevant(res, rp['property']) if v['key'] == rp['key']]
    if rp['key'] == 'died' and res.get('died'):
        hit = [{'msg': res['died']}]
    for v in hit:
        print('%s: %s' % (rp['property'], v['msg']))
    if hit:
        print('event log %s the recorded one' % (
            'is identical to' if res.get('digest') == rp['digest'] else 'differs from'))
        print('VIOLATION property=%s replay=%s' % (rp['property'], path))
        return 1
    print('not reproduced: the tree behaves differently now')
    return 0


def do_selftest(n):
    """Every family: the same seeds give the same event log in other processes, worker counts and
    hash seeds."""
    boot()
    root = tempfile.mkdtemp(prefix='launchsim-')
    fams = sorted({(f, p) for l in plan.PLAN.values() for f, p, _ in l})
    bad = tot = 0
    samples = []
    try:
        for f, p in fams:
            fam = importlib.import_module('sim.fam_' + f)
            a = {r['seed']: r['digest'] for r in driver.explore(
                fam, p, 'self', n, 8, REAL_MONOTONIC() + 300, root)}
            b = {r['seed']: r['digest'] for r in driver.explore(
                fam, p, 'self', n, 3, REAL_MONOTONIC() + 300, root)}
            d = [s for s in a if a[s] != b.get(s)]
            tot += len(a)
            bad += len(d)
            print('%s/%s: %d seeds, %d differ %s' % (f, p, len(a), len(d), d[:3]))
            samples += [(f, p, s, a[s]) for s in list(a)[:24]]
        for i in range(0, len(samples), 24):
            got, b = recheck(samples[i:i + 24])
            tot += got
            bad += len(b)
            for s in b:
                print('other hash seed differs:', s)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print('selftest: %d comparisons, %d differences' % (tot, bad))
    return 0 if bad == 0 else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=float, help='scale the number of runs')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--selftest', nargs='?', const=60, type=int)
    a = ap.parse_args()
    if a.setup:
        boot()
        print('python %s, code under test in %s' % (sys.version.split()[0], boot_repo()))
        return 0
    if a.digests:
        return do_digests()
    if a.replay:
        return do_replay(a.replay)
    if a.selftest:
        return do_selftest(a.selftest)
    prop = a.prop
    tier = a.tier if a.tier in plan.BUDGET else 'quick'
    if prop not in plan.PLAN:
        sys.exit('no check for %r' % prop)
    t0 = REAL_MONOTONIC()
    deadline = t0 + plan.BUDGET[tier]
    print('seed %d, tier %s' % (a.seed, tier), flush=True)
    boot()
    known = load_known(prop)
    stats = {'runs': 0, 'steps': 0, 'switches': 0, 'sim_ns': 0, 'faults': Counter(),
             'marks': Counter(), 'nontrivial': 0, 'scheds': set(), 'descs': set(), 'cases': set(),
             'samples': [], 'harness': [], 'recheck': [], 'known': Counter()}
    root = tempfile.mkdtemp(prefix='launchsim-')
    nworkers = max(1, os.cpu_count() or 1)
    violations, unconfirmed, per = [], [], []
    mult = a.runs or (plan.THOROUGH if tier == 'thorough' else 1)
    try:
        todo = plan.PLAN[prop]
        for j, (f, p, n) in enumerate(todo):
            # later profiles keep their share of the time
            share = deadline if j == len(todo) - 1 else \
                REAL_MONOTONIC() + (deadline - REAL_MONOTONIC()) * 0.9 * n / sum(x[2] for x in todo[j:])
            before = stats['runs']
            fam, found = collect(prop, f, p, a.seed, int(n * mult), nworkers, share, root, known,
                                 stats)
            per.append({'family': f, 'profile': p, 'runs': stats['runs'] - before,
                        'planned': int(n * mult)})
            if found:
                out, un = report(prop, fam, p, found, root, t0 + plan.BUDGET[tier] + 60)
                violations += out
                unconfirmed += un
                if out:
                    break
        search_s = REAL_MONOTONIC() - t0
        n_re, bad = recheck(stats['recheck'][::max(1, len(stats['recheck']) // 24)]) \
            if not violations else (0, [])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    fams = sorted({x[0] for x in plan.PLAN[prop]})
    wall = REAL_MONOTONIC() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats['runs'],
            'distinct_nontrivial': len(stats['cases']),
            'rule': ' '.join(plan.RULE[f] for f in fams) + ' Distinct: by scenario and by the '
                    'hash of all scheduling decisions taken.',
            'samples': stats['samples'],
            'profiles': per,
            'runs_per_hour': int(stats['runs'] / search_s * 3600) if search_s else 0,
            'simulated_seconds': round(stats['sim_ns'] / 1e9, 1),
            'scheduling_steps': stats['steps'],
            'thread_switches': stats['switches'],
            'distinct_schedules': len(stats['scheds']),
            'distinct_scenarios': len(stats['descs']),
            'faults_injected': dict(sorted(stats['faults'].items())),
            'situations_reached': dict(sorted(stats['marks'].items())),
            'determinism_rechecks': n_re, 'determinism_mismatches': len(bad),
            'components_real': sorted({x for f in fams for x in plan.REAL[f]}),
            'components_simulated': sorted({x for f in fams for x in plan.STUB[f]}),
            'known_findings_seen': dict(stats['known']),
            'harness_errors': len(stats['harness']), 'unconfirmed': len(unconfirmed),
        },
        'assumptions': plan.ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d runs, %d distinct non-trivial, %.0f simulated seconds, %.1f s' % (
        stats['runs'], len(stats['cases']), stats['sim_ns'] / 1e9, wall))
    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    for path, v in violations:
        print('%s: %s' % (v['key'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    for f, p, s, h in stats['harness'][:3]:
        print('harness error in %s/%s seed %d:\n%s' % (f, p, s, h))
    for u in unconfirmed[:5]:
        print('not reproducible: %s' % (u,))
    for b in bad[:5]:
        print('not deterministic: %s' % (b,))
    if stats['harness'] or unconfirmed:
        return 2
    if stats['runs'] == 0:
        print('no run was made')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
