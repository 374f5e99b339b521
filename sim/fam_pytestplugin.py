"""Scenario family: pytest sessions with launch_pytest fixtures and tests.

The real pytest runs a generated test module in the simulation.
"""
import asyncio
import concurrent.futures.thread
import os
import queue
import sys
import time
import types

import _pytest.fixtures
import launch_pytest
import launch_pytest.plugin
import pytest

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'pytestplugin'
PROFILES = ('mix',)
FUNC, CORO, GEN, AGEN = 'func', 'coro', 'gen', 'agen'


def adapt_pytest():
    """
    Present the installed pytest through the older interface that the plugin is written for.

    Since pytest 8.4 a fixture is an object of its own instead of a function with attributes.
    """
    d = getattr(_pytest.fixtures, 'FixtureFunctionDefinition', None)
    if d is not None:
        def getattr_(self, name):
            if name == '_pytestfixturefunction':
                return self._fixture_function_marker
            if name.startswith('_launch_pytest'):
                return getattr(self._fixture_function, name)
            raise AttributeError(name)
        d.__getattr__ = getattr_
    real = _pytest.fixtures.FixtureManager.getfixtureinfo

    def getfixtureinfo(self, node, func, cls, funcargs=True):
        return real(self, node, func, cls)
    _pytest.fixtures.FixtureManager.getfixtureinfo = getfixtureinfo
    # blocks in C otherwise
    types_ = types.SimpleNamespace(SimpleQueue=queue._PySimpleQueue, Empty=queue.Empty)
    concurrent.futures.thread.queue = types_


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx, threads=True)
    scope = ch.pick(('function', 'module'), 'scope')
    s = {'scope': scope, 'fixtures': [], 'tests': []}
    for f in range(ch.rng_int(1, 2, 'nfix') if scope == 'function' else 1):
        fx = {'procs': [], 'idle': ch.chance(0.6, 'idle'), 'auto': True,
              'ret': ch.pick(('ld', 'ld', 'tuple', 'list')),
              'params': ch.pick((0, 0, 0, 2), 'params') if scope == 'module' else 0}
        for i in range(ch.rng_int(0, 2, 'nprocs')):
            life = ch.weighted([(5, None), (4, ch.pick((1, 50, 300, 1000)))], 'life')
            fx['procs'].append({
                'at': ch.pick((None, None, 0, 5, 100, 500), 'at'), 'life': life,
                'code': ch.pick((0, 1)), 'tok': ch.pick((0, 1, 40, 300), 'tok'),
                'spawn': ch.pick((0, 0, 1, 50)), 'fail': ch.chance(0.07, 'fail'),
                'int': ch.weighted([(5, 'die'), (2, 'slow'), (1, 'ignore')], 'int')})
        n = len(fx['procs'])
        fx['ready'] = ch.weighted([
            (2, ('none',)), (3, ('top',)), (3, ('at', ch.pick((0, 5, 100, 501)))),
            (3, ('start', ch.choose(n)) if n else ('top',)),
            (1, ('exit', ch.choose(n)) if n else ('top',)),
            (1, ('never',)), (1, ('two',))], 'ready')
        fx['crash'] = ch.pick((0, 5, 100, 501, 900)) if ch.chance(0.1, 'crash') else None
        # such a launch gets ready only with luck, so it has to end by itself
        r = fx['ready']
        if r[0] == 'never' or r[0] in ('start', 'exit') and (
                fx['procs'][r[1]]['fail'] or r[0] == 'exit'):
            fx['idle'] = True
            for p in fx['procs']:
                if p['life'] is None:
                    p['life'] = 700
        # without a limit, a launch has to end by itself
        if ch.chance(0.25, 'noauto') and fx['idle'] and not any(
                p['life'] is None for p in fx['procs']):
            fx['auto'] = False
        s['fixtures'].append(fx)
    for t in range(ch.rng_int(1, 5, 'ntests')):
        if ch.chance(0.1, 'plain'):
            s['tests'].append({'fx': None, 'kind': FUNC, 'shut': False, 'arg': False,
                               'body': [], 'end': ch.pick(('pass', 'fail')),
                               'body2': [], 'end2': 'pass'})
            continue
        f = ch.choose(len(s['fixtures']))
        kind = ch.pick((FUNC, CORO, GEN, AGEN), 'kind')
        n = len(s['fixtures'][f]['procs'])

        def body(first):
            r = []
            for _ in range(ch.choose(3, 'nops')):
                op = ch.pick(('sleep', 'sleep', 'output', 'exit') if n and first else ('sleep',))
                r.append([op, ch.pick((0, 1, 20, 150, 700)) if op == 'sleep' else ch.choose(n)])
            return r
        s['tests'].append({
            'fx': f, 'kind': kind, 'shut': kind in (FUNC, CORO) and ch.chance(0.4, 'shut'),
            'arg': ch.chance(0.5, 'arg'), 'body': body(True),
            'end': ch.weighted([(6, 'pass'), (2, 'fail'), (1, 'raise')], 'end'),
            'body2': body(False),
            'end2': ch.weighted([(5, 'pass'), (2, 'fail'), (1, 'more')], 'end2')})
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms], preempt=ctx.k.preempt_mean)
    return s


def source(s):
    out = ['import launch_pytest', 'import pytest', 'import simh as H', '']
    for f, fx in enumerate(s['fixtures']):
        kw = 'shutdown_when_idle=%r, auto_shutdown=%r' % (fx['idle'], fx['auto'])
        if s['scope'] != 'function':
            kw += ', scope=%r' % s['scope']
        if fx['params']:
            kw += ', params=%r' % list(range(fx['params']))
        out += ['@launch_pytest.fixture(%s)' % kw, 'def fx%d(request):' % f,
                '    return H.describe(%d, getattr(request, "param", 0))' % f, '']
    for t, te in enumerate(s['tests']):
        if te['fx'] is None:
            out += ['def test_%d():' % t, '    H.plain(%d)' % t, '']
            continue
        out.append('@pytest.mark.launch(fixture=fx%d%s)' % (
            te['fx'], ', shutdown=True' if te['shut'] else ''))
        args = 'fx%d, launch_context' % te['fx'] if te['arg'] else 'launch_context'
        a = te['kind'] in (CORO, AGEN)
        out.append('%sdef test_%d(%s):' % ('async ' if a else '', t, args))
        call = '    %sH.%sbody(%d, %%d, launch_context)' % (
            'await ' if a else '', 'a' if a else '', t)
        out.append(call % 1)
        if te['kind'] in (GEN, AGEN):
            out += ['    yield', call % 2]
            if te['end2'] == 'more':
                out.append('    yield')
        out.append('')
    return '\n'.join(out) + '\n'


def run(ctx):
    from launch import LaunchDescription
    from launch.actions import (ExecuteProcess, GroupAction, OpaqueFunction, RegisterEventHandler,
                                TimerAction)
    from launch.conditions import IfCondition
    from launch.event_handlers import OnProcessExit, OnProcessStart, OnShutdown
    from launch_pytest.actions import ReadyToTest
    from launch_pytest.tools import process as tools
    from . import aio
    k = ctx.k
    adapt_pytest()
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, False)
    insts = ctx.insts = []

    def describe(f, param):
        fx = s['fixtures'][f]
        n = len(insts)
        inst = {'f': f, 'param': param, 'actions': [], 'tag': 'simp%d' % n}
        insts.append(inst)
        k.rec('describe', n=n, f=f, param=param)
        ents = [RegisterEventHandler(OnShutdown(
            on_shutdown=lambda ev, c: k.rec('shutdown', n=n)))]
        later = []
        for i, p in enumerate(fx['procs']):
            name = 'simp%d.%d' % (n, i)
            steps = [((p['tok'] + 1) * MS, 'out', 1, b'token\n')]
            if p['life'] is not None:
                if p['life'] <= p['tok']:
                    steps = []
                steps.append(((p['life'] + 1) * MS, 'exit', p['code']))
            k.os.program(name, [Plan(steps, {
                SIGINT: {'die': ('die', 0), 'slow': ('exit', 700 * MS, 0),
                         'ignore': ('ignore',)}[p['int']],
                SIGTERM: ('die', 0), SIGKILL: ('die', 0)},
                spawn=2 if p['fail'] else None, spawn_ns=p['spawn'] * MS)])
            a = ExecuteProcess(cmd=['/opt/sim/' + name], name=name, output='log',
                               cached_output=True)
            inst['actions'].append(a)
            ents.append(RegisterEventHandler(OnProcessExit(
                target_action=a, on_exit=lambda ev, c, i=i: k.rec('ended', n=n, p=i))))
            if p['at'] is None:
                later.append(a)
            else:
                later.append(TimerAction(period=p['at'] / 1000, actions=[a]))

        def ready():
            return [OpaqueFunction(function=lambda c: k.rec('ready', n=n)), ReadyToTest()]
        r = fx['ready']
        if r[0] == 'none':
            later.append(ready()[0])
        elif r[0] == 'top':
            later += ready()
        elif r[0] == 'at':
            later.append(TimerAction(period=r[1] / 1000, actions=ready()))
        elif r[0] == 'start':
            ents.append(RegisterEventHandler(OnProcessStart(
                target_action=inst['actions'][r[1]], on_start=ready())))
        elif r[0] == 'exit':
            ents.append(RegisterEventHandler(OnProcessExit(
                target_action=inst['actions'][r[1]], on_exit=ready())))
        elif r[0] == 'never':
            later.append(GroupAction(ready(), condition=IfCondition('false')))
        else:
            later += ready() + ready()
        if fx['crash'] is not None:
            def crash(context):
                k.rec('crash', n=n)
                raise RuntimeError('by the launch description')
            later.append(TimerAction(period=fx['crash'] / 1000,
                                     actions=[OpaqueFunction(function=crash)]))
        ld = LaunchDescription(ents + later)
        return {'ld': ld, 'tuple': (ld, 'more'), 'list': [ld]}[fx['ret']]

    def current(t):
        return len(insts) - 1

    def start(t, phase):
        n = current(t)
        k.rec('body', test=t, phase=phase, n=n, main=k.cur is k.main)
        te = s['tests'][t]
        return n, te['body' if phase == 1 else 'body2'], te['end' if phase == 1 else 'end2']

    def stop(t, phase, end):
        k.rec('bodyend', test=t, phase=phase)
        if end == 'fail':
            assert False, 'by the test'
        if end == 'raise':
            raise ValueError('by the test')

    def body(t, phase, context):
        n, ops, end = start(t, phase)
        for op, x in ops:
            if op == 'sleep':
                time.sleep(x / 1000)
            elif op == 'output':
                k.rec('waits', test=t, n=n, op=op, p=x)
                r = tools.wait_for_output_sync(
                    context, insts[n]['actions'][x], lambda text: 'token' in text, timeout=5)
                k.rec('waited', test=t, n=n, op=op, p=x, r=r)
            else:
                k.rec('waits', test=t, n=n, op=op, p=x)
                r = tools.wait_for_exit_sync(context, insts[n]['actions'][x], timeout=2)
                k.rec('waited', test=t, n=n, op=op, p=x, r=r)
        stop(t, phase, end)

    async def abody(t, phase, context):
        n, ops, end = start(t, phase)
        for op, x in ops:
            if op == 'sleep':
                await asyncio.sleep(x / 1000)
            elif op == 'output':
                k.rec('waits', test=t, n=n, op=op, p=x)
                r = await tools.wait_for_output(
                    context, insts[n]['actions'][x], lambda text: 'token' in text, timeout=5)
                k.rec('waited', test=t, n=n, op=op, p=x, r=r)
            else:
                k.rec('waits', test=t, n=n, op=op, p=x)
                r = await tools.wait_for_exit(context, insts[n]['actions'][x], timeout=2)
                k.rec('waited', test=t, n=n, op=op, p=x, r=r)
        stop(t, phase, end)

    def plain(t):
        k.rec('body', test=t, phase=1, n=None, main=k.cur is k.main)
        stop(t, 1, s['tests'][t]['end'])

    m = types.ModuleType('simh')
    m.describe, m.body, m.abody, m.plain = describe, body, abody, plain
    sys.modules['simh'] = m

    class Recorder:
        @pytest.hookimpl(hookwrapper=True)
        def pytest_runtest_makereport(self, item, call):
            report = (yield).get_result()
            k.rec('report', node=item.name, when=report.when, outcome=report.outcome,
                  why=report.longrepr and str(report.longrepr)[-300:])

        def pytest_collectreport(self, report):
            if report.failed:
                k.rec('collect_failed', why=str(report.longrepr)[-300:])

    d = os.path.join(ctx.scratch, 'tests')
    os.makedirs(d)
    path = os.path.join(d, 'test_sim.py')
    with open(path, 'w') as f:
        f.write(source(s))
    # an event loop fixture that is left resets the policy
    set_policy = asyncio.set_event_loop_policy
    asyncio.set_event_loop_policy = lambda p: set_policy(aio.SimPolicy() if p is None else p)
    common.make_loop()
    rc = pytest.main(
        ['--disable-plugin-autoload', '-p', 'no:cacheprovider', '-p', 'no:terminal',
         '-p', 'no:faulthandler', '-p', 'no:unraisableexception', '-p', 'no:threadexception',
         '-p', 'no:warnings', '-p', 'no:logging', '-p', 'no:junitxml', '-p', 'no:doctest',
         '-p', 'no:unittest', '--capture=no', '--assert=plain', '--rootdir=' + d,
         '--import-mode=importlib', '-c', os.devnull, path],
        plugins=[launch_pytest.plugin, Recorder()])
    k.rec('session', rc=int(rc))


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C26']
    H = k.hist
    marks = ctx.state_marks
    bodies = hist(ctx, 'body')
    ctx.nontrivial = any(b['n'] is not None for b in bodies)
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    ses = first(ctx, 'session')
    if ses is None:
        V(P, 'session', 'the session did not end')
        return
    for e in hist(ctx, 'collect_failed'):
        V(P, 'collect', 'the tests could not be collected: %s' % e['why'])
        return
    reports = {}
    for e in hist(ctx, 'report'):
        reports.setdefault(e['node'], {})[e['when']] = e
    insts = hist(ctx, 'describe')

    def at(kind, n, **kw):
        for e in H:
            if e['k'] == kind and e['n'] == n and all(e[x] == v for x, v in kw.items()):
                return e
    # --- every process is gone, every launch was shut down
    for p in k.procs.values():
        if not p.exited:
            V(P, 'orphan', '%s is left behind by the session' % p.tag)
            return
    ready, shut, crash, gone = {}, {}, {}, {}
    for e in insts:
        n = e['n']
        ready[n], shut[n], crash[n] = at('ready', n), at('shutdown', n), at('crash', n)
        fx = s['fixtures'][e['f']]
        if shut[n] is None and fx['ready'][0] != 'two':
            V(P, 'no_shutdown', 'launch %d was not shut down' % n)
            return
        sent = [x for x in H if x['k'] == 'kill' and x['name'].startswith('simp%d.' % n)]
        if not fx['auto'] and ready[n] and not crash[n] and sent:
            V(P, 'auto', 'launch %d ends by itself, but process %s was sent a signal' % (
                n, sent[0]['name']))
            return
        mine = [x for x in H if x['k'] == 'exit' and x['name'].startswith('simp%d.' % n)]
        gone[n] = max([x['i'] for x in mine], default=-1)
        marks.add('ready_' + fx['ready'][0] + ('' if ready[n] else '_not'))
    by_test = {}
    for b in bodies:
        by_test.setdefault((b['test'], b['n']), {}).setdefault(b['phase'], []).append(b)
    ends = {(e['test'], e['phase'], e['i']): e for e in hist(ctx, 'bodyend')}

    def end_of(b):
        for e in H[b['i']:]:
            if e['k'] == 'bodyend' and e['test'] == b['test'] and e['phase'] == b['phase']:
                return e
    for b in bodies:
        t, n = b['test'], b['n']
        te = s['tests'][t]
        txt = 'part %d of test %d (%s, launch %s)' % (b['phase'], t, te['kind'], n)
        if n is None:
            continue
        if end_of(b) is None:
            V(P, 'cut', '%s was not run to its end' % txt)
            return
        if insts[n]['f'] != te['fx']:
            V(P, 'fixture', '%s ran with the launch of another fixture' % txt)
            return
        if ready[n] is None or ready[n]['i'] > b['i']:
            V(P, 'unready', '%s ran before its launch was ready' % txt)
            return
        late = te['shut'] or b['phase'] == 2
        if late:
            if shut[n] is None or shut[n]['i'] > b['i'] or gone[n] > b['i']:
                V(P, 'running', '%s ran before its launch had ended' % txt)
                return
        elif not te['shut'] and not crash[n] and _stays(s, insts[n]):
            if shut[n]['i'] < end_of(b)['i']:
                V(P, 'early', 'launch was shut down during %s' % txt)
                return
    # --- the order of the tests of one launch
    for e in insts:
        n = e['n']
        normal = [b['i'] for b in bodies if b['n'] == n and b['phase'] == 1 and
                  not s['tests'][b['test']]['shut']]
        late = [b['i'] for b in bodies if b['n'] == n and (
            b['phase'] == 2 or s['tests'][b['test']]['shut'])]
        if normal and late and max(normal) > min(late):
            V(P, 'order', 'launch %d: a test ran after the shutdown tests' % n)
            return
    # --- waits
    for w in hist(ctx, 'waits'):
        r = next(e for e in H[w['i']:] if e['k'] == 'waited' and e['test'] == w['test'])
        p = s['fixtures'][insts[w['n']]['f']]['procs'][w['p']]
        if w['op'] != 'output' or p['fail'] or crash[w['n']]:
            continue
        if p['life'] is not None and p['life'] <= p['tok']:
            continue
        if p['at'] is not None and not _stays(s, insts[w['n']]):
            continue
        if s['tests'][w['test']]['shut'] or shut[w['n']]['i'] < w['i'] or k.stalls:
            continue
        if not r['r']:
            V(P, 'deaf', 'test %d did not see the output of process %d' % (w['test'], w['p']))
            return
    # --- what is reported
    want = {}
    for t, te in enumerate(s['tests']):
        params = s['fixtures'][te['fx']]['params'] if te['fx'] is not None else 0
        for q in range(params) if params else [None]:
            par = '' if q is None else '[%d]' % q
            nodes = [('test_%d%s' % (t, par), False)]
            if te['kind'] in (GEN, AGEN) and s['scope'] == 'module':
                nodes.append(('test_%d%s[shutdown_test]' % (t, par), True))
            for node, second in nodes:
                want[node] = (t, q, second)
    if set(want) != set(reports):
        V(P, 'items', 'the session ran %s instead of %s' % (sorted(reports), sorted(want)))
        return
    broken, lost = set(), set()
    for node, (t, q, second) in sorted(want.items(), key=lambda x: reports[x[0]]['setup']['i']):
        te = s['tests'][t]
        rep = reports[node]
        out = {w: e['outcome'] for w, e in rep.items()}
        if te['fx'] is None:
            if out.get('call') != {'pass': 'passed', 'fail': 'failed'}[te['end']]:
                V(P, 'outcome', 'the plain test %d %s' % (t, out))
                return
            continue
        # the launch this test belongs to: the last described one before the end of its setup
        ns = [e['n'] for e in insts if e['i'] < rep['setup']['i'] and e['f'] == te['fx'] and (
            q is None or e['param'] == q)]
        if not ns and any(crash[e['n']] for e in insts if e['i'] < rep['setup']['i']):
            # this one got to report the failure of the launch before
            marks.add('failed_before')
            lost.add((t, q))
            continue
        if second and (t, q) in lost:
            if out['setup'] != 'failed' and out.get('call') != 'skipped':
                V(P, 'outcome', '%s: %s, but the first part did not run' % (node, out))
                return
            continue
        if not ns:
            V(P, 'outcome', '%s ran without its fixture: %s' % (node, out))
            return
        n = ns[-1]
        why = rep['setup']['why'] or (rep.get('call') or {}).get('why')
        if s['fixtures'][te['fx']]['ready'][0] == 'two' or ready[n] is None:
            marks.add('setup_error')
            if 'failed' not in (out['setup'], out.get('call')) and not (
                    second and out.get('call') == 'skipped'):
                V(P, 'outcome', '%s: the launch was never ready, but the setup %s' % (node, out))
                return
            if any(b['test'] == t and b['n'] == n for b in bodies):
                V(P, 'outcome', '%s ran although the setup failed' % node)
                return
            continue
        if crash[n] or not _stays(s, insts[n]):
            if out['setup'] != 'passed':
                broken.add(n)       # it may have ended in the same moment
            if n in broken:
                if any(b['test'] == t and b['n'] == n for b in bodies) or \
                        out.get('call') == 'passed':
                    V(P, 'outcome', '%s ran although the setup failed' % node)
                    return
                continue
        if out['setup'] != 'passed':
            V(P, 'outcome', '%s: setup %s: %s' % (node, out['setup'], why))
            return
        got = by_test.get((t, n), {})
        fscope = s['scope'] == 'function'
        gen = te['kind'] in (GEN, AGEN)
        rc_bad = crash[n] is not None
        ok1 = te['end'] == 'pass'
        ok2 = te['end2'] == 'pass'
        exp1 = 1
        if second:
            # the part after the yield
            want_call = ('passed' if ok2 else 'failed') if ok1 else 'skipped'
            exp = 1 if ok1 else 0
            if rc_bad:
                want_call = None
            elif len(got.get(2, ())) != exp:
                V(P, 'count', '%s: the second part ran %d times' % (node, len(got.get(2, ()))))
                return
        else:
            want_call = 'passed' if ok1 and (ok2 or not (gen and fscope)) else 'failed'
            if rc_bad and (te['shut'] or gen):
                want_call = want_call if not ok1 else None
            elif len(got.get(1, ())) != exp1:
                V(P, 'count', '%s ran %d times' % (node, len(got.get(1, ()))))
                return
            elif gen and fscope and len(got.get(2, ())) != (1 if ok1 else 0):
                V(P, 'count', '%s: the second part ran %d times' % (node, len(got.get(2, ()))))
                return
        if want_call is not None and out.get('call') != want_call:
            V(P, 'outcome', '%s is reported as %s instead of %s: %s' % (
                node, out.get('call'), want_call, why))
            return
        marks.add('%s_%s_%s' % (te['kind'], 'shut' if te['shut'] else second, want_call))
        if gen and not second and fscope is False and len(got.get(1, ())) != 1 and not rc_bad:
            V(P, 'count', '%s ran %d times' % (node, len(got.get(1, ()))))
            return
        if not rc_bad and out['teardown'] != 'passed':
            V(P, 'outcome', '%s: teardown %s: %s' % (node, out['teardown'], rep['teardown']['why']))
            return
    # --- a launch that failed is reported
    for e in insts:
        if crash[e['n']] is None:
            continue
        nodes = [r for r in hist(ctx, 'report') if r['i'] > e['i']]
        if not any(r['outcome'] == 'failed' and 'by the test' not in (r['why'] or '')
                   for r in nodes):
            V(P, 'unreported', 'launch %d failed, but no test reports it' % e['n'])
            return


def _stays(s, inst):
    """Whether the launch certainly goes on until it is asked to shut down."""
    fx = s['fixtures'][inst['f']]
    if fx['crash'] is not None:
        return False
    if not fx['idle']:
        return True
    return any(p['life'] is None and not p['fail'] for p in fx['procs'])
