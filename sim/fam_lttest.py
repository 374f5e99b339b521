"""Scenario family: whole launch tests, from the runner down to the simulated processes."""
import contextlib
import re
import types
import unittest

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'lttest'
PROFILES = ('mix', 'output')
SLACK = 60 * MS
TIMES = (0, 0, 1, 10, 50, 100, 500, 501, 1000)
OUTCOMES = ('pass',) * 9 + ('fail', 'error', 'skip', 'exit')
READY_ALL, READY_ASCII = 'süd READY', 'sud. READY'


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx, threads=True)
    runs = []
    for r in range(ch.pick((1, 1, 1, 2, 3), 'nruns')):
        s = {'procs': [], 'keep': ch.chance(0.45, 'keep'), 'skip': ch.chance(0.05, 'skip'),
             'timeout': ch.pick((None, None, None, None, 0.5, 1, 0.05, 0.001, 0), 'timeout'),
             'error': None, 'sigint': None, 'agg': None, 'stop': None}
        # such output is not shown when it is what breaks the summary of dead processes
        ascii = ch.chance(0.6, 'ascii')
        READY = s['text'] = READY_ASCII if ascii else READY_ALL
        for i in range(ch.pick((1, 1, 2, 2, 3, 0), 'nprocs')):
            p = {'at': ch.pick((0, 0, 0, 10, 500)), 'out': [], 'fail': ch.chance(0.06),
                 'exit': ch.pick((None, None, None, None, 0, 20, 300, 1000)), 'code': ch.pick((0, 0, 1, -9)),
                 'int': ch.pick((0, 0, 10, 700, -1)), 'bye': ch.chance(0.3),
                 'linger': ch.chance(0.05)}
            for j in range(ch.choose(4, 'nout')):
                text = ch.pick(('line %d.%d\n' % (i, j), 'uni %d.%d\n' % (i, j) if ascii else 'ünï %d.%d\n' % (i, j), 'tail %d.%d' % (i, j),
                                '\x1b[1mbold %d.%d\x1b[0m\n' % (i, j), READY + '\n',
                                READY + ' %d.%d\n' % (i, j), READY[:5]))
                p['out'].append([ch.pick((0, 0, 1, 10, 60, 400)), ch.pick((1, 1, 1, 2)), text,
                                 ch.choose(14, 'cut')])
            s['procs'].append(p)
        how = ch.weighted([(5, 'now'), (3, 'timer'), (2, 'start'), (2, 'exit'), (3, 'stdout'),
                           (1, 'never'), (1, 'event')], 'ready')
        if not s['procs'] and how in ('start', 'exit', 'stdout'):
            how = 'now'
        if how == 'stdout' and ch.chance(0.8, 'say'):
            out = s['procs'][0]['out']
            out.insert(ch.choose(len(out) + 1), [ch.pick((0, 1, 50)), 1, READY + ch.pick(
                ('\n', '', ' now\n')), ch.choose(14, 'cut')])
        s['ready'] = [how, ch.pick(TIMES, 'ready_at'),
                      0 if how == 'stdout' else ch.choose(max(1, len(s['procs'])), 'rproc')]
        s['active'] = [[ch.pick((0, 0, 0, 1, 10, 100, 1000, 3000), 'dur'),
                        ch.pick(OUTCOMES, 'outcome')] for _ in range(ch.rng_int(1, 3, 'nact'))]
        s['post'] = [ch.pick(('pass', 'pass', 'pass', 'fail', 'error', 'skip'), 'post')
                     for _ in range(ch.rng_int(0, 2, 'npost'))]
        if ch.chance(0.1, 'err?'):
            s['error'] = ch.pick(TIMES + (2000,), 'err_at')
        if ch.chance(0.15, 'sigint?'):
            s['sigint'] = ch.pick(TIMES + (2000, 3), 'sigint_at')
        if ch.chance(0.1, 'stop?'):
            s['stop'] = ch.pick(TIMES, 'stop_at')
        if ch.chance(0.3, 'agg'):
            s['agg'] = [ch.rng_int(1, 4), ch.rng_int(1, 6)]
        s['arg'] = ch.pick((None, 'x', 'other value'), 'arg')
        runs.append(s)
    # launch arguments are the same for every run
    ctx.deco = ch.chance(0.4, 'decorators')
    for s in runs:
        s['arg'] = runs[0]['arg']
        if ctx.deco:
            s['keep'], s['timeout'] = runs[0]['keep'], runs[0]['timeout']
    if ch.chance(0.04, 'interrupt'):
        runs[0]['active'][-1][1] = 'interrupt'
    ctx.via = ch.weighted([(6, 'api'), (3, 'cli'), (1, 'pytest')], 'via')
    ctx.twice = ch.chance(0.2, 'twice')
    # tests that are retried are so in every run
    retry = ctx.retry = [
        [ch.rng_int(1, 4, 'times'), ch.pick((None, None, 0, 0.02, 0.3), 'delay'),
         ch.chance(0.3, 'sub')] if ch.chance(0.25, 'retry') else None for _ in range(3)]
    for s in runs:
        s['fails'] = [ch.choose(5, 'fails') if r else 0 for r in retry]
        for x, r, n in zip(s['active'], retry, s['fails']):
            if r and x[1] in ('pass', 'fail'):
                x[1] = 'pass' if n < r[0] else 'fail'
    # fixtures of the tests, with arguments like the tests have
    fix = ctx.fix = [ch.chance(0.35, 'fixture') for _ in range(5)]
    for s in runs:
        s['tear'] = ch.choose(len(s['active']), 'tear') if fix[1] and ch.chance(0.2) else None
    ctx.desc = {'runs': runs, 'retry': retry, 'fixtures': fix, 'via': ctx.via, 'decorators': ctx.deco, 'stall': [ctx.k.stall_p, ctx.k.stall_max_ms],
                'preempt': ctx.k.preempt_mean}
    return runs


def do_outcome(case, how):
    if how == 'fail':
        case.fail('failed')
    if how == 'error':
        raise RuntimeError('broken')
    if how == 'skip':
        case.skipTest('skipped')
    if how == 'exit':
        raise SystemExit(3)
    if how == 'interrupt':
        raise KeyboardInterrupt()


def build(ctx, runs):
    """A module as a user writes it: a (parametrized) description and test cases."""
    import time
    from launch import LaunchDescription
    from launch.actions import (DeclareLaunchArgument, EmitEvent, ExecuteProcess, OpaqueFunction,
                                RegisterEventHandler, TimerAction)
    from launch.event import Event
    from launch.event_handler import EventHandler
    from launch.event_handlers import (OnProcessExit, OnProcessIO, OnProcessStart, OnShutdown)
    from launch.substitutions import LaunchConfiguration
    import launch_testing
    from launch_testing.actions import ReadyToTest
    from launch_testing.event_handlers import StdoutReadyListener
    import launch_testing.markers
    k = ctx.k
    state = ctx.state = {'run': None, 'actions': {}, 'seen': set(), 'tries': {}}

    class ReadyEvent(Event):
        name = 'sim.ReadyEvent'

    def describe(nr):
        s = runs[nr]
        state['run'] = nr
        k.rec('run', r=nr)
        if s['skip']:
            raise unittest.SkipTest('not today')
        actions = state['actions'] = {}
        for i, p in enumerate(s['procs']):
            name = 'simr%dp%d' % (nr, i)
            steps = []
            for dt, fd, text, cut in p['out']:
                raw = text.encode()
                a, b = raw[:cut], raw[cut:]
                steps.append(((dt + 1) * MS, 'out', fd, a or b))
                if a and b:
                    steps.append((MS // 2, 'out', fd, b))
            if p['exit'] is not None:
                steps.append((p['exit'] * MS + (0 if steps else MS), 'exit', p['code']))
            how = ('ignore',) if p['int'] < 0 else (
                'exit', p['int'] * MS, 0, b'bye\n' if p['bye'] else None)
            k.os.program(name, [Plan(
                steps, {SIGINT: how, SIGTERM: ('die', 0), SIGKILL: ('die', 0)},
                spawn=2 if p['fail'] else None,
                linger=[(5 * MS, 1, b'late\n')] if p['linger'] else ())])
            actions[i] = ExecuteProcess(cmd=['/opt/sim/' + name, 'arg%d' % i],
                                       name=name, output='log')
        how, at, i = s['ready']
        done = [OpaqueFunction(function=lambda c: k.rec('ready', r=nr)), ReadyToTest()]
        ents = [DeclareLaunchArgument('arg', default_value='default'),
                OpaqueFunction(function=lambda c: k.rec(
                    'started', r=nr, arg=LaunchConfiguration('arg').perform(c))),
                RegisterEventHandler(OnShutdown(
                    on_shutdown=lambda ev, c: k.rec('shutdown', r=nr, reason=ev.reason))),
                RegisterEventHandler(OnProcessIO(on_stdout=lambda ev: k.rec(
                    'out', r=nr, p=index(ev.action), text=ev.text)))]
        if how == 'start':
            ents.append(RegisterEventHandler(OnProcessStart(
                target_action=actions[i], on_start=done)))
        elif how == 'exit':
            ents.append(RegisterEventHandler(OnProcessExit(
                target_action=actions[i], on_exit=done)))
        elif how == 'stdout':
            ents.append(RegisterEventHandler(StdoutReadyListener(
                target_action=actions[i], ready_txt=s['text'], actions=done)))
        elif how == 'never':
            ents.append(RegisterEventHandler(EventHandler(
                matcher=lambda ev: False, entities=done)))
        elif how == 'event':
            ents.append(RegisterEventHandler(EventHandler(
                matcher=lambda ev: isinstance(ev, ReadyEvent), entities=done)))
            ents.append(TimerAction(period=at / 1000, actions=[
                EmitEvent(event=ReadyEvent()), EmitEvent(event=ReadyEvent())]))
        for n, p in enumerate(s['procs']):
            ents.append(actions[n] if p['at'] == 0 else TimerAction(
                period=p['at'] / 1000, actions=[actions[n]]))
        if how == 'now':
            ents += done
        elif how == 'timer':
            ents.append(TimerAction(period=at / 1000, actions=done))
        if s['error'] is not None:
            def broken(c):
                k.rec('broken', r=nr)
                raise RuntimeError('broken launch')
            ents.append(TimerAction(period=s['error'] / 1000, actions=[
                OpaqueFunction(function=broken)]))
        if s['sigint'] is not None:
            k.after(s['sigint'] * MS, lambda: (
                state['run'] == nr and k.post_signal(SIGINT)))
        return LaunchDescription(ents), {'number': nr}

    def index(action):
        for i, a in state['actions'].items():
            if a is action:
                return i

    mod = types.ModuleType('sim_launch_test')

    if len(runs) > 1:
        def generate_test_description(nr, label):
            k.rec('label', r=nr, label=label)
            return describe(nr)
    else:
        def generate_test_description():
            return describe(0)
    if ctx.deco:
        if runs[0]['keep']:
            generate_test_description = launch_testing.markers.keep_alive(
                generate_test_description)
        if runs[0]['timeout'] is not None:
            generate_test_description = launch_testing.ready_to_test_action_timeout(
                runs[0]['timeout'])(generate_test_description)
    if len(runs) > 1:
        generate_test_description = launch_testing.parametrize(
            'nr, label', [(n, 'run %d' % n) for n in range(len(runs))])(generate_test_description)
    mod.generate_test_description = generate_test_description

    def alive():
        return sorted(p.tag for p in k.os.alive())

    class TestActive(unittest.TestCase):
        pass

    def about(proc_info, proc_output):
        return [type(proc_info).__name__, type(proc_output).__name__]

    def setUp(self, proc_info, proc_output, number):
        k.rec('fixture', what='setUp', r=number, j=int(self._testMethodName[5]),
              cls=type(self).__name__, args=about(proc_info, proc_output))

    def tearDown(self, number, proc_output, proc_info):
        j = int(self._testMethodName[5])
        k.rec('fixture', what='tearDown', r=number, j=j,
              cls=type(self).__name__, args=about(proc_info, proc_output))
        if j == runs[number]['tear'] and isinstance(self, TestActive):
            raise RuntimeError('broken')

    def setUpClass(cls, proc_info, proc_output, number):
        k.rec('fixture', what='setUpClass', r=number, j=None, cls=cls.__name__,
              args=about(proc_info, proc_output))

    def tearDownClass(cls, number, proc_info, proc_output):
        k.rec('fixture', what='tearDownClass', r=number, j=None, cls=cls.__name__,
              args=about(proc_info, proc_output))
    fixtures = {n: x for n, x, on in zip(
        ('setUp', 'tearDown', 'setUpClass', 'tearDownClass'),
        (setUp, tearDown, classmethod(setUpClass), classmethod(tearDownClass)), ctx.fix) if on}
    for n, x in fixtures.items():
        setattr(TestActive, n, x)

    def make_active(j):
        def test(self, launch_service, proc_info, proc_output, test_args, number):
            s = runs[number]
            if j >= len(s['active']):
                return
            k.rec('same', r=number, ok=self.proc_info is proc_info and
                  self.proc_output is proc_output and self.test_args is test_args and
                  self.launch_service is launch_service)
            dur, how = s['active'][j]
            again = (number, j) in state['seen']
            retry = ctx.retry[j]
            if not again:
                state['seen'].add((number, j))
                k.rec('active', r=number, j=j, alive=alive(), args=dict(test_args))
            if retry:
                k.rec('attempt', r=number, j=j)
                tries = state['tries'][number, j] = state['tries'].get((number, j), 0) + 1
                if how in ('pass', 'fail') and tries <= min(s['fails'][j], retry[0] - 1):
                    time.sleep(dur / 1000 / 4)
                    with self.subTest('part') if retry[2] else contextlib.nullcontext():
                        self.fail('failed %d' % tries)
                    return
            if s['stop'] is not None and j == 0:
                time.sleep(s['stop'] / 1000)
                k.rec('stop', r=number)
                launch_service.shutdown()
            time.sleep(dur / 1000)
            k.rec('active_end', r=number, j=j)
            with self.subTest('part') if retry and retry[2] and how == 'fail' else \
                    contextlib.nullcontext():
                do_outcome(self, how)
        if ctx.retry[j]:
            test = launch_testing.markers.retry_on_failure(
                times=ctx.retry[j][0], delay=ctx.retry[j][1])(test)
        return test

    class TestAfter(unittest.TestCase):
        pass
    if ctx.fix[4]:
        for n, x in fixtures.items():
            setattr(TestAfter, n, x)

    def make_post(j):
        def test(self, proc_info, proc_output, test_args, number):
            s = runs[number]
            if j >= len(s['post']):
                return
            k.rec('same', r=number, ok=self.proc_info is proc_info and
                  self.proc_output is proc_output and self.test_args is test_args)
            seen = {}
            for x in proc_info:
                seen[index(x.action)] = getattr(x, 'returncode', 'running')
            text = {}
            for x in proc_output:
                a = text.setdefault(index(x.action), [b'', b''])
                a[0 if x.from_stdout else 1] += x.text
            k.rec('post', r=number, j=j, alive=alive(), seen=seen, text=text,
                  args=dict(test_args))
            if ctx.profile == 'output':
                assertions(ctx, number, proc_info, proc_output, text)
            do_outcome(self, s['post'][j])
            k.rec('post_end', r=number, j=j)
        return test
    for j in range(max(len(s['active']) for s in runs)):
        setattr(TestActive, 'test_%d' % j, make_active(j))
    for j in range(max(len(s['post']) for s in runs)):
        setattr(TestAfter, 'test_%d' % j, make_post(j))
    mod.TestActive = TestActive
    mod.TestAfter = launch_testing.post_shutdown_test()(TestAfter)
    for c in (TestActive, TestAfter):
        c.__module__ = mod.__name__
    return mod


ANSI = re.compile(r'\x1b\[[0-9]+m')


def assertions(ctx, nr, proc_info, proc_output, text):
    """Whatever was written can be asserted, however it was received, and nothing else."""
    from launch_testing.asserts import (assertExitCodes, assertInStderr, assertInStdout,
                                        assertInStream, assertSequentialStdout)
    from launch_testing.tools import basic_output_filter
    k, s, actions = ctx.k, ctx.state and ctx.runs[nr], ctx.state['actions']
    streams = {1: 'stdout', 2: 'stderr'}

    def attempt(what, fn, i, want=True):
        try:
            fn()
            ok = True
        except AssertionError:
            ok = False
        except Exception as e:      # noqa
            ok = type(e).__name__
            if ok != want:
                ok += ': %s' % str(e)[:100]
        k.rec('assertion', r=nr, what=what, p=i, ok=ok, want=want)
    procs = {i: x for i in range(len(s['procs'])) for x in k.procs.values()
             if x.tag == 'simr%dp%d' % (nr, i)}
    for i, proc in procs.items():
        attempt('code', lambda: assertExitCodes(
            proc_info, [proc.returncode], actions[i]), i)
        attempt('other_code', lambda: assertExitCodes(
            proc_info, [proc.returncode + 1], process='simr%dp%d' % (nr, i)), i, False)
        codes = {x.returncode for x in procs.values()}
        if len(procs) == sum(1 for x in proc_info):
            attempt('all_codes', lambda: assertExitCodes(proc_info, sorted(codes)), i)
            attempt('without_code', lambda: assertExitCodes(
                proc_info, sorted(codes - {proc.returncode})), i, False)
    for i, p in enumerate(s['procs']):
        if i not in text:
            continue
        proc = procs[i]
        plain = {fd: ANSI.sub('', proc.written[fd].decode(errors='replace')) for fd in (1, 2)}
        lines, whole = {}, {}
        for fd in (1, 2):
            lines[fd], buf = [], b''
            for t in p['out']:
                buf += t[2].encode() if t[1] == fd else b''
                if t[1] == fd and proc.written[fd].startswith(buf):
                    lines[fd].append(t[2].strip())
                    whole[fd] = buf.decode()
        for fd, fn in ((1, assertInStdout), (2, assertInStderr)):
            other = 3 - fd
            name = 'simr%dp%d' % (nr, i)
            for n, t in enumerate(lines[fd]):
                pt = ANSI.sub('', t)
                attempt('in%d' % fd, lambda: fn(proc_output, pt, actions[i]), i)
                attempt('raw%d' % fd, lambda: fn(
                    proc_output, t, actions[i], strip_ansi_escape_sequences=False), i)
                attempt('elsewhere%d' % fd, lambda: assertInStream(
                    proc_output, pt, name, stream=streams[other]), i, pt in plain[other])
                attempt('regex%d' % fd, lambda: fn(
                    proc_output, re.compile(re.escape(pt)), name, 'arg%d' % i), i)
                attempt('args%d' % fd, lambda: fn(
                    proc_output, pt, name, ['arg%d' % i, 'more']), i, 'NoMatchingProcessException')
                attempt('longer%d' % fd, lambda: fn(
                    proc_output, pt + 'x', actions[i]), i, pt + 'x' in plain[fd])
                word = ANSI.sub('', lines[fd][n // 2])[:4]
                kept = ''.join(x for x in plain[fd].splitlines(True) if not x.startswith(word))
                attempt('prefix%d' % fd, lambda: fn(
                    proc_output, pt, actions[i], output_filter=basic_output_filter(
                        filtered_prefixes=[word])), i, pt in kept)
                attempt('pattern%d' % fd, lambda: fn(
                    proc_output, pt, actions[i], output_filter=basic_output_filter(
                        filtered_patterns=[re.escape(word)], filtered_prefixes=[])), i, pt in kept)
            if lines[fd]:
                attempt('list%d' % fd, lambda: fn(
                    proc_output, [ANSI.sub('', x) for x in lines[fd]], actions[i]), i)
                attempt('whole%d' % fd, lambda: fn(
                    proc_output, ANSI.sub('', whole[fd]), actions[i]), i)
                t = ANSI.sub('', lines[fd][-1])
                attempt('often%d' % fd, lambda: fn(
                    proc_output, [t] * (plain[fd].count(t) + 1), actions[i]), i, False)
            attempt('none%d' % fd, lambda: fn(proc_output, 'never', actions[i]), i, False)
            attempt('anywhere%d' % fd, lambda: fn(proc_output, 'never', None), i, False)

        def seq(*texts):
            with assertSequentialStdout(proc_output, actions[i]) as cm:
                for t in texts:
                    cm.assertInStdout(t)
        attempt('sequence', lambda: seq(*lines[1]), i)
        raw = ''.join(proc.written[fd].decode(errors='replace') for fd in (1, 2))
        once = [t for t in lines[1] if t[-1].isdigit() and raw.count(t) == 1]
        for t in once:
            attempt('twice', lambda: seq(t, t), i, False)
        if len(once) > 1:
            attempt('reverse', lambda: seq(once[-1], once[0]), i, False)


def run(ctx):
    from launch_testing.junitxml import unittestResultsToXml
    from launch_testing.loader import LoadTestsFromPythonModule
    from launch_testing.ready_aggregator import ReadyAggregator
    from launch_testing.test_runner import LaunchTestRunner
    k = ctx.k
    runs = ctx.runs = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, True)
    common.make_loop()
    mod = build(ctx, runs)
    test_runs = LoadTestsFromPythonModule(mod, name='sim')

    def prepare(test_runs):
        for nr, tr in enumerate(test_runs):
            if runs[nr]['timeout'] is not None and not ctx.deco:
                tr.timeout = runs[nr]['timeout']
            if runs[nr]['keep'] and not ctx.deco:
                tr._test_description_function.__markers__ = {'keep_alive': True}
    prepare(test_runs)
    agg = runs[0]['agg']
    if agg:
        def called():
            k.rec('agg_parent')
        a = ReadyAggregator(called, agg[0])

        def call(n):
            def fn():
                k.rec('agg_call', n=n)
                a.ready_fn()
                k.rec('agg_ret', n=n)
            return fn
        for n in range(agg[1]):
            common.spawn_thread(ctx, 'agg%d' % n, call(n))
    args = [] if runs[0]['arg'] is None else ['arg:=' + runs[0]['arg']]
    if args and ctx.twice:
        args.insert(0, 'arg:=first')
    made = []

    class Runner(LaunchTestRunner):

        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            made.append(self)

        def run(self):
            k.rec('begin')
            try:
                self.results = super().run()
                return self.results
            except Exception as e:      # noqa
                self.error = e
                raise
    try:
        if ctx.via == 'api':
            runner = Runner(test_runs, args)
            runner.validate()
            results = runner.run()
        elif ctx.via == 'cli':
            results, test_runs = via_cli(ctx, mod, args, Runner, made, prepare)
        else:
            results, test_runs = via_pytest(ctx, mod, args, Runner, made, prepare)
    except (Exception, SystemExit) as e:      # noqa
        k.rec('runner_raised', exc=type(e).__name__, msg=str(e))
        return
    ctx.state['run'] = None
    ctx.results = []
    for tr, res in results.items():
        ctx.results.append({
            'r': test_runs.index(tr), 'type': type(res).__name__, 'ok': res.wasSuccessful(),
            'run': res.testsRun, 'failures': len(res.failures), 'errors': len(res.errors),
            'skipped': len(res.skipped), 'each': sorted(
                [c.id().split(' ')[0], [len([1 for y in z if y[0] == c]) for z in (
                    res.failures, res.errors, res.skipped)]] for c in res.testCases)})
    k.rec('results', res=ctx.results)
    root = unittestResultsToXml(name='sim', test_results=results).getroot()
    ctx.xml = report(root)


def report(root):
    """The contents of a report: its sums, then one part for each run."""
    return [{y: int(root.get(y)) for y in ('tests', 'failures', 'errors')}] + [
        {'tests': int(x.get('tests')), 'failures': int(x.get('failures')),
         'errors': int(x.get('errors')), 'skipped': int(x.get('skipped')),
         'cases': len(x), 'each': sorted(
             [c.get('classname') + '.' + c.get('name').split(' ')[0],
              [len([1 for y in c.findall(z) if y.get('message')]) for z in (
                  'failure', 'error', 'skipped')]] for c in x)} for x in root]


def write_test(ctx, mod):
    import os
    import sys
    names = types.ModuleType('simlt')
    names.NAMES = {n: getattr(mod, n) for n in (
        'generate_test_description', 'TestActive', 'TestAfter')}
    sys.modules['simlt'] = names
    d = os.path.join(ctx.scratch, 'tests')
    os.makedirs(d)
    path = os.path.join(d, 'sim_launch_test.py')
    with open(path, 'w') as f:
        f.write('import simlt\nglobals().update(simlt.NAMES)\n')
    return d, path


def via_cli(ctx, mod, args, runner_cls, made, prepare):
    """As launch_test does it for a file."""
    import argparse
    import os
    import xml.etree.ElementTree as ET
    from launch_testing import launch_test
    d, path = write_test(ctx, mod)

    class Runner(runner_cls):

        def run(self):
            prepare(self._test_runs)
            return super().run()
    parser = argparse.ArgumentParser()
    launch_test.add_arguments(parser)
    xml = os.path.join(d, 'out.xml')
    rc = launch_test.run(parser, parser.parse_args(
        ['--package-name', 'sim_package', '--junit-xml', xml, path] + args), Runner)
    ctx.exit = ('exit code', rc, 0)
    ctx.file_xml = report(ET.parse(xml).getroot())
    return made[0].results, made[0]._test_runs


def via_pytest(ctx, mod, args, runner_cls, made, prepare):
    """As an item of a pytest session."""
    import functools
    import os
    from launch_testing.pytest import hooks
    import pytest
    fn = mod.generate_test_description
    # the copies of the runs share the functions of the test
    mod.generate_test_description = pytest.mark.launch_test(fn)
    d, path = write_test(ctx, mod)

    class Runner(runner_cls):

        def run(self):
            prepare(self._test_runs)
            return super().run()
    real = hooks.LaunchTestItem.from_parent
    hooks.LaunchTestItem.from_parent = functools.partial(real, runner_cls=Runner)
    reports = []

    class Recorder:
        def pytest_runtest_logreport(self, report):
            reports.append([report.when, report.outcome])
            if report.when == 'call' and report.longrepr:
                ctx.why = str(report.longrepr)
    rc = pytest.main(
        ['--disable-plugin-autoload', '-p', 'no:cacheprovider',
         '-p', 'no:faulthandler', '-p', 'no:unraisableexception', '-p', 'no:threadexception',
         '-p', 'no:warnings', '-p', 'no:logging', '-p', 'no:junitxml', '-p', 'no:doctest',
         '-p', 'no:unittest', '--capture=no', '--assert=plain', '--rootdir=' + d,
         '--import-mode=importlib', '-c', os.devnull, path] +
        (['--launch-args'] + args if args else []),
        plugins=[hooks, Recorder()])
    ctx.k.rec('session', rc=int(rc), reports=reports)
    ctx.exit = ('outcome in pytest', [o for w, o in reports if w == 'call'],
                ['passed'])
    if made and hasattr(made[0], 'error') and ctx.exit[1] == ['failed']:
        raise made[0].error
    if not made or not hasattr(made[0], 'results'):
        raise RuntimeError(getattr(ctx, 'why', 'no reason')[-300:])
    return made[0].results, made[0]._test_runs


def judge(ctx):
    runs = getattr(ctx, 'runs', None)
    if runs is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C21']
    H = k.hist
    marks = ctx.state_marks
    ctx.nontrivial = bool(hist(ctx, 'active')) or bool(hist(ctx, 'shutdown'))
    raised = hist(ctx, 'runner_raised')
    if ctx.aborted or raised:
        nr = max([e['r'] for e in hist(ctx, 'run')], default=None)
        key, why = ('hang', '%s: %s' % tuple(ctx.aborted)) if ctx.aborted else (
            'raised', '%(exc)s: %(msg)s' % raised[0])
        if nr is not None:
            at = [e['i'] for e in hist(ctx, 'run')][-1]
            mine = [e for e in H[at:] if e.get('r', nr) == nr]
            if ctx.aborted and too_early(runs[nr], mine):
                key = 'timeout_before_run'
            elif raised and raised[0]['exc'] == 'UnicodeDecodeError' and any(
                    max(p.written[1] + p.written[2], default=0) > 127
                    for p in k.procs.values() if p.tag.startswith('simr%dp' % nr)):
                key = 'summary_non_ascii'
            elif raised and raised[0]['exc'] == 'AttributeError' and any(
                    e['k'] == 'active_end' and runs[nr]['active'][e['j']][1] == 'interrupt'
                    for e in mine):
                key = 'interrupted'
        marks.add(key)
        V(P, key, 'run %s: the runner %s: %s' % (
            nr, 'does not end' if ctx.aborted else 'failed', why))
        return
    res = ctx.results
    starts = {e['r']: e for e in hist(ctx, 'run')}
    if [x['r'] for x in res] != sorted(starts):
        V(P, 'results', 'results for the runs %s, but %s were started' % (
            [x['r'] for x in res], sorted(starts)))
        return
    if len(res) < len(runs) and res[-1]['type'] != 'FailResult':
        V(P, 'results', 'run %d was not started' % len(res))
        return
    ends = [e['i'] for e in hist(ctx, 'run')][1:] + [first(ctx, 'results')['i']]
    for x, end in zip(res, ends):
        if not judge_run(ctx, x['r'], runs[x['r']], x, H[starts[x['r']]['i']:end], H[end]):
            return
    sums = {x: sum(b[y] for b in res) for x, y in (
        ('tests', 'run'), ('failures', 'failures'), ('errors', 'errors'))}
    for a, b in zip(ctx.xml, [None] + res):
        want = sums if b is None else {
            'tests': b['run'], 'failures': b['failures'], 'errors': b['errors'],
            'skipped': b['skipped'], 'cases': b['run'], 'each': b['each']}
        if a != want:
            V(P, 'xml', 'the report says %s, the result is %s' % (a, want))
            return
    if ctx.via != 'api':
        marks.add(ctx.via)
        what, got, good = ctx.exit
        if (got == good) != all(x['ok'] for x in res):
            V(P, 'exit', 'the %s was %s, the results are %s' % (
                what, got, [x['ok'] for x in res]))
            return
        if ctx.via == 'cli' and ctx.file_xml != ctx.xml:
            V(P, 'xml', 'the report in the file says %s, should be %s' % (ctx.file_xml, ctx.xml))
            return
    agg = runs[0]['agg']
    if agg:
        calls = hist(ctx, 'agg_call')
        par = hist(ctx, 'agg_parent')
        for e in hist(ctx, 'thread_exc'):
            V(P, 'agg_raised', '%s failed with %s: %s' % (e['name'], e['exc'], e['msg']))
            return
        marks.add('agg_%d_of_%d' % tuple(agg))
        rets = hist(ctx, 'agg_ret')
        if len(par) > 1 or (par and len(calls) < agg[0]):
            V(P, 'agg', 'the aggregated ready function was called %d times (%d of %d calls)' % (
                len(par), len(calls), agg[0]))
        elif par and sum(1 for e in calls if e['i'] < par[0]['i']) < agg[0]:
            V(P, 'agg', 'the aggregated ready function was called too early')
        elif len(rets) >= max(agg[0], len(calls)) and not par:
            V(P, 'agg', 'the aggregated ready function was not called')
    if ctx.profile == 'output':
        for e in hist(ctx, 'assertion'):
            if e['ok'] != e['want']:
                said = {True: 'success', False: 'a failure'}
                V(['C25'], 'assert_' + e['what'],
                  'asserting the output or exit code of process %d (%s) gave %s instead of %s' % (
                      e['p'], e['what'], said.get(e['ok'], e['ok']),
                      said.get(e['want'], e['want'])))
                return


def too_early(s, H):
    """Whether the time to get ready had passed before the launch began to run."""
    started = [e['t'] for e in H if e['k'] == 'started']
    return s['timeout'] is not None and not any(e['k'] == 'active' for e in H) and (
        not started or started[0] >= H[0]['t'] + int(s['timeout'] * NS))


def judge_run(ctx, nr, s, res, H, after):
    k = ctx.k
    marks = ctx.state_marks

    def V(key, msg, props=('C21',)):
        ctx.violation(list(props), key, 'run %d: %s' % (nr, msg))
        return False

    def get(kind, r=nr):
        return [e for e in H if e['k'] == kind and e.get('r', nr) == r]

    def lim(t):
        return k.latest(k.latest(t, SLACK), SLACK)
    if s['skip']:
        marks.add('skip')
        if res['type'] != 'SkipResult' or not res['ok']:
            return V('skip', 'skipped, but its result is %s' % res['type'])
        if get('active') or get('post') or get('started'):
            return V('skip', 'skipped, but something was run')
        return True
    ready, active, shut = get('ready'), get('active'), get('shutdown')
    started = get('started')
    if not started:
        return V('start', 'the description was never run')
    want_arg = 'default' if s['arg'] is None else s['arg']
    if started[0]['arg'] != want_arg:
        return V('arg', 'the launch argument was %r' % started[0]['arg'])
    T0 = started[0]['t']
    T_begin = H[0]['t']
    timeout = int((15 if s['timeout'] is None else s['timeout']) * NS)
    procs = {p.tag: p for p in k.procs.values() if p.tag.startswith('simr%dp' % nr)}
    ctrl_c = get('signal_raised')
    broken = get('broken')
    stop = get('stop')
    # --- order of the active tests
    if active and (not ready or ready[0]['i'] > active[0]['i']):
        return V('unready', 'an active test ran before the launch was ready')
    js = [e['j'] for e in active]
    if js != list(range(len(js))):
        return V('order', 'the active tests ran as %s' % js)
    for e in active + get('post'):
        want = {} if s['arg'] is None else {'arg': s['arg']}
        if e['args'] != want:
            return V('args', 'a test got the arguments %s' % e['args'])
    if not all(e['ok'] for e in get('same')):
        return V('attributes', 'the attributes of a test are not the arguments it gets')
    for e in get('label'):
        if e['label'] != 'run %d' % nr:
            return V('param', 'the description was given the parameter %r' % e['label'])
    ended = get('active_end')
    n = len(s['active'])
    # an interrupted test ends them all
    for j, (dur, how) in enumerate(s['active']):
        if how == 'interrupt':
            n = j + 1
            break
    interrupted = how == 'interrupt'
    finished = len(ended) == n
    D = ended[-1] if finished else None
    # --- readiness
    may_be_ready = ready and ready[0]['t'] <= lim(lim(T0) + timeout)
    if active and not may_be_ready:
        return V('late_ready', 'ready %s after its start, but the limit is %s s' % (
            D_(ready[0]['t'] - T0), timeout / NS))
    # the earliest reason for the launch to end
    why = [e['t'] for e in ctrl_c[:1] + broken[:1] + stop[:1]]
    must_be_ready = ready and ready[0]['t'] < T_begin + timeout - MS and \
        not k.stalled_between(T_begin, ready[0]['t'] + MS)
    # a launch that ends at once may overtake the thread of the tests
    if must_be_ready and not active and not (shut and shut[0]['t'] <= lim(ready[0]['t'])):
        return V('not_run', 'ready %s after its start, but no active test was run' % (
            D_(ready[0]['t'] - T0)))
    if active and active[0]['t'] > lim(ready[0]['t']):
        return V('slow_start', 'ready at %s, but the active tests started at %s' % (
            T(ready[0]['t']), T(active[0]['t'])))
    marks.add('ready' if active else 'unready')
    # --- shutdown
    if not shut and not broken:
        return V('no_shutdown', 'ended without a shutdown')
    if shut:
        sh = shut[0]
        reasons = why + ([D['t']] if finished else [])
        if not active:
            reasons.append(T_begin + timeout)
        if min(reasons, default=10 ** 30) > sh['t']:
            # the launch was idle
            marks.add('idle')
            if s['keep']:
                return V('keep', 'a launch to be kept alive was shut down for no reason')
            up = [p.tag for p in procs.values()
                  if p.spawn_t <= sh['t'] - MS and (p.exit_t is None or p.exit_t > sh['t'])]
            if up:
                return V('shut', 'shut down for no reason while %s ran' % up)
        if finished and sh['t'] > lim(D['t']):
            return V('late_shutdown', 'the active tests ended at %s, the shutdown came at %s' % (
                T(D['t']), T(sh['t'])))
        if not active and not ready and sh['t'] > lim(lim(T0) + timeout):
            return V('timeout_before_run' if too_early(s, H) else 'late_timeout', 'not ready until %s, the shutdown came at %s' % (
                T(T0 + timeout), T(sh['t'])))
    # --- the end
    last = max([p.exit_t for p in procs.values() if p.exit_t is not None] +
               [e['t'] for e in shut[:1] + broken[:1]])
    post = get('post')
    gone = [p for p in procs.values() if p.exit_t is None]
    if gone:
        return V('left', 'process %s is still running' % gone[0].tag)
    if res['type'] == 'FailResult':
        marks.add('fail')
        if res['ok']:
            return V('verdict', 'a failed run counts as successful')
        if post:
            return V('post', 'a post-shutdown test ran in a failed run')
        if finished and not interrupted and D['t'] < last - 2 * SLACK and \
                not k.stalled_between(D['t'], last):
            return V('verdict', 'failed although the active tests ended at %s and the launch at '
                     '%s' % (T(D['t']), T(last)))
        if finished and not interrupted and shut and D['i'] < shut[0]['i'] and \
                min(why, default=10 ** 30) > last and (s['keep'] or any(
                    q.spawn_t <= shut[0]['t'] - MS and q.exit_t > shut[0]['t']
                    for q in procs.values())):
            return V('verdict', 'failed although the active tests ended at %s, which was the '
                     'reason for the shutdown' % T(D['t']))
        return True
    if res['type'] != 'TestResult':
        return V('verdict', 'its result is a %s' % res['type'])
    marks.add('done')
    if not finished or interrupted:
        return V('verdict', 'not reported as failed although %d of %d active tests ended' % (
            len(ended), n))
    if D['t'] > lim(last):
        return V('verdict', 'not reported as failed although the active tests ended at %s and '
                 'the launch at %s' % (T(D['t']), T(last)))
    if [e['j'] for e in post] != list(range(len(s['post']))):
        return V('post', 'the post-shutdown tests ran as %s' % [e['j'] for e in post])
    hows = [h for _, h in s['active']] + s['post']
    bad = {'fail': 0, 'error': 0, 'skip': 0}
    for h in hows:
        h = {'exit': 'error'}.get(h, h)
        if h in bad:
            bad[h] += 1
    if s['tear'] is not None:
        bad['error'] += 1
    runs = ctx.runs
    total = max(len(x['active']) for x in runs) + max(len(x['post']) for x in runs)
    got = (res['ok'], res['run'], res['failures'], res['errors'], res['skipped'])
    want = (bad['fail'] + bad['error'] == 0, total, bad['fail'], bad['error'], bad['skip'])
    if got != want:
        return V('verdict', '(successful, tests, failures, errors, skipped) is %s, should be %s' %
                 (got, want))
    for j, r in enumerate(ctx.retry[:len(s['active'])]):
        if r:
            tries = [e['t'] for e in get('attempt') if e['j'] == j]
            want = min(s['fails'][j] + 1, r[0]) if s['active'][j][1] in ('pass', 'fail') else 1
            if len(tries) != want:
                return V('retry', 'active test %d was tried %d times, not %d times' % (
                    j, len(tries), want))
            if any(b - a < (r[1] or 0) * NS - MS for a, b in zip(tries, tries[1:])):
                return V('retry', 'active test %d was tried again too early' % j)
            marks.add('retried_%d' % want)
    # --- fixtures are run as those of any test case, with the arguments they ask for
    names = ('setUp', 'tearDown', 'setUpClass', 'tearDownClass')
    nact, npost = (max(len(x[w]) for x in runs) for w in ('active', 'post'))
    want = []
    for cls, m, on in (('TestActive', nact, True), ('TestAfter', npost, ctx.fix[4])):
        if on and m:
            one = [(x, cls, j) for j in range(m) for x in names[:2]]
            want += [('setUpClass', cls, None)] + one + [('tearDownClass', cls, None)]
    want = [x for x in want if ctx.fix[names.index(x[0])]]
    got = [(e['what'], e['cls'], e['j']) for e in get('fixture')]
    if got != want:
        return V('fixtures', 'the fixtures ran as %s instead of %s' % (got, want))
    for e in get('fixture'):
        if e['args'] != ['ActiveProcInfoHandler', 'ActiveIoHandler'] and e['cls'] == 'TestActive':
            return V('fixtures', '%s got %s' % (e['what'], e['args']))
    for e in post:
        if e['i'] < D['i'] or (shut and e['i'] < shut[0]['i']):
            return V('post_early', 'a post-shutdown test ran before the shutdown')
        if e['alive']:
            return V('post_early', 'a post-shutdown test ran while %s was running' % e['alive'])
        for tag, p in procs.items():
            i = int(tag.split('p')[-1])
            if e['seen'].get(i, 'nothing') != p.returncode:
                return V('codes', 'a post-shutdown test saw %s of process %d, not exit code %s' % (
                    e['seen'].get(i, 'nothing'), i, p.returncode))
            text = e['text'].get(i, [b'', b''])
            for fd in (1, 2):
                if not text[fd - 1].startswith(p.written[fd]):
                    return V('text', 'a post-shutdown test saw %r of process %d, which wrote %r' % (
                        text[fd - 1], i, p.written[fd]))
    # --- readiness by output
    if s['ready'][0] == 'stdout':
        i = s['ready'][2]
        buf = b''
        outs = [e for e in get('out') if e['p'] == i]
        n = 0
        for e in outs:
            buf += e['text']
            if s['text'].encode() in buf:
                break
        else:
            e = None
        if (e is None) != (not ready):
            return V('listener', 'the text was%s written, but ready was%s declared' % (
                ' not' if e is None else '', '' if ready else ' not'), ('C21', 'C25'))
        if e is not None and not (k.earliest(e['t'], SLACK) <= ready[0]['t'] <= lim(e['t'])):
            return V('listener', 'the text was written at %s, ready declared at %s' % (
                T(e['t']), T(ready[0]['t'])), ('C21', 'C25'))
    return True


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)


def D_(t):
    return '%.6fs' % (t / NS)
