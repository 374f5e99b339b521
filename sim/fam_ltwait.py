"""Scenario family: test threads that wait on live process information."""
import threading
import time

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'ltwait'
PROFILES = ('mix',)
SLACK = 40 * MS
TIMES = (0, 0, 1, 2, 10, 50, 100, 101, 500)


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx, threads=True)
    s = {'procs': [], 'threads': []}
    n = ch.rng_int(1, 3, 'nprocs')
    for i in range(n):
        p = {'at': ch.pick(TIMES), 'out': [], 'exit': ch.pick((None, 0, 0, 1, 20, 300)),
             'code': ch.pick((0, 0, 1, -9)), 'fail': ch.chance(0.08)}
        for j in range(ch.choose(4, 'nout')):
            p['out'].append([ch.pick((0, 0, 1, 10, 60)), ch.pick((1, 1, 2)),
                             ch.pick(('tok%d.%d\n' % (i, j), 'tok%d.%d ü€\n' % (i, j),
                                      'tok%d.%d' % (i, j), '\x1b[31mtok%d.%d\x1b[0m\n' % (i, j))),
                             ch.choose(12, 'cut')])
        s['procs'].append(p)
    for _ in range(ch.rng_int(1, 5, 'nthreads')):
        ops = []
        for _ in range(ch.rng_int(1, 4, 'nops')):
            i = ch.choose(n)
            j = ch.choose(4)
            ops.append([ch.pick((0, 0, 1, 5, 50, 200)), ch.weighted([
                (4, 'startup'), (4, 'shutdown'), (5, 'output'), (2, 'proxy_output'),
                (2, 'proxy_shutdown'), (2, 'iter_info'), (2, 'iter_io'), (2, 'read'),
                (1, 'launch')], 'op'), i, j, ch.pick((0, 0.001, 0.05, 0.3, 1, 2, 2, 10)),
                ch.chance(0.4, 'byname')])
        s['threads'].append({'at': ch.pick((0, 0, 1, 50)), 'ops': ops})
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms], preempt=ctx.k.preempt_mean)
    return s


def token(i, j):
    return 'tok%d.%d' % (i, j)


def run(ctx):
    from launch import LaunchDescription, LaunchService
    from launch.actions import (ExecuteProcess, OpaqueFunction, RegisterEventHandler,
                                TimerAction)
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
    from launch_testing.io_handler import ActiveIoHandler
    from launch_testing.proc_info_handler import ActiveProcInfoHandler
    from launch_testing.tools.process import ProcessProxy, launch_process
    k = ctx.k
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, False)
    common.make_loop()
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    ls = LaunchService()
    actions = {}
    names = {}

    def on_start(ev, context):
        names[ev.process_name] = ev.action
        k.rec('app', what='start', name=ev.process_name, p=index(ev.action))
        info.append(ev)
        k.rec('appd', what='start', name=ev.process_name, p=index(ev.action))

    def on_exit(ev, context):
        k.rec('app', what='exit', name=ev.process_name, p=index(ev.action), code=ev.returncode)
        info.append(ev)
        k.rec('appd', what='exit', name=ev.process_name, p=index(ev.action))

    def on_io(ev):
        k.rec('app', what='io', name=ev.process_name, p=index(ev.action), text=ev.text,
              err=ev.from_stderr)
        io.append(ev)
        k.rec('appd', what='io', name=ev.process_name, p=index(ev.action))

    def index(action):
        for i, a in actions.items():
            if a is action:
                return i
    for i, p in enumerate(s['procs']):
        steps = []
        for dt, fd, text, cut in p['out']:
            raw = text.encode()
            a, b = raw[:cut], raw[cut:]
            steps.append(((dt + 1) * MS, 'out', fd, a or b))
            if a and b:
                steps.append((MS // 2, 'out', fd, b))
        if p['exit'] is not None:
            steps.append((p['exit'] * MS + (0 if steps else MS), 'exit', p['code']))
        k.os.program('simw%d' % i, [Plan(
            steps, {SIGINT: ('die', 0), SIGTERM: ('die', 0), SIGKILL: ('die', 0)},
            spawn=2 if p['fail'] else None)])
        actions[i] = ExecuteProcess(cmd=['/opt/sim/simw%d' % i, 'arg'], name='simw%d' % i,
                                    output='log')
    launched = {}
    for t in s['threads']:
        for dt, op, i, j, timeout, byname in t['ops']:
            if op == 'launch' and i not in launched:
                launched[i] = False
    started = []
    ls.include_launch_description(LaunchDescription([
        OpaqueFunction(function=lambda c: started.append(1)),
        RegisterEventHandler(OnProcessStart(on_start=on_start)),
        RegisterEventHandler(OnProcessStart(
            on_start=lambda ev, unused: io.track(ev.process_name))),
        RegisterEventHandler(OnProcessExit(on_exit=on_exit)),
        RegisterEventHandler(OnProcessIO(on_stdout=on_io, on_stderr=on_io)),
    ] + [TimerAction(period=p['at'] / 1000, actions=[actions[i]])
         for i, p in enumerate(s['procs']) if i not in launched]))

    def wait(what, i, j, timeout, fn, tid):
        k.rec('wait', what=what, p=i, j=j, timeout=timeout, th=tid)
        try:
            r = fn()
            ok = True if r is None else bool(r)
            k.rec('waited', what=what, p=i, ok=ok, th=tid, exc=None)
        except AssertionError:
            k.rec('waited', what=what, p=i, ok=False, th=tid, exc=None)
        except Exception as e:      # noqa
            # A process without output is reported apart from missing output.
            late = what == 'output' and (
                'found no processes' in str(e) or type(e).__name__ == 'NoMatchingProcessException')
            k.rec('waited', what=what, p=i, ok=False, th=tid,
                  exc=None if late else '%s: %s' % (type(e).__name__, str(e)[:100]))

    def do(op, i, j, timeout, byname, tid):
        a = 'simw%d' % i if byname else actions[i]
        if op == 'startup':
            wait(op, i, j, timeout, lambda: info.assertWaitForStartup(a, timeout=timeout), tid)
        elif op == 'shutdown':
            wait(op, i, j, timeout, lambda: info.assertWaitForShutdown(a, timeout=timeout), tid)
        elif op == 'output':
            stream = 'stdout'
            if j < len(s['procs'][i]['out']) and s['procs'][i]['out'][j][1] == 2:
                stream = 'stderr'
            f = io.assertWaitFor if byname else io.waitFor
            wait(op, i, j, timeout, lambda: f(
                token(i, j), process=a, timeout=timeout, stream=stream), tid)
        elif op == 'proxy_output':
            pp = ProcessProxy(actions[i], info, io)
            wait(op, i, j, timeout, lambda: pp.wait_for_output(
                lambda out: token(i, j) in out, timeout=timeout), tid)
        elif op == 'proxy_shutdown':
            pp = ProcessProxy(actions[i], info, io)
            wait(op, i, j, timeout, lambda: pp.wait_for_shutdown(timeout=timeout), tid)
        elif op == 'iter_info':
            k.rec('iter0', what='info', th=tid)
            seen = []
            for x in info:
                seen.append([type(x).__name__, index(x.action)])
                time.sleep(timeout / 10)
            k.rec('iter', what='info', th=tid, seen=seen)
        elif op == 'iter_io':
            k.rec('iter0', what='io', th=tid)
            seen = []
            for x in io:
                seen.append([index(x.action), x.text])
                time.sleep(timeout / 10)
            k.rec('iter', what='io', th=tid, seen=seen)
        elif op == 'read':
            k.rec('iter0', what='read', th=tid)
            r = {'names': sorted(info.process_names()), 'ionames': sorted(io.process_names()),
                 'procs': sorted(index(x) for x in info.processes()),
                 'ioprocs': sorted(index(x) for x in io.processes())}
            try:
                x = info['simw%d' % i if byname else actions[i]]
                r['latest'] = type(x).__name__
            except KeyError:
                r['latest'] = None
            try:
                r['text'] = b''.join(x.text for x in io[actions[i]]) \
                    if actions[i].process_details else None
            except KeyError:
                r['text'] = None
            k.rec('iter', what='read', th=tid, p=i, **r)
        elif op == 'launch':
            if launched.get(i):
                return
            launched[i] = True
            with launch_process(ls, actions[i], info, io) as pp:
                k.rec('launching', p=i, th=tid)
                wait('proxy_output', i, j, timeout, lambda: pp.wait_for_output(
                    lambda out: token(i, j) in out, timeout=timeout), tid)
            k.rec('launched', p=i, th=tid)

    def body(tid, t):
        def fn():
            time.sleep(t['at'] / 1000)
            for dt, op, i, j, timeout, byname in t['ops']:
                time.sleep(dt / 1000)
                do(op, i, j, timeout, byname, tid)
        return fn
    threads = [common.spawn_thread(ctx, 't%d' % n, body(n, t)) for n, t in enumerate(s['threads'])]

    def closer():
        for t in threads:
            t.join(100)
            if t.is_alive():
                k.rec('thread_stuck', name=t.name)
        k.rec('closing')
        while not started:      # nothing to shut down yet
            time.sleep(0.05)
        ls.shutdown()
    c = common.spawn_thread(ctx, 'closer', closer)
    rc = ls.run(shutdown_when_idle=False)
    k.rec('returned', rc=rc)
    c.join(10)
    ctx.final = ([[index(x.action), type(x).__name__] for x in info],
                 [[index(x.action), x.text] for x in io])


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C20']
    H = k.hist
    waits = hist(ctx, 'wait')
    ctx.nontrivial = bool(waits) and bool(hist(ctx, 'app'))
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    for e in hist(ctx, 'thread_stuck'):
        V(P, 'stuck', '%s is stuck' % e['name'])
        return
    for e in hist(ctx, 'thread_exc'):
        V(P, 'raised', '%s failed with %s: %s' % (e['name'], e['exc'], e['msg']))
        return
    if hist(ctx, 'returned')[0]['rc']:
        V(P, 'rc', 'the launch failed')
        return
    app = hist(ctx, 'app')
    appd = {}
    for e in hist(ctx, 'appd'):
        appd.setdefault((e['what'], e['p']), []).append(e)

    def since(w):
        """(moment from which the condition may hold, moment from which it certainly does)"""
        if w['what'] in ('startup', 'shutdown', 'proxy_shutdown'):
            what = 'start' if w['what'] == 'startup' else 'exit'
            a = [e for e in app if e['what'] == what and e['p'] == w['p']]
            if not a:
                return None
            d = appd[what, w['p']][0]
            return a[0], d
        # both streams of one process are one text for a proxy
        outs = [e for e in app if e['what'] == 'io' and e['p'] == w['p']]
        tok = token(w['p'], w['j'])
        fd = 1
        if w['j'] < len(s['procs'][w['p']]['out']):
            fd = s['procs'][w['p']]['out'][w['j']][1]
        buf = b''
        for n, e in enumerate(outs):
            if w['what'] == 'output' and e['err'] != (fd == 2):
                continue
            buf += e['text']
            if tok.encode() in buf:
                return e, appd['io', w['p']][n]
        return None
    for w in waits:
        r = next((e for e in H[w['i']:] if e['k'] == 'waited' and e['th'] == w['th']), None)
        if r is None:
            V(P, 'no_return', 'thread %d never returned from waiting for %s' % (w['th'], w['what']))
            return
        txt = 'thread %d waited for %s of process %d (%s s) from %s to %s' % (
            w['th'], w['what'], w['p'], w['timeout'], T(w['t']), T(r['t']))
        if r['exc']:
            V(P, 'exc', '%s: %s' % (txt, r['exc']))
            return
        x = since(w)
        end = w['t'] + int(w['timeout'] * NS)
        marks = ctx.state_marks
        if r['ok']:
            marks.add('ok_' + w['what'])
            if x is None or x[0]['i'] > r['i']:
                V(P, 'false_ok', '%s: success although it had not happened' % txt)
                return
            if r['t'] > k.latest(k.latest(max(w['t'], x[1]['t']), SLACK), SLACK):
                V(P, 'slow_ok', '%s: it had happened at %s' % (txt, T(x[1]['t'])))
                return
        else:
            marks.add('timeout_' + w['what'])
            if x is not None and x[1]['i'] < w['i']:
                V(P, 'missed_past', '%s: failure although it had happened at %s' % (
                    txt, T(x[1]['t'])))
                return
            if x is not None and x[1]['t'] < end - MS and x[1]['i'] < r['i'] and \
                    not k.stalled_between(w['t'], r['t']):
                V(P, 'missed', '%s: failure although it happened at %s' % (txt, T(x[1]['t'])))
                return
            if r['t'] < end:
                V(P, 'early', '%s: gave up too early' % txt)
                return
            if r['t'] > k.latest(end, SLACK) + k.stalled_between(w['t'], r['t']):
                V(P, 'late', '%s: gave up too late' % txt)
                return
    # snapshots
    for r in hist(ctx, 'iter'):
        i0 = next(e for e in reversed(H[:r['i']]) if e['k'] == 'iter0' and e['th'] == r['th'])
        before = [e for e in app if _done(appd, e) < i0['i']]
        during = [e for e in app if e['i'] < r['i']]
        if r['what'] == 'io':
            want = [[e['p'], e['text']] for e in during if e['what'] == 'io']
            low = len([e for e in before if e['what'] == 'io'])
            if r['seen'] != want[:len(r['seen'])] or len(r['seen']) < low:
                V(P, 'snapshot', 'iterating the output gave %d events, %d to %d were recorded' % (
                    len(r['seen']), low, len(want)))
                return
        elif r['what'] == 'info':
            ps = [p for _, p in r['seen']]
            if len(set(ps)) != len(ps):
                V(P, 'snapshot', 'iterating the processes gave one twice')
                return
            for kind, p in r['seen']:
                ok = {n for n in (
                    _latest(before, p), *[e['what'] for e in during if e['p'] == p])}
                if {'ProcessStarted': 'start', 'ProcessExited': 'exit'}.get(kind) not in ok:
                    V(P, 'snapshot', 'iterating the processes gave a wrong %s' % kind)
                    return
            if {e['p'] for e in before if e['what'] != 'io'} - set(ps):
                V(P, 'snapshot', 'iterating the processes left one out')
                return
        else:
            for key, what, kk in (('procs', ('start', 'exit'), 'p'), ('ioprocs', ('io',), 'p'),
                                  ('names', ('start', 'exit'), 'name')):
                lo = {e[kk] for e in before if e['what'] in what}
                hi = {e[kk] for e in during if e['what'] in what}
                if not (lo <= set(r[key]) <= hi):
                    V(P, 'snapshot', 'reading %s gave %s' % (key, r[key]))
                    return
            txt = b''.join(e['text'] for e in during if e['what'] == 'io' and e['p'] == r['p'])
            low = b''.join(e['text'] for e in before if e['what'] == 'io' and e['p'] == r['p'])
            got = r['text'] or b''
            if not (txt.startswith(got) and len(got) >= len(low)):
                V(P, 'snapshot', 'reading the output gave %r' % got)
                return
            lat = {'ProcessStarted': 'start', 'ProcessExited': 'exit', None: None}[r['latest']]
            ok = {_latest(before, r['p'])} | {e['what'] for e in during if e['p'] == r['p'] and
                                              e not in before}
            if lat not in ok:
                V(P, 'snapshot', 'the latest state of process %d was read as %s' % (r['p'], lat))
                return
    # the final record is complete
    info, io = ctx.final
    want = [[e['p'], e['text']] for e in app if e['what'] == 'io']
    if io != want:
        V(P, 'record', 'the recorded output differs from the events')
    want = {e['p']: e['what'] for e in app if e['what'] != 'io'}
    got = {p: {'ProcessStarted': 'start', 'ProcessExited': 'exit'}[n] for p, n in info}
    if got != want:
        V(P, 'record', 'the recorded processes differ from the events')
    # a context that is left shuts its process down, unless it is gone already
    for e in hist(ctx, 'launched'):
        dead = [x for x in hist(ctx, 'exit') if x['name'] == 'simw%d' % e['p']]
        if not any(x['name'] == 'simw%d' % e['p'] for x in hist(ctx, 'spawn')):
            continue
        if not dead or dead[0]['t'] > k.latest(k.latest(e['t'], SLACK), SLACK) + (
                0 if s['procs'][e['p']]['exit'] is None else 10 * NS):
            V(P, 'left', 'process %d was not shut down when launch_process() was left' % e['p'])


def _done(appd, e):
    for d in appd.get((e['what'], e['p']), []):
        if d['i'] > e['i']:
            return d['i']
    return 10 ** 9


def _latest(before, p):
    r = [e['what'] for e in before if e['p'] == p and e['what'] != 'io']
    return r[-1] if r else None


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)
