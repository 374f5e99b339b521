"""Scenario family: the helpers with which launch_pytest tests wait for processes."""
import asyncio
import contextvars
import time

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'pytestwait'
PROFILES = ('mix',)
CLIENT = contextvars.ContextVar('CLIENT', default=None)
SLACK = 40 * MS
TIMES = (0, 0, 1, 2, 10, 50, 100, 101, 500)
OPS = [(3, 'start'), (4, 'exit'), (4, 'output'), (3, 'stderr'), (3, 'assert_output'),
       (2, 'assert_stderr')]


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx, threads=True)
    s = {'procs': [], 'clients': []}
    n = ch.rng_int(1, 2, 'nprocs')
    for i in range(n):
        p = {'at': ch.weighted([(9, ch.pick(TIMES)), (1, 25000)], 'at'), 'out': [],
             'exit': ch.pick((None, 0, 0, 1, 20, 300, 30000)),
             'code': ch.pick((0, 0, 1, -9)), 'fail': ch.chance(0.05)}
        for j in range(ch.choose(5, 'nout')):
            p['out'].append([ch.pick((0, 0, 1, 10, 60, 400)), ch.pick((1, 1, 2)),
                             ch.pick(('\n', ' ü€\n', '', '\x1b[0m\n')), ch.choose(12, 'cut')])
        s['procs'].append(p)
    for _ in range(ch.rng_int(1, 5, 'nclients')):
        ops = []
        for _ in range(ch.rng_int(1, 4, 'nops')):
            op = ch.weighted(OPS, 'op')
            ops.append([ch.pick((0, 0, 1, 5, 50, 200)), op, ch.choose(n), ch.choose(4),
                        ch.pick((2, 0, 0.001, 0.05, 0.3, 1, 2, 10, None, None)),
                        ch.weighted([(12, None), (2, 'raise'), (2, ch.pick((0, 1, 30, 300)))],
                                    'extra')])
        s['clients'].append({'sync': ch.chance(0.5, 'sync'), 'at': ch.pick((0, 0, 1, 50)),
                             'ops': ops})
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms], preempt=ctx.k.preempt_mean)
    return s


def token(i, j):
    return 'tok%d.%d' % (i, j)


class Raised(Exception):
    pass


def run(ctx):
    from launch import LaunchDescription, LaunchService
    from launch.actions import ExecuteProcess, RegisterEventHandler, TimerAction
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
    from launch_pytest.tools import process as tools
    k = ctx.k
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, False)
    loop = common.make_loop()
    ls = LaunchService()
    actions = {}

    def index(action):
        for i, a in actions.items():
            if a is action:
                return i
    for i, p in enumerate(s['procs']):
        steps = []
        for j, (dt, fd, tail, cut) in enumerate(p['out']):
            raw = (token(i, j) + tail).encode()
            a, b = raw[:cut], raw[cut:]
            steps.append(((dt + 1) * MS, 'out', fd, a or b))
            if a and b:
                steps.append((MS // 2, 'out', fd, b))
        if p['exit'] is not None:
            steps.append((p['exit'] * MS + (0 if steps else MS), 'exit', p['code']))
        k.os.program('simw%d' % i, [Plan(
            steps, {SIGINT: ('die', 0), SIGTERM: ('die', 0), SIGKILL: ('die', 0)},
            spawn=2 if p['fail'] else None)])
        actions[i] = ExecuteProcess(cmd=['/opt/sim/simw%d' % i], name='simw%d' % i,
                                    output='log', cached_output=True)
    recorders = [
        OnProcessStart(on_start=lambda ev, c: k.rec('ev', what='start', p=index(ev.action))),
        OnProcessExit(on_exit=lambda ev, c: k.rec('ev', what='exit', p=index(ev.action))),
        OnProcessIO(
            on_stdout=lambda ev: k.rec('ev', what='io', p=index(ev.action), fd=1, text=ev.text),
            on_stderr=lambda ev: k.rec('ev', what='io', p=index(ev.action), fd=2, text=ev.text))]
    ls.include_launch_description(LaunchDescription(
        [RegisterEventHandler(h) for h in recorders] +
        [TimerAction(period=p['at'] / 1000, actions=[actions[i]])
         for i, p in enumerate(s['procs'])]))

    # which handlers the helpers registered and did not remove
    mine, calls = [], []
    register, unregister = ls.context.register_event_handler, ls.context.unregister_event_handler

    def reg(handler, *a, **kw):
        if CLIENT.get() is not None:
            mine.append(handler)
            calls.append(1)
        return register(handler, *a, **kw)

    def unreg(handler, *a, **kw):
        mine[:] = [h for h in mine if h is not handler]
        return unregister(handler, *a, **kw)
    ls.context.register_event_handler = reg
    ls.context.unregister_event_handler = unreg

    def begin(c, op, i, j, timeout, extra):
        """Record the start of a wait; returns (helper, arguments)."""
        p = s['procs'][i]
        sync = s['clients'][c]['sync']
        if timeout is None:
            # only wait without a limit for what is certain to come
            early = k.now < 1020 * NS and not p['fail']
            fd = 2 if op.endswith('stderr') else 1
            sure = {'start': early and p['at'] == 25000,
                    'exit': early and p['exit'] == 30000}.get(op)
            if sure is None:
                sure = not p['fail'] and j < len(p['out']) and p['out'][j][1] == fd
            if not sure:
                timeout = 1
        name = op if op.startswith('assert') else 'wait_for_' + op
        fn = getattr(tools, name + ('_sync' if sync else ''))
        args = [ls.context, actions[i]]
        if op not in ('start', 'exit'):
            def validate(text):
                ok = token(i, j) in text
                if ok and extra == 'raise':
                    k.rec('checked', c=c, ok='raise')
                    raise Raised('by the condition')
                k.rec('checked', c=c, ok=ok, n=len(text))
                if op.startswith('assert'):
                    assert ok
                    return None
                return ok
            args.append(validate)
        k.rec('wait', c=c, op=op, p=i, j=j, timeout=timeout, extra=extra)
        # no timeout argument is the same as None
        return (lambda: fn(*args)) if timeout is None and j % 2 else (
            lambda: fn(*args, timeout=timeout))

    def end(c, r=None, exc=None):
        if exc is None:
            k.rec('waited', c=c, r=None if r is None else bool(r), exc=None)
        else:
            k.rec('waited', c=c, r=None, exc=type(exc).__name__, msg=str(exc)[:100])

    def sync_client(c, cl):
        def body():
            CLIENT.set(c)
            time.sleep(cl['at'] / 1000)
            for dt, op, i, j, timeout, extra in cl['ops']:
                time.sleep(dt / 1000)
                f = begin(c, op, i, j, timeout, extra)
                try:
                    end(c, f())
                except Exception as e:      # noqa
                    end(c, exc=e)
        return body

    async def async_client(c, cl):
        CLIENT.set(c)
        await asyncio.sleep(cl['at'] / 1000)
        for dt, op, i, j, timeout, extra in cl['ops']:
            await asyncio.sleep(dt / 1000)
            f = begin(c, op, i, j, timeout, extra)
            try:
                if isinstance(extra, int):
                    t = loop.create_task(f())
                    await asyncio.wait([t], timeout=extra / 1000)
                    if not t.done():
                        t.cancel()
                        await asyncio.wait([t])
                    if t.cancelled():
                        k.rec('waited', c=c, r=None, exc='cancelled')
                        continue
                    end(c, t.result())
                else:
                    end(c, await f())
            except Exception as e:      # noqa
                end(c, exc=e)

    async def tests():
        await asyncio.gather(*[async_client(c, cl) for c, cl in enumerate(s['clients'])
                               if not cl['sync']])
        while any(t.is_alive() for t in threads):
            await asyncio.sleep(0.25)
    task = loop.create_task(ls.run_async(shutdown_when_idle=False))
    threads = [common.spawn_thread(ctx, 'c%d' % c, sync_client(c, cl))
               for c, cl in enumerate(s['clients']) if cl['sync']]
    loop.run_until_complete(tests())
    k.rec('closing')
    ls.shutdown(force_sync=True)
    rc = loop.run_until_complete(task)
    k.rec('returned', rc=rc)
    k.rec('left', n=len(mine), n_all=len(calls))


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C23']
    H = k.hist
    waits = hist(ctx, 'wait')
    evs = hist(ctx, 'ev')
    ctx.nontrivial = bool(waits) and bool(evs)
    marks = ctx.state_marks
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    for e in hist(ctx, 'thread_exc'):
        V(P, 'raised', '%s failed with %s: %s' % (e['name'], e['exc'], e['msg']))
        return
    if first(ctx, 'returned')['rc']:
        V(P, 'rc', 'the launch failed')
        return
    if first(ctx, 'left')['n']:
        V(P, 'left', '%d event handlers of helpers that are done stayed behind' % (
            first(ctx, 'left')['n']))
        return
    for w in waits:
        c = w['c']
        sync = s['clients'][c]['sync']
        r = next((e for e in H[w['i']:] if e['k'] == 'waited' and e['c'] == c), None)
        if r is None:
            V(P, 'no_return', 'client %d never returned from waiting for %s' % (c, w['op']))
            return
        op, i, j, to = w['op'], w['p'], w['j'], w['timeout']
        txt = '%s client %d waited for %s of process %d (%s s) from %s to %s' % (
            'threaded' if sync else 'async', c, op, i, to, T(w['t']), T(r['t']))
        end = 10 ** 30 if to is None else w['t'] + int(to * NS)
        cancel = end
        if isinstance(w['extra'], int) and not sync:
            cancel = w['t'] + w['extra'] * MS
        if r['exc'] not in (None, 'cancelled', 'AssertionError', 'Raised'):
            V(P, 'exc', '%s: %s: %s' % (txt, r['exc'], r['msg']))
            return
        if r['exc'] == 'AssertionError' and not op.startswith('assert'):
            V(P, 'exc', '%s: AssertionError: %s' % (txt, r['msg']))
            return
        checks = [e for e in H[w['i']:r['i']] if e['k'] == 'checked' and e['c'] == c]
        stall = k.stalled_between(w['t'], r['t'])
        marks.add('%s_%s_%s' % ('sync' if sync else 'async', op, r['exc'] or r['r']))
        # x: the moment at which what is waited for was known to the launch
        x = None
        if op in ('start', 'exit'):
            for e in evs:
                if e['what'] == op and e['p'] == i and e['i'] > w['i']:
                    x = e
                    break
            ok = r['r'] is True
            # a thread may be preempted between its call and the registration
            sure = not sync or (x is not None and x['t'] > w['t'] + SLACK and not stall)
            if ok and (x is None or x['i'] > r['i']):
                V(P, 'false_ok', '%s: success although it had not happened' % txt)
                return
            if r['exc'] in ('AssertionError', 'Raised'):
                V(P, 'exc', '%s: %s' % (txt, r['exc']))
                return
        else:
            fd = 2 if op.endswith('stderr') else 1
            buf = b''
            for e in evs:
                if e['what'] == 'io' and e['p'] == i and e['fd'] == fd:
                    buf += e['text']
                    if token(i, j).encode() in buf:
                        x = e
                        break
            sure = True
            if not checks and r['exc'] != 'cancelled':
                V(P, 'unchecked', '%s: the condition was not evaluated' % txt)
                return
            last = checks[-1]['ok'] if checks else None
            if r['exc'] == 'Raised':
                ok = True
                if last != 'raise':
                    V(P, 'exc', '%s: %s' % (txt, r['exc']))
                    return
            elif op.startswith('assert'):
                ok = r['exc'] is None
            else:
                ok = r['r'] is True
            if last == 'raise' and r['exc'] != 'Raised':
                V(P, 'swallowed', '%s: an exception of the condition was lost' % txt)
                return
            if ok and not last:
                V(P, 'false_ok', '%s: success although the condition did not hold' % txt)
                return
            if not ok and last and r['exc'] != 'cancelled':
                V(P, 'missed', '%s: failure although the condition held' % txt)
                return
        lim = (lambda t: k.latest(k.latest(t, SLACK), SLACK) + stall)
        if r['exc'] == 'cancelled':
            if x is not None and sure and w['i'] < x['i'] and x['t'] < cancel - SLACK and not stall:
                V(P, 'missed', '%s: no answer although it happened at %s' % (txt, T(x['t'])))
                return
            continue
        if ok:
            if x is not None and r['t'] > lim(max(w['t'], x['t'])):
                V(P, 'slow', '%s: success although it had happened at %s' % (txt, T(x['t'])))
                return
        else:
            if x is not None and sure and x['t'] < end - MS and not stall and x['i'] < r['i']:
                V(P, 'missed', '%s: failure although it happened at %s' % (txt, T(x['t'])))
                return
            if r['t'] < end:
                V(P, 'early', '%s: gave up too early' % txt)
                return
            if r['t'] > lim(end):
                V(P, 'late', '%s: gave up too late' % txt)
                return


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)
