"""Scenario family: threads that drive one launch service across several runs."""
import asyncio
import time

from . import common
from .common import MS, NS, SIGINT, first, hist
from .procs import Plan

NAME = 'threads'
SLACK = 20 * MS
PROFILES = ('mix',)


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx, threads=True)
    s = {'runs': [], 'threads': []}
    for _ in range(ch.pick((1, 1, 2, 3), 'nruns')):
        s['runs'].append({
            'mode': ch.pick(('run', 'async'), 'mode'),
            'idle': ch.chance(0.5, 'idle'),
            'gap': ch.pick((0, 0, 1, 30), 'gap'),
            'keep': ch.pick((0, 0, 5, 50, 200), 'keepalive')})
    n = ch.rng_int(1, 4, 'nthreads')
    for i in range(n):
        ops = []
        for _ in range(ch.rng_int(1, 6, 'nops')):
            ops.append([ch.pick((0, 0, 0, 1, 2, 10, 50, 100), 'dt'), ch.weighted(
                [(6, 'emit'), (3, 'include'), (3, 'shutdown'), (1, 'run'), (1, 'burst'), (1, 'props')], 'op')])
        s['threads'].append({'ops': ops, 'start': ch.pick(('before', 'in_run'), 'start')})
    s['pre'] = [ch.pick(('emit', 'include')) for _ in range(ch.choose(3, 'npre'))]
    s['loop'] = []
    for _ in range(ch.choose(4, 'nloop')):
        s['loop'].append([ch.pick((0, 1, 2, 10, 50, 100)), ch.pick(
            ('emit', 'shutdown', 'second_run', 'sigint', 'shutdown_sync'), 'loopop')])
    s['proc'] = None
    if ch.chance(0.3, 'proc'):
        s['proc'] = {'life': ch.pick((None, 0, 20, 100)), 'react': ch.pick((0, 10, 100))}
    s['echo'] = ch.chance(0.3, 'echo')      # the handler emits again
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms], preempt=ctx.k.preempt_mean)
    return s


def run(ctx):
    import launch
    from launch import Event, EventHandler, LaunchDescription, LaunchService
    from launch.actions import (ExecuteProcess, OpaqueFunction, RegisterEventHandler, TimerAction)
    from launch.event_handlers import OnShutdown
    k = ctx.k
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, True)
    loop = common.make_loop()
    state = {'run': -1}

    class Ev(Event):
        name = 'sim.Ev'

        def __init__(self, tag):
            self.tag = tag

    class Echo(Event):
        name = 'sim.Echo'

        def __init__(self, tag):
            self.tag = tag

    def on_ev(event, context):
        k.rec('handled', tag=event.tag, run=state['run'])
        if s['echo']:
            context.emit_event_sync(Echo(event.tag))

    ls = LaunchService()
    ls.context.register_event_handler(OnShutdown(
        on_shutdown=lambda ev, context: k.rec('ev_shutdown', run=state['run'], reason=ev.reason)))
    class H(EventHandler):
        def __init__(self, cls, fn):
            super().__init__(matcher=lambda e: isinstance(e, cls))
            self.fn = fn

        def handle(self, event, context):
            super().handle(event, context)
            self.fn(event, context)
    ls.context.register_event_handler(H(Ev, on_ev))
    ls.context.register_event_handler(H(Echo, lambda e, c: k.rec('echo', tag=e.tag)))

    def call(what, tag, fn):
        k.rec('call', what=what, tag=tag)
        try:
            fn()
            k.rec('ret', what=what, tag=tag)
        except Exception as e:         # noqa
            k.rec('ret', what=what, tag=tag, exc=type(e).__name__, msg=str(e)[:120])

    def ld(tag):
        return LaunchDescription([OpaqueFunction(
            function=lambda c: k.rec('handled', tag=tag, run=state['run']))])

    def emit(tag):
        call('emit', tag, lambda: ls.emit_event(Ev(tag)))

    def include(tag):
        call('include', tag, lambda: ls.include_launch_description(ld(tag)))

    def wrong_thread():
        lp = asyncio.new_event_loop()
        try:
            lp.run_until_complete(ls.run_async())
        finally:
            lp.close()

    def thread(i):
        def body():
            for j, (dt, op) in enumerate(s['threads'][i]['ops']):
                if dt:
                    time.sleep(dt / 1000)
                tag = (i, j)
                if op == 'emit':
                    emit(tag)
                elif op == 'include':
                    include(tag)
                elif op == 'shutdown':
                    call('shutdown', tag, lambda: ls.shutdown())
                elif op == 'run':
                    call('run', tag, wrong_thread)
                elif op == 'burst':
                    for x in range(4):
                        emit((i, j, x))
                elif op == 'props':
                    call('props', tag, lambda: (ls.event_loop, ls.task, ls.context))
        return body

    threads = []

    def start(which):
        for i, t in enumerate(s['threads']):
            if t['start'] == which:
                threads.append(common.spawn_thread(ctx, 't%d' % i, thread(i)))

    async def second():
        if ls.event_loop is None:
            return      # the run is over already
        try:
            rc = await ls.run_async(shutdown_when_idle=False)
            k.rec('second', rc=rc)
        except Exception as e:     # noqa
            k.rec('second', exc=type(e).__name__)

    def loop_op(op, n):
        if state['run'] != 0 or first(ctx, 'returned'):
            return
        if op == 'emit':
            emit(('loop', n))
        elif op in ('shutdown', 'shutdown_sync'):
            k.rec('call', what='shutdown', tag=('loop', n))
            ret = ls.shutdown(force_sync=op == 'shutdown_sync')
            if ret is not None:
                loop.create_task(ret)
            k.rec('ret', what='shutdown', tag=('loop', n))
        elif op == 'second_run':
            loop.create_task(second())
        elif op == 'sigint':
            k.rec('call', what='sigint', tag=('loop', n))
            k.post_signal(SIGINT)

    def in_run(context):
        k.rec('running', run=state['run'])
        if state['run'] == 0:
            start('in_run')
            for n, (dt, op) in enumerate(s['loop']):
                context.asyncio_loop.call_later(dt / 1000, loop_op, op, n)

    for n, op in enumerate(s['pre']):
        (emit if op == 'emit' else include)(('pre', n))
    start('before')
    if s['proc']:
        steps = [] if s['proc']['life'] is None else [((s['proc']['life'] + 1) * MS, 'exit', 0)]
        k.os.program('simp0', [Plan(steps, {SIGINT: ('die', s['proc']['react'] * MS)})])

    def post(r):
        if state['run'] == r and not any(e['k'] == 'returned' and e['run'] == r for e in k.hist):
            k.rec('call', what='sigint', tag=('horizon', r))
            k.post_signal(SIGINT)

    for r, rr in enumerate(s['runs']):
        if rr['gap']:
            time.sleep(rr['gap'] / 1000)
        ents = [OpaqueFunction(function=in_run)]
        if rr['keep']:
            ents.append(TimerAction(period=rr['keep'] / 1000, actions=[]))
        if s['proc'] and r == 0:
            ents.append(ExecuteProcess(cmd=['/opt/sim/simp0', 'a']))
        ls.include_launch_description(LaunchDescription(ents))
        state['run'] = r
        k.after(10 * NS, post, r)
        do_run(ctx, ls, rr, r)
    for p in k.os.alive():
        k.rec('survivor', pid=p.pid, name=p.tag)
    for t in threads:
        t.join(30)
        if t.is_alive():
            k.rec('thread_stuck', name=t.name)
    # whatever came after the end of the last run is handled by the next one
    state['run'] = 'last'
    do_run(ctx, ls, {'mode': 'run', 'idle': True}, 'last')


def do_run(ctx, ls, rr, r):
    k = ctx.k
    k.rec('run', run=r)
    if rr['mode'] == 'run':
        rc = ls.run(shutdown_when_idle=rr['idle'])
    else:
        loop = asyncio.get_event_loop()
        task = loop.create_task(ls.run_async(shutdown_when_idle=rr['idle']))
        while True:
            try:
                rc = loop.run_until_complete(task)
                break
            except KeyboardInterrupt:
                continue
    k.rec('returned', rc=rc, run=r)


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    H = k.hist
    calls = hist(ctx, 'call')
    ctx.nontrivial = k.switches > 4 and len(calls) > 2
    if ctx.aborted:
        V(['C11', 'C01'], 'hang', 'the run or a thread is stuck: %s: %s' % tuple(ctx.aborted))
        return
    for e in hist(ctx, 'thread_stuck'):
        V(['C11'], 'stuck', 'thread %s never came back from its calls' % e['name'])
    for e in hist(ctx, 'thread_exc'):
        V(['C11'], 'thread_exc', 'thread %s failed with %s: %s' % (e['name'], e['exc'], e['msg']))
    if hist(ctx, 'survivor'):
        V(['C01'], 'survivor', 'a process survived the run')
    for e in hist(ctx, 'returned'):
        if e['rc']:
            V(['C11', 'C09'], 'rc', 'run %s returned %r although nothing failed' % (e['run'], e['rc']))
            return
    # every call comes back soon, and only a run in the wrong place fails
    rets = {}
    for e in H:
        if e['k'] == 'ret':
            rets[e['what'], e['tag']] = e
    for e in calls:
        if e['what'] == 'sigint':
            continue
        r = rets.get((e['what'], e['tag']))
        if r is None:
            V(['C11'], 'no_return', 'call %s %s never returned' % (e['what'], e['tag']))
            continue
        if r['t'] > k.latest(e['t'], NS):
            V(['C11'], 'slow_call', 'call %s %s took from %s to %s' % (
                e['what'], e['tag'], T(e['t']), T(r['t'])))
        if e['what'] == 'run':
            if r.get('exc') != 'RuntimeError':
                V(['C11'], 'wrong_thread', 'run in another thread: %s' % (r.get('exc') or 'accepted'))
        elif r.get('exc'):
            V(['C11'], 'call_exc', 'call %s %s raised %s: %s' % (
                e['what'], e['tag'], r['exc'], r['msg']))
    for e in hist(ctx, 'second'):
        ctx.state_marks.add('second_run')
        if e.get('exc') != 'RuntimeError':
            V(['C11'], 'second_run', 'a second concurrent run: %s' % (e.get('exc') or 'accepted'))
    # exactly once
    seen = {}
    for e in hist(ctx, 'handled'):
        seen.setdefault(e['tag'], []).append(e)
    emitted = [e for e in calls if e['what'] in ('emit', 'include')]
    for e in emitted:
        n = len(seen.get(e['tag'], []))
        if n != 1:
            V(['C11', 'C08'], 'lost' if n == 0 else 'twice', '%s %s called at %s was handled %d times'
              % (e['what'], e['tag'], T(e['t']), n))
            return
        if seen[e['tag']][0]['run'] == 'last':
            ctx.state_marks.add('kept_for_next_run')
    # order: a call that began after another one had returned is handled later
    done = []
    for e in H:
        if e['k'] == 'ret' and e['what'] in ('emit', 'include') and e['tag'][0] != 'loop':
            done.append(e['tag'])
        elif e['k'] == 'call' and e['what'] in ('emit', 'include') and e['tag'][0] != 'loop':
            me = seen[e['tag']][0]['i']
            for d in done:
                if seen[d][0]['i'] > me:
                    V(['C11', 'C08'], 'order', '%s was emitted after %s and handled before it' % (
                        e['tag'], d))
                    return
    if s['echo']:
        a = [e['tag'] for e in hist(ctx, 'handled') if (('emit', e['tag']) in rets)]
        b = [e['tag'] for e in hist(ctx, 'echo')]
        if a != b:
            V(['C08', 'C11'], 'echo', 'events emitted by the handlers: %s, handled: %s' % (
                a[-5:], b[-5:]))
    # shutdown once per run
    for r in list(range(len(s['runs']))) + ['last']:
        sd = [e for e in hist(ctx, 'ev_shutdown') if e['run'] == r]
        if len(sd) != 1:
            V(['C11', 'C01'], 'n_shutdown', 'run %s saw %d shutdowns (%s)' % (
                r, len(sd), '; '.join(e['reason'] for e in sd)))
            return
    # a request that came back while the run was on is carried out, soon
    for r, rr in enumerate(s['runs']):
        began = next((e for e in H if e['k'] == 'running' and e['run'] == r), None)
        end = next(e for e in H if e['k'] == 'returned' and e['run'] == r)
        if began is None:
            V(['C11', 'C16'], 'no_start', 'the description of run %d was never visited' % r)
            continue
        sd = [e for e in hist(ctx, 'ev_shutdown') if e['run'] == r][0]
        req = [e for e in calls if e['what'] in ('shutdown', 'sigint') and
               began['i'] < e['i'] < end['i']]
        if req and sd['t'] > k.latest(k.latest(req[0]['t'], SLACK), SLACK) + NS:
            V(['C11', 'C01'], 'late_shutdown', 'shutdown requested at %s, Shutdown handled at %s' % (
                T(req[0]['t']), T(sd['t'])))
        early = [e for e in calls if e['what'] in ('shutdown', 'sigint') and e['i'] < sd['i']]
        if not rr['idle'] and not early:
            V(['C07', 'C11'], 'keepalive', 'run %d shut down (%s) without being asked' % (
                r, sd['reason']))


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)
