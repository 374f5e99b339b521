"""Scenario family: operating-system signals that hit a run at any time."""
import asyncio
import os
import signal
import time

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'signals'
PROFILES = ('mix',)
SIGQUIT = signal.SIGQUIT
SLACK = 30 * MS


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx)
    s = {'mode': ch.pick(('run', 'async')), 'idle': ch.chance(0.7), 'kbi': ch.chance(0.7),
         'noninteractive': ch.chance(0.3), 'root': ch.chance(0.5), 'outer': ch.chance(0.25)}
    s['procs'] = []
    for _ in range(ch.pick((0, 1, 1, 2, 3))):
        s['procs'].append({'life': ch.pick((None, 0, 1, 5, 50, 500)),
                           'react': ch.pick(('die', 'slow', 'ignore')),
                           'spam': ch.chance(0.2), 'term_ms': ch.pick((100, 500, 5000)),
                           'kill_ms': ch.pick((100, 500, 5000))})
    s['timer'] = ch.pick((None, None, 0, 20, 300, 100000))
    s['coro'] = ch.pick((None, None, 'forever', 'short', 'stubborn'))
    s['busy'] = ch.pick((0, 0, 1, 30))       # a handler that works for so many ms
    s['on_sd'] = ch.pick((None, None, 'emit', 'raise', 'timer'))
    s['fail'] = ch.chance(0.08)
    base = ch.pick((0, 0, 1, 5, 50, 500))
    kinds = ch.pick(((SIGINT,), (SIGINT,), (SIGTERM,), (SIGQUIT,), (SIGINT, SIGTERM),
                     (SIGINT, SIGTERM, SIGQUIT)))
    s['signals'] = []
    for _ in range(ch.pick((1, 1, 2, 3, 5, 20))):
        s['signals'].append([base + ch.pick((0, 0, 0, 1, 2, 10, 100, 1000, 6000)),
                             int(ch.pick(kinds)), ch.choose(3)])
    s['other'] = ch.pick((None, None, None, 'usr1', 'shutdown', 'stop_later'))
    s['other_at'] = base + ch.pick((0, 0, 1, 10, 100))
    s['again'] = ch.chance(0.3)
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms])
    return s


def run(ctx):
    from launch import Event, EventHandler, LaunchDescription, LaunchService
    from launch.actions import (EmitEvent, ExecuteProcess, OpaqueCoroutine, OpaqueFunction,
                                RegisterEventHandler, TimerAction)
    from launch.event_handlers import OnShutdown
    from launch.utilities import AsyncSafeSignalManager
    k = ctx.k
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, s['kbi'])
    loop = common.make_loop()
    watched = [x for x in range(1, 32) if x not in (9, 19)]
    r, w = os.pipe()
    os.set_blocking(r, False)
    os.set_blocking(w, False)
    if s['root']:
        signal.set_wakeup_fd(w)
    k.rec('sigs', root=s['root'])
    before = {x: signal.getsignal(x) for x in watched}
    hook = signal.set_wakeup_fd

    class Busy(Event):
        name = 'sim.Busy'

    def on_shutdown(ev, context):
        k.rec('ev_shutdown', reason=ev.reason, sigint=ev.due_to_sigint)
        if s['on_sd'] == 'emit':
            context.emit_event_sync(Busy())
        elif s['on_sd'] == 'raise':
            raise ValueError('simulated')
        elif s['on_sd'] == 'timer':
            return [TimerAction(period=0.05, actions=[])]

    def handle_busy(ev, context):
        if s['busy']:
            k.advance_to(k.now + s['busy'] * MS)

    ls = LaunchService(noninteractive=s['noninteractive'])
    k.signal_note = lambda: {'on': ls.event_loop is not None, 'alive': len(k.os.alive())}
    ents = [RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown))]

    class H(EventHandler):
        def handle(self, event, context):
            super().handle(event, context)
            handle_busy(event, context)
    ents.append(RegisterEventHandler(H(matcher=lambda e: isinstance(e, Busy))))
    if s['busy']:
        ents.append(EmitEvent(event=Busy()))
        ents.append(TimerAction(period=0.01, actions=[EmitEvent(event=Busy())]))
    for n, p in enumerate(s['procs']):
        steps = []
        if p['spam']:
            steps += [(MS, 'out', 1, b'x' * 20 + b'\n')] * 20
        if p['life'] is not None:
            steps.append(((p['life'] + 1) * MS, 'exit', 0))
        dt = {'die': 0, 'slow': 300 * MS, 'ignore': None}[p['react']]
        sig = {x: ('ignore',) if dt is None else ('die', dt) for x in (SIGINT, SIGTERM)}
        sig[SIGKILL] = ('die', 0)
        k.os.program('sims%d' % n, [Plan(steps, sig)])
        ents.append(ExecuteProcess(cmd=['/opt/sim/sims%d' % n], sigterm_timeout=str(
            p['term_ms'] / 1000), sigkill_timeout=str(p['kill_ms'] / 1000)))
    if s['timer'] is not None:
        ents.append(TimerAction(period=s['timer'] / 1000, actions=[]))
    if s['coro']:
        async def coro(context):
            if s['coro'] == 'short':
                await asyncio.sleep(0.02)
                return
            while True:
                try:
                    await asyncio.sleep(1000)
                except asyncio.CancelledError:
                    if s['coro'] != 'stubborn':
                        raise
                    await asyncio.sleep(0.1)
                    return
        ents.append(OpaqueCoroutine(coroutine=coro))
    if s['fail']:
        def fail(context):
            raise ValueError('simulated failure')
        ents.append(OpaqueFunction(function=fail))
    ents.append(OpaqueFunction(function=lambda c: k.rec('visited')))
    ls.include_launch_description(LaunchDescription(ents))

    def post(sig):
        if not first(ctx, 'returned'):
            k.post_signal(sig)

    def terminal(sig):
        # ctrl-c in a terminal reaches the whole foreground process group
        if not first(ctx, 'returned'):
            for p in k.os.alive():
                p.signal(sig, 'terminal')
            k.post_signal(sig)
    for dt, sig, how in s['signals']:
        t = dt * MS + 60_000
        if how == 2:
            k.after(t, lambda sig=sig: terminal(sig) if not s['noninteractive'] else post(sig))
        else:
            for _ in range(1 + how):
                k.after(t, post, sig)

    def other():
        if first(ctx, 'returned'):
            return
        if s['other'] == 'usr1':
            k.post_signal(signal.SIGUSR1)
    if s['other'] == 'usr1':
        k.after(s['other_at'] * MS, other)
    if s['other'] in ('shutdown', 'stop_later'):
        def in_loop():
            if not first(ctx, 'returned'):
                k.rec('req_shutdown')
                ls.shutdown(force_sync=True)
        loop.call_later(s['other_at'] / 1000, in_loop)
    k.after(60 * NS, horizon, ctx)
    outer = None
    if s['outer']:
        outer = AsyncSafeSignalManager(loop)
        for x in (SIGINT, SIGTERM, SIGQUIT, signal.SIGUSR1):
            outer.handle(x, lambda x: k.rec('outer_got', sig=int(x)))
        outer.__enter__()
        ctx.inner_hook = signal.set_wakeup_fd
    k.rec('start')
    rc = None
    if s['mode'] == 'run':
        rc = ls.run(shutdown_when_idle=s['idle'])
    else:
        task = loop.create_task(ls.run_async(shutdown_when_idle=s['idle']))
        while True:
            try:
                rc = loop.run_until_complete(task)
                break
            except KeyboardInterrupt:
                continue
    k.rec('returned', rc=rc)
    ctx.orphans = len(k.os.alive())
    if outer:
        for _ in range(3):
            try:
                loop.run_until_complete(asyncio.sleep(0.001))
            except KeyboardInterrupt:
                pass
        ctx.inner_same = signal.set_wakeup_fd is ctx.inner_hook
        outer.__exit__(None, None, None)
    while k.pending_signals:
        k.pending_signals.pop()
    ctx.same = [x for x in watched if signal.getsignal(x) is not before[x]]
    ctx.hook = signal.set_wakeup_fd is hook
    ctx.fd = signal.set_wakeup_fd(-1) == (w if s['root'] else -1)
    try:
        for b in os.read(r, 65536):
            k.rec('root_got', sig=b)
    except BlockingIOError:
        pass
    if s['again']:
        ls2 = LaunchService()
        ls2.context.register_event_handler(OnShutdown(
            on_shutdown=lambda ev, c: k.rec('second_shutdown', reason=ev.reason,
                                            sigint=ev.due_to_sigint)))
        ls2.include_launch_description(LaunchDescription([TimerAction(period=0.2, actions=[])]))
        k.rec('second_start')
        k.after(50 * MS, k.post_signal, SIGINT)
        k.rec('second_returned', rc=ls2.run())


def horizon(ctx):
    k = ctx.k
    if not first(ctx, 'returned'):
        k.rec('horizon')
        for p in k.os.alive():
            p._exit(0)
        k.post_signal(SIGINT)
        k.after(60 * NS, give_up, ctx)


def give_up(ctx):
    if not first(ctx, 'returned'):
        ctx.k.rec('give_up')
        ctx.k.post_signal(SIGTERM)


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C14']
    raised = hist(ctx, 'signal_raised')
    ctx.nontrivial = bool(raised)
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    ret = first(ctx, 'returned')
    if first(ctx, 'give_up'):
        V(P, 'hang', 'the run did not end after SIGINT and the exit of all processes')
        return
    mine = [e for e in raised if e['i'] < ret['i'] and e['on']]
    everything = [e for e in raised if e['i'] < ret['i']]
    ints = [e for e in mine if e['sig'] == SIGINT]
    terms = [e for e in mine if e['sig'] in (SIGTERM, SIGQUIT)]
    sds = [e for e in hist(ctx, 'ev_shutdown')]
    failed = s['fail'] or s['on_sd'] == 'raise'
    # the last moments of the run: the loop may not get to the signal any more
    first_term = next((
        e for e in terms if ret['t'] > k.latest(e['t'], 1 * MS) or e['alive'] or
        not sds or sds[0]['i'] > e['i']), None)
    if first_term:
        ctx.state_marks.add('terminated')
        if ret['t'] > k.latest(first_term['t'], SLACK + s['busy'] * 2 * MS):
            V(P, 'term_late', 'signal %d at %s, the run went on until %s' % (
                first_term['sig'], T(first_term['t']), T(ret['t'])))
            return
        if ret['rc'] == 0:
            V(P, 'term_rc', 'the run returned 0 although signal %d came at %s, it ended at %s' % (
                first_term['sig'], T(first_term['t']), T(ret['t'])))
            return
    if not terms:
        if ctx.orphans:
            V(P, 'orphan', '%d processes survived the run' % ctx.orphans)
        if (ret['rc'] != 0) != failed:
            V(P, 'rc', 'the run returned %r, %s' % (ret['rc'], 'something failed' if failed else
                                                     'only SIGINTs came'))
            return
        if len(sds) != 1:
            V(P, 'n_shutdown', '%d shutdowns: %s' % (len(sds), [e['reason'] for e in sds]))
            return
    elif ret['rc'] not in (0, 1):
        V(P, 'rc', 'the run returned %r' % (ret['rc'],))
    if len(sds) > 1:
        V(P, 'n_shutdown', '%d shutdowns: %s' % (len(sds), [e['reason'] for e in sds]))
        return
    # the first SIGINT is what shuts the run down, unless something else did before
    vis = first(ctx, 'visited')
    if ints and sds and not failed:
        i0, sd = ints[0], sds[0]
        reqs = hist(ctx, 'req_shutdown')
        others = [e for e in reqs if e['i'] < sd['i']]
        if sd['i'] < i0['i'] and (sd['sigint'] or 'ctrl-c' in sd['reason']):
            V(P, 'marked', 'Shutdown at %s claims to come from ctrl-c before any' % T(sd['t']))
            return
        if sd['sigint'] and not ints:
            V(P, 'marked', 'Shutdown claims to come from ctrl-c')
        if sd['t'] > k.latest(i0['t'], SLACK + s['busy'] * 3 * MS):
            V(P, 'int_late', 'SIGINT at %s, Shutdown at %s' % (T(i0['t']), T(sd['t'])))
            return
        if sd['i'] > i0['i'] and not sd['sigint'] and not others and \
                (not s['idle'] or busy_at(ctx, i0)):
            V(P, 'unmarked', 'Shutdown at %s for SIGINT at %s is not marked as ctrl-c: %s' % (
                T(sd['t']), T(i0['t']), sd['reason']))
            return
    elif ints and not sds and not terms and not failed:
        V(P, 'int_lost', 'SIGINT at %s, never a Shutdown' % T(ints[0]['t']))
    if not ints and any(e['sigint'] for e in sds):
        V(P, 'marked', 'Shutdown claims to come from ctrl-c')
    # the signal set-up is as it was
    if ctx.same:
        V(P, 'handlers', 'the handlers of signals %s are different after the run' % ctx.same)
    if not ctx.hook:
        V(P, 'hook', 'signal.set_wakeup_fd is different after the run')
    if not ctx.fd:
        V(P, 'fd', 'the wake-up descriptor is different after the run')
    if s['outer'] and not ctx.inner_same:
        V(P, 'hook', 'signal.set_wakeup_fd of the outer manager is different after the run')
    got = [e['sig'] for e in hist(ctx, 'root_got')]
    want = [e['sig'] for e in everything]
    if s['root'] and got[:len(want)] != want:
        V(['C14', 'C15'], 'root', 'the previous wake-up descriptor received %s of %s' % (got, want))
    if s['outer']:
        got = [e['sig'] for e in hist(ctx, 'outer_got')][:len(want)]
        if got != want:
            V(['C14', 'C15'], 'outer', 'the outer manager handled %s of %s' % (got, want))
    sr = first(ctx, 'second_returned')
    if sr:
        ctx.state_marks.add('second')
        if sr['rc'] != 0:
            V(P, 'second_rc', 'a second launch service returned %r after a SIGINT' % (sr['rc'],))
        sd2 = hist(ctx, 'second_shutdown')
        if len(sd2) != 1 or not sd2[0]['sigint']:
            if k.stalled_between(first(ctx, 'second_start')['t'], sr['t']) < 100 * MS:
                V(P, 'second', 'a second launch service with a SIGINT saw %s' % [
                    e['reason'] for e in sd2])


def busy_at(ctx, e):
    """Whether the run had certainly not become idle when signal e came."""
    s, k = ctx.s, ctx.k
    vis = first(ctx, 'visited')
    if vis is None:
        return False
    if s['coro'] == 'forever' or s['coro'] == 'stubborn' or s['timer'] == 100000:
        return vis['i'] < e['i']
    spawn = {x['name']: x for x in k.hist if x['k'] == 'spawn' and x['i'] < e['i']}
    for n, p in enumerate(s['procs']):
        name = 'sims%d' % n
        ex = [x for x in k.hist if x['k'] in ('exit',) and x['name'] == name and x['i'] < e['i']]
        if name in spawn and not ex:
            return True
    return False


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)
