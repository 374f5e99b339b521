"""Scenario family: test actions with a timeout."""
import errno

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'ltrun'
PROFILES = ('mix',)
SLACK = 10 * MS


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx)
    s = {'procs': [], 'mode': ch.pick(('run', 'async')), 'idle': not ch.chance(0.15, 'keep'),
         'stop': None, 'nonint': ch.chance(0.5)}
    for i in range(ch.rng_int(1, 3, 'nprocs')):
        t = ch.pick((None, 1000, 100, 500, 2000, 30000), 'timeout')
        p = {'i': i, 'timeout': t, 'src': ch.pick(('float', 'subst', 'config')),
             'cls': ch.pick(('Test', 'Test', 'GTest', 'PyTest')),
             'term': ch.pick((500, 1000, 100, 2000), 'term'),
             'kill': ch.pick((500, 1000, 100, 2000), 'kill'),
             'via': ch.weighted([(5, ('top',)), (2, ('at', common.t_ms(ch))), (1, ('group',)),
                                 (1, ('shutdown',)), (1, ('exit', 0))], 'via'),
             'spawn': ch.pick((0, 0, 0, 1, 50, 700), 'spawn') * MS,
             'fail': ch.chance(0.1, 'fail')}
        if i == 0 and p['via'][0] == 'exit':
            p['via'] = ('top',)
        life = ch.weighted([(3, 'forever'), (2, 'exact'), (3, 'grid')], 'life')
        if life == 'forever':
            p['life'] = None
        elif life == 'grid' or t is None:
            p['life'] = common.t_ms(ch) * MS
        else:
            p['life'] = t * MS + ch.pick((0, -1, 1, -100, 100, 5, -20), 'life_us') * 10_000
        for sg in ('int', 'term_r'):
            r = ch.weighted([(4, ('die', 0)), (3, ('exit', ch.pick((0, 1, 100, 400, 1500)) * MS,
                                                   ch.pick((0, 2)))), (3, ('ignore',))], sg)
            p[sg] = r
        s['procs'].append(p)
    if ch.chance(0.35, 'stop?'):
        s['stop'] = [ch.pick(('shutdown', 'sigint', 'one')), ch.pick(
            (0, 100, 500, 501, 1000, 1005, 2000, 2500)), ch.choose(len(s['procs']))]
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms])
    return s


def run(ctx):
    from launch import LaunchDescription, LaunchService
    from launch.actions import (EmitEvent, ExecuteProcess, GroupAction, OpaqueFunction,
                                RegisterEventHandler, SetLaunchConfiguration, Shutdown, TimerAction)
    from launch.event_handlers import OnProcessExit, OnProcessStart, OnShutdown
    from launch.events import matches_action
    from launch.events.process import ShutdownProcess
    from launch.substitutions import LaunchConfiguration, TextSubstitution
    from launch_testing.actions import GTest, PyTest
    from launch_testing.actions.test import Test
    k = ctx.k
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, True)
    common.make_loop()
    ls = LaunchService(noninteractive=s['nonint'])
    ents = [RegisterEventHandler(OnShutdown(on_shutdown=lambda ev, c: k.rec('shutdown')))]
    later = []
    actions = []
    for p in s['procs']:
        name = 'simt%d' % p['i']
        steps = [] if p['life'] is None else [(max(p['life'], MS), 'exit', 0)]
        k.os.program(name, [Plan(
            steps, {SIGINT: p['int'], SIGTERM: p['term_r'], SIGKILL: ('die', 0)},
            spawn=errno.EACCES if p['fail'] else None, spawn_ns=p['spawn'])])
        kw = {}
        t = p['timeout']
        if t is not None:
            sec = t / 1000
            if p['src'] == 'float':
                kw['timeout'] = sec
            elif p['src'] == 'subst':
                kw['timeout'] = [TextSubstitution(text=str(sec))]
            else:
                ents.append(SetLaunchConfiguration('t%d' % p['i'], str(sec)))
                kw['timeout'] = LaunchConfiguration('t%d' % p['i'])
        kw.update(sigterm_timeout=str(p['term'] / 1000), sigkill_timeout=str(p['kill'] / 1000),
                  output='log', name=name)
        if p['cls'] == 'Test':
            a = Test(cmd=['/opt/sim/' + name, 'x'], **kw)
        else:
            a = {'GTest': GTest, 'PyTest': PyTest}[p['cls']](path='/opt/sim/' + name, **kw)
        actions.append(a)
        ents.append(RegisterEventHandler(OnProcessStart(
            target_action=a, on_start=lambda ev, c, i=p['i']: k.rec('started', p=i))))
        ents.append(RegisterEventHandler(OnProcessExit(
            target_action=a, on_exit=lambda ev, c, i=p['i']: k.rec('exited', p=i))))
        v = p['via']
        both = [OpaqueFunction(function=lambda c, i=p['i']: k.rec('visit', p=i)), a]
        if v[0] == 'top':
            later += both
        elif v[0] == 'at':
            later.append(TimerAction(period=v[1] / 1000, actions=both))
        elif v[0] == 'group':
            later.append(GroupAction(both))
        elif v[0] == 'shutdown':
            ents.append(RegisterEventHandler(OnShutdown(
                on_shutdown=lambda ev, c, both=both: both)))
        else:
            ents.append(RegisterEventHandler(OnProcessExit(
                target_action=actions[0], on_exit=both)))
    ls.include_launch_description(LaunchDescription(ents + later))
    if s['stop']:
        what, at, i = s['stop']

        def stop():
            k.rec('stop', what=what, p=i)
            if what == 'sigint':
                k.post_signal(SIGINT)
        if what == 'sigint':
            k.after(at * MS, stop)
        else:
            def now(context):
                stop()
                if what == 'shutdown':
                    return [Shutdown(reason='stop')]
                return [EmitEvent(event=ShutdownProcess(
                    process_matcher=matches_action(actions[i])))]
            ls.include_launch_description(LaunchDescription([
                TimerAction(period=at / 1000, actions=[OpaqueFunction(function=now)])]))
    if not s['idle'] or any(p['life'] is None for p in s['procs']):
        # like a user that presses Ctrl-C in the end
        k.after(100 * NS, lambda: (k.rec('user_end'), k.post_signal(SIGINT)))
    common.run_service(ctx, ls, s['mode'], shutdown_when_idle=s['idle'])


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C22']
    H = k.hist
    marks = ctx.state_marks
    ctx.nontrivial = any(p['timeout'] is not None for p in s['procs']) and bool(hist(ctx, 'spawn'))
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    ret = first(ctx, 'returned')
    if ret['rc']:
        V(P, 'rc', 'the launch failed')
        return

    def lim(t):
        return k.latest(k.latest(t, SLACK), SLACK)
    shut = first(ctx, 'shutdown')
    # Ctrl-C reaches the launch as a shutdown event
    sd = shut['t'] if shut else 10 ** 30
    raised = hist(ctx, 'signal_raised')
    one = {}
    for e in hist(ctx, 'stop'):
        if e['what'] == 'one':
            one[e['p']] = e
    busy = []         # until when there is something to wait for
    for p in s['procs']:
        i = p['i']
        name = 'simt%d' % i
        visit = [e for e in hist(ctx, 'visit') if e['p'] == i]
        sp = [e for e in hist(ctx, 'spawn') if e['name'] == name]
        kills = [e for e in hist(ctx, 'kill') if e['name'] == name and not e['exited']]
        if not visit:
            if sp:
                V(P, 'spawn', '%s was started without being visited' % name)
                return
            continue
        if p['via'][0] == 'shutdown' or visit[0]['i'] > (shut['i'] if shut else 10 ** 9):
            marks.add('after_shutdown')
            if sp:
                V(P, 'spawn', '%s was started after the shutdown' % name)
            if sp:
                return
            continue
        if not sp:
            marks.add('not_started')
            if not p['fail'] and not (raised and raised[0]['i'] < visit[0]['i']):
                V(P, 'spawn', '%s was not started' % name)
                return
            busy.append(lim(visit[0]['t'] + p['spawn']))
            continue
        proc = [x for x in k.procs.values() if x.tag == name][0]
        S = sp[0]['t']
        E = visit[0]['t']
        sig = [e['sig'] for e in kills]
        # the first request to stop
        due = 10 ** 30
        if p['timeout'] is not None:
            due = E + p['timeout'] * MS
        # a request to stop what was not executed yet has no effect
        req = one.get(i)
        ends = {'timeout': due, 'shutdown': sd,
                'one': req['t'] if req and req['i'] > visit[0]['i'] else 10 ** 30}
        why = min(ends, key=lambda x: ends[x])
        at = ends[why]
        start = max(at, S)
        if why == 'timeout':
            # it starts to count once the process was asked for
            start = max(lim(E) + p['timeout'] * MS, S)
        txt = '%s (visited %s, started %s, timeout %s ms, shutdown %s, ended %s, signals %s)' % (
            name, T(E), T(S), p['timeout'], T(sd) if shut else None, T(proc.exit_t),
            [(e['sig'], T(e['t'])) for e in kills])
        busy.append(lim(proc.exit_t))
        if not kills:
            marks.add('untouched' if due > 10 ** 29 else 'in_time')
            if proc.exit_t > lim(start) and at < 10 ** 29:
                if sd <= lim(start) and raised:
                    continue        # the terminal's Ctrl-C is the process's own matter
                V(P, 'not_stopped', 'not stopped by its %s: %s' % (why, txt))
                return
            continue
        t0 = kills[0]['t']
        if t0 < at and not (req and req['t'] <= t0):
            V(P, 'early', 'a signal for no reason: %s' % txt)
            return
        if sd <= t0 and raised and not s['nonint']:
            continue            # the procs family judges escalation after Ctrl-C
        if why == 'timeout':
            marks.add('timeout')
        if t0 > lim(start):
            V(P, 'late', 'the first signal came late: %s' % txt)
            return
        want = [SIGINT, SIGTERM, SIGKILL][:len(sig)]
        if sig != want:
            V(P, 'escalation', 'not SIGINT, SIGTERM, SIGKILL: %s' % txt)
            return
        steps = [0, p['term'] * MS, (p['term'] + p['kill']) * MS]
        for n, st in enumerate(steps):
            # the wait starts with the request, the signal may take a while
            d = t0 + st
            if n < len(kills):
                if kills[n]['t'] < min(at, t0) + st or kills[n]['t'] > lim(d):
                    V(P, 'escalation', 'signal %d at the wrong time: %s' % (sig[n], txt))
                    return
            elif proc.exit_t > lim(d):
                V(P, 'escalation', 'signal %d is missing: %s' % (
                    [SIGINT, SIGTERM, SIGKILL][n], txt))
                return
    # --- the timers do not keep the launch alive
    work = list(busy)
    for p in s['procs']:
        if p['via'][0] == 'at' and p['via'][1] * MS + 1000 * NS < sd:
            work.append(lim(1000 * NS + p['via'][1] * MS))
    for e in hist(ctx, 'stop'):
        work.append(lim(e['t']))
    if s['stop'] and s['stop'][0] != 'sigint' and 1000 * NS + s['stop'][1] * MS < sd:
        work.append(lim(1000 * NS + s['stop'][1] * MS))
    if shut:
        work.append(lim(sd) if not s['idle'] or hist(ctx, 'stop') else 1000 * NS)
    end = lim(lim(max(work + [1000 * NS])))
    if (s['idle'] or shut) and not hist(ctx, 'user_end') and ret['t'] > end:
        V(P, 'kept', 'nothing was left to do at %s, but the launch ended at %s' % (
            T(end), T(ret['t'])))


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)
