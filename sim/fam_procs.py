"""Scenario family: launched processes under every kind of life, shutdown and fault."""
import errno
import os
import signal

from . import common, core
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, hist, first
from .procs import Plan

NAME = 'procs'
SLACK = 8 * MS

# profile -> knobs
PROFILES = {
    # everything at once
    'mix': {},
    # shutdown escalation timing
    'escalate': dict(respawn=0.0, spawnfail=0.03, stubborn=0.6, targeted=0.3, late=0.1),
    # start/shutdown races
    'start': dict(slowspawn=0.6, spawnfail=0.25, late=0.5, early_shutdown=True, targeted=0.4),
    # respawn
    'respawn': dict(respawn=0.8, late=0.1, spawnfail=0.12),
    # idle detection
    'idle': dict(finite=0.9, sources=0.25, work=0.8),
    # requests for single processes
    'target': dict(targeted=1.0, respawn=0.05, sources=0.5, nproc=4),
    # life cycle events
    'events': dict(finite=0.7, spawnfail=0.15, respawn=0.2),
}


def knob(ctx, name, default):
    return PROFILES[ctx.profile].get(name, default)


def draw_reaction(ch, stubborn, term_ms, kill_ms):
    r = ch.weighted([(6, 'die'), (3, 'exit'), (int(1 + 9 * stubborn), 'ignore')], 'react')
    if r == 'ignore':
        return ('ignore',)
    dt = ch.pick((0, 5, 100, term_ms, term_ms - 1, term_ms + 1, term_ms + kill_ms, 400, 3000),
                 'react_dt')
    dt = max(0, dt) * MS + ch.pick((0, 0, 300_000), 'react_us')
    if r == 'die':
        return ('die', dt)
    return ('exit', dt, ch.pick((0, 1, 130, 3), 'react_code'),
            b'bye\n' if ch.chance(0.3) else None)


def draw_plan(ctx, ch, p, inst):
    stubborn = knob(ctx, 'stubborn', 0.25)
    steps = []
    n = ch.choose(3, 'nout')
    for _ in range(n):
        steps.append((common.t_ms(ch, (0, 1, 10, 100, 500)) * MS, 'out', 1 + ch.choose(2, 'fd'),
                      ch.pick((b'hello\n', b'x', b'two\nlines\n', b'tail'), 'data')))
    fin = knob(ctx, 'finite', 0.5)
    life = ch.weighted([(int(10 * (1 - fin)) + 1, 'forever'), (int(8 * fin) + 1, 'exit'),
                        (int(2 * fin) + 1, 'crash')], 'life')
    d = common.t_ms(ch, (100, 0, 1, 10, 500, 1000, 2000, 1500, 250)) * MS
    if life == 'exit':
        steps.append((d, 'exit', ch.pick((0, 1, 2, 255), 'code')))
    elif life == 'crash':
        steps.append((d, 'die', ch.pick((signal.SIGSEGV, signal.SIGABRT, signal.SIGKILL), 'crash')))
    sig = {}
    if ch.chance(0.7, 'reactions?'):
        sig[SIGINT] = draw_reaction(ch, stubborn, p['term_ms'], p['kill_ms'])
        sig[SIGTERM] = draw_reaction(ch, stubborn, p['term_ms'], p['kill_ms'])
        sig[SIGKILL] = ('die', ch.pick((0, 1, 50, 700, 4000), 'kill_dt') * MS)
    for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP):
        sig[s] = ('ignore',) if ch.chance(0.8, 'usr') else ('die', 0)
    spawn = None
    if ch.chance(knob(ctx, 'spawnfail', 0.06), 'spawnfail'):
        spawn = ch.pick((errno.ENOENT, errno.EACCES, errno.EAGAIN, errno.ENOMEM, errno.EMFILE), 'errno')
    spawn_ns = 0
    if ch.chance(knob(ctx, 'slowspawn', 0.1), 'slowspawn'):
        spawn_ns = ch.pick((3, 40, 300, 1200), 'spawn_ms') * MS
    # A child needs a moment from exec to its first action; see DESIGN.md (start-up window).
    boot = ch.pick((1000, 500, 3000, 20000), 'boot_us') * 1000
    if steps:
        steps[0] = (steps[0][0] + boot,) + steps[0][1:]
    linger = ()
    if ch.chance(0.06, 'linger'):
        linger = [(ch.pick((1, 100, 900)) * MS, 1, b'late\n')]
    return Plan(steps, sig, spawn, spawn_ns, linger)


def draw_proc(ctx, ch, i):
    p = {'i': i, 'prog': 'simp%d' % i}
    p['timeout_src'] = ch.pick(('default', 'arg', 'config', 'subst'), 'tsrc')
    if p['timeout_src'] == 'default':
        p['term_ms'], p['kill_ms'] = 5000, 5000
    elif p['timeout_src'] == 'config':
        p['term_ms'], p['kill_ms'] = None, None      # filled from the scenario
    else:
        p['term_ms'] = ch.pick((1000, 500, 250, 2000, 100), 'term')
        p['kill_ms'] = ch.pick((1000, 500, 250, 2000, 100), 'kill')
    p['name'] = ch.pick((None, 'alpha', 'alpha', 'alpha-1', 'named%d' % i), 'name')
    p['shell'] = ch.chance(0.15, 'shell')
    p['tty'] = ch.chance(0.15, 'tty')
    p['cached'] = ch.chance(0.2, 'cached')
    p['output'] = ch.pick(('log', 'screen', 'both', 'own_log', 'full'), 'output')
    p['respawn'] = ch.chance(knob(ctx, 'respawn', 0.25), 'respawn')
    p['delay_ms'] = None
    p['retries'] = -1
    if p['respawn']:
        p['delay_ms'] = ch.pick((None, 0, 250, 500, 1000, 30, 5000), 'delay')
        p['retries'] = ch.pick((-1, 0, 1, 2, 3), 'retries')
    late = knob(ctx, 'late', 0.3)
    p['via'] = ('top',)
    if ch.chance(late, 'via'):
        p['via'] = ch.pick((('at', common.t_ms(ch)), ('group',), ('on_start', max(0, i - 1)),
                            ('on_exit', max(0, i - 1)), ('on_shutdown',),
                            ('thread', common.t_ms(ch))), 'viakind')
        if p['via'][0] in ('on_start', 'on_exit') and i == 0:
            p['via'] = ('at', 100)
    p['cwd'] = ch.chance(0.2, 'cwd')
    p['env'] = ch.weighted([(6, None), (1, 'add'), (1, 'own'), (1, 'empty')], 'env')
    p['on_exit_shutdown'] = ch.chance(0.08, 'onexit_sd')
    p['twice'] = ch.chance(0.02, 'twice') and p['via'] == ('top',)
    return p


def draw(ctx):
    ch = ctx.ch
    s = {}
    common.swarm(ctx, threads=False)
    s['interactive'] = not ch.chance(0.5, 'noninteractive')
    s['mode'] = ch.pick(('run', 'async'), 'mode')
    s['idle'] = not ch.chance(0.2, 'keep')
    s['kbi'] = not ch.chance(0.2, 'nokbi')
    s['cfg_term'] = ch.pick((1000, 400, 2000), 'cfgterm')
    s['cfg_kill'] = ch.pick((1000, 300, 2000), 'cfgkill')
    n = ch.rng_int(1, knob(ctx, 'nproc', 3), 'nproc')
    s['procs'] = [draw_proc(ctx, ch, i) for i in range(n)]
    if any(p['timeout_src'] == 'config' for p in s['procs']):
        s['use_cfg'] = True
        for p in s['procs']:
            if p['timeout_src'] in ('config', 'default'):
                p['timeout_src'] = 'config'
                p['term_ms'], p['kill_ms'] = s['cfg_term'], s['cfg_kill']
    else:
        s['use_cfg'] = False
    for p in s['procs']:
        p['plans'] = [draw_plan(ctx, ch, p, j) for j in range(4 if p['respawn'] else 1)]
        if p['respawn'] and p['plans'][-1].steps:
            # keeps the number of restarts of a run within bounds
            st = p['plans'][-1].steps
            st[0] = (st[0][0] + 600 * MS,) + st[0][1:]
    # stimuli
    st = []
    if ch.chance(knob(ctx, 'sources', 0.8), 'sources'):
        for _ in range(ch.rng_int(1, 2, 'nsrc')):
            kind = ch.pick(('sigint', 'api_loop', 'action', 'event', 'api_thread', 'raise'), 'src')
            t = common.t_ms(ch, (1, 0, 2, 3, 100)) if (
                knob(ctx, 'early_shutdown', False) and ch.chance(0.6)) else common.t_ms(ch)
            st.append([t, kind])
            if kind == 'sigint' and ch.chance(0.3, 'again'):
                st.append([t + ch.pick((0, 1, 20, 500)), 'sigint'])
    if ch.chance(knob(ctx, 'targeted', 0.25), 'targeted'):
        for _ in range(ch.rng_int(1, 3, 'ntgt')):
            which = ch.choose(n, 'tgt')
            how = ch.pick(('action', 'pid', 'name', 'all', 'exe'), 'matcher')
            act = ch.weighted([(3, 'shutdown_proc'), (4, 'signal_proc')], 'tact')
            sg = ch.pick((signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP), 'tsig')
            st.append([common.t_ms(ch), act, which, how, int(sg)])
    work = []
    if ch.chance(knob(ctx, 'work', 0.3), 'work'):
        for _ in range(ch.rng_int(1, 3, 'nwork')):
            work.append(ch.pick((('timer', common.t_ms(ch)), ('coro', common.t_ms(ch)),
                                 ('future', common.t_ms(ch)), ('timer_optout', common.t_ms(ch)),
                                 ('timer_emit', common.t_ms(ch))), 'workkind'))
    s['stimuli'] = st
    s['work'] = work
    # a run that nothing would ever end is ended from outside
    s['horizon'] = 20000
    ctx.desc = {k: v for k, v in s.items() if k != 'procs'}
    ctx.desc['procs'] = [{a: (b if a != 'plans' else [x.describe() for x in b])
                          for a, b in p.items()} for p in s['procs']]
    ctx.desc['stall'] = [ctx.k.stall_p, ctx.k.stall_max_ms]
    return s


def run(ctx):
    import launch
    from launch import LaunchDescription, LaunchService
    from launch.actions import (EmitEvent, ExecuteProcess, GroupAction, OpaqueCoroutine, OpaqueFunction,
                                RegisterEventHandler, SetLaunchConfiguration, Shutdown, TimerAction)
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart, OnShutdown
    from launch import EventHandler, Event
    from launch.events import Shutdown as ShutdownEvent, matches_action
    from launch.events.process import (ShutdownProcess, SignalProcess, matches_executable,
                                       matches_name, matches_pid)
    k, ch = ctx.k, ctx.ch
    s = draw(ctx)
    ctx.s = s
    common.setup_logging(ctx)
    common.baseline_signals(ctx, s['kbi'])
    loop = common.make_loop()
    osim = k.os
    acts = {}

    for p in s['procs']:
        osim.program(p['prog'], p['plans'])
        kw = {}
        if p['timeout_src'] == 'arg':
            kw['sigterm_timeout'] = str(p['term_ms'] / 1000)
            kw['sigkill_timeout'] = str(p['kill_ms'] / 1000)
        elif p['timeout_src'] == 'subst':
            kw['sigterm_timeout'] = launch.substitutions.PythonExpression(
                ["'", str(p['term_ms'] / 1000), "'"])
            kw['sigkill_timeout'] = [launch.substitutions.TextSubstitution(
                text=str(p['kill_ms'] / 1000))]
        if p['name']:
            kw['name'] = p['name']
        if p['cwd']:
            os.makedirs(os.path.join(ctx.scratch, 'cwd%d' % p['i']), exist_ok=True)
            kw['cwd'] = os.path.join(ctx.scratch, 'cwd%d' % p['i'])
        if p['env'] == 'add':
            kw['additional_env'] = {'SIM_ADD': 'a%d' % p['i']}
        elif p['env'] == 'own':
            kw['env'] = {'SIM_OWN': 'o%d' % p['i']}
        elif p['env'] == 'empty':
            kw['env'] = {}
        if p['respawn']:
            kw['respawn'] = True
            kw['respawn_max_retries'] = p['retries']
            if p['delay_ms'] is not None:
                kw['respawn_delay'] = p['delay_ms'] / 1000
        if p['on_exit_shutdown']:
            kw['on_exit'] = [Shutdown(reason='required process')]
        acts[p['i']] = ExecuteProcess(
            cmd=['/opt/sim/' + p['prog'], 'arg%d' % p['i']], shell=p['shell'],
            emulate_tty=p['tty'], cached_output=p['cached'], output=p['output'], **kw)
    idx = {id(a): i for i, a in acts.items()}
    ctx.acts = acts

    def who(event):
        return idx.get(id(event.action), -1)

    def details(event):
        cwd = event.cwd and os.path.basename(event.cwd)
        env = None if event.env is None else [1 if len(event.env) > 1 else -1] + [
            (x, event.env[x]) for x in ('SIM_ADD', 'SIM_OWN') if x in event.env]
        return dict(p=who(event), pid=event.pid, pname=event.process_name, cmd=list(event.cmd),
                    cwd=cwd, env=env)

    def on_start(event, context):
        k.rec('ev_start', code=event.action.return_code, **details(event))

    def on_exit(event, context):
        k.rec('ev_exit', rc=event.returncode, **details(event))

    def on_io(event):
        k.rec('ev_io', fd=1 if event.from_stdout else 2, data=event.text, **details(event))

    def targeted(i, kind):
        # nothing but a record of what a handler for one action gets to see
        return lambda event, *context: k.rec('tgt', p=i, ev=kind, at=who(event), pid=event.pid)

    def on_shutdown(event, context):
        k.rec('ev_shutdown', reason=event.reason, sigint=bool(event.due_to_sigint))

    def on_sdproc(context):
        ev = context.locals.event
        visited = {e['p'] for e in k.hist if e['k'] == 'visit' and not e['down']}
        k.rec('ev_sdproc', match=[i for i in sorted(visited) if ev.sim_want(i)])

    class Boom(Event):
        name = 'sim.Boom'

    def boom(context):
        k.rec('raise')
        raise RuntimeError('injected failure')

    pre = [
        RegisterEventHandler(OnProcessStart(on_start=on_start)),
        RegisterEventHandler(OnProcessExit(on_exit=on_exit)),
        RegisterEventHandler(OnProcessIO(on_stdout=on_io, on_stderr=on_io)),
        RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown)),
    ] + [
        RegisterEventHandler(h) for i, a in acts.items() for h in (
            OnProcessStart(target_action=a, on_start=targeted(i, 'ev_start')),
            OnProcessExit(target_action=a, on_exit=targeted(i, 'ev_exit')),
            OnProcessIO(target_action=a, on_stdout=targeted(i, 'ev_io'),
                        on_stderr=targeted(i, 'ev_io')))
    ] + [
        RegisterEventHandler(EventHandler(
            matcher=lambda e: isinstance(e, ShutdownProcess),
            entities=OpaqueFunction(function=on_sdproc))),
        RegisterEventHandler(EventHandler(
            matcher=lambda e: isinstance(e, Boom), entities=OpaqueFunction(function=boom))),
    ]
    if s['use_cfg']:
        pre.append(SetLaunchConfiguration('sigterm_timeout', str(s['cfg_term'] / 1000)))
        pre.append(SetLaunchConfiguration('sigkill_timeout', str(s['cfg_kill'] / 1000)))

    top = []
    ls_box = []

    def visit_mark(i):
        def f(context):
            k.rec('visit', p=i, down=context.is_shutdown)
        return OpaqueFunction(function=f)

    for p in s['procs']:
        a = acts[p['i']]
        ents = [visit_mark(p['i']), a]
        v = p['via']
        if v[0] == 'top':
            top += ents
            if p['twice']:
                top += [visit_mark(p['i']), a]
        elif v[0] == 'group':
            top.append(GroupAction(ents))
        elif v[0] == 'at':
            top.append(TimerAction(period=v[1] / 1000, actions=ents))
        elif v[0] == 'on_start':
            top.insert(0, RegisterEventHandler(OnProcessStart(
                target_action=acts[v[1]], on_start=ents, handle_once=True)))
        elif v[0] == 'on_exit':
            top.insert(0, RegisterEventHandler(OnProcessExit(
                target_action=acts[v[1]], on_exit=ents, handle_once=True)))
        elif v[0] == 'on_shutdown':
            top.insert(0, RegisterEventHandler(OnShutdown(on_shutdown=ents, handle_once=True)))

    def work(w):
        if w[0] == 'timer':
            return [TimerAction(period=w[1] / 1000, actions=[OpaqueFunction(
                function=lambda c: k.rec('work_done', w=w[0]))])]
        if w[0] == 'timer_optout':
            return [TimerAction(period=w[1] / 1000, cancel_on_shutdown=False,
                                actions=[OpaqueFunction(
                                    function=lambda c: k.rec('work_done', w=w[0]))])]
        if w[0] == 'timer_emit':
            return [TimerAction(period=w[1] / 1000, actions=[
                EmitEvent(event=Event()), TimerAction(period=0.2, actions=[OpaqueFunction(
                    function=lambda c: k.rec('work_done', w=w[0]))])])]
        if w[0] == 'coro':
            async def co():
                import asyncio
                await asyncio.sleep(w[1] / 1000)
                k.rec('work_done', w=w[0])
            return [OpaqueCoroutine(coroutine=co, ignore_context=True)]
        if w[0] == 'future':
            def reg(context):
                f = context.asyncio_loop.create_future()
                context.add_completion_future(f)

                def done():
                    k.rec('work_done', w=w[0])
                    f.set_result(None)
                context.asyncio_loop.call_later(w[1] / 1000, done)
            return [OpaqueFunction(function=reg)]
    for w in s['work']:
        top += work(w)
        k.rec('work', w=w[0], ms=w[1])

    threads = []

    def stimulate(context):
        ls = ls_box[0]
        loop = context.asyncio_loop
        for st in s['stimuli']:
            t, kind = st[0], st[1]
            if kind == 'sigint':
                k.after(t * MS, post_sigint)
            elif kind == 'api_thread':
                threads.append(common.spawn_thread(ctx, 'api', lambda t=t: api_thread(t)))
            else:
                loop.call_later(t / 1000, fire, st, context)
        for p in s['procs']:
            if p['via'][0] == 'thread':
                threads.append(common.spawn_thread(
                    ctx, 'inc%d' % p['i'], lambda p=p: include_thread(p)))
        k.after(s['horizon'] * MS, post_sigint)
        k.rec('running')

    def post_sigint():
        if first(ctx, 'returned') is None:
            k.rec('request', src='sigint')
            k.post_signal(SIGINT)

    def api_thread(t):
        import time
        time.sleep(t / 1000)
        if first(ctx, 'returned') is None:
            k.rec('request', src='api_thread')
        ls_box[0].shutdown()

    def include_thread(p):
        import time
        time.sleep(p['via'][1] / 1000)
        if first(ctx, 'ev_shutdown', 'returned') is None:
            ls_box[0].include_launch_description(
                LaunchDescription([visit_mark(p['i']), acts[p['i']]]))

    def matcher(which, how):
        a = acts[which]
        if how == 'action':
            return matches_action(a)
        if how == 'all':
            return lambda x: True
        det = a.process_details
        if how == 'pid':
            return matches_pid(det['pid'])
        if how == 'name':
            return matches_name(det['name'])
        return matches_executable('simp%d' % which)

    def wanted(which, how, visited):
        # what the request asks for, said independently of the matchers
        if how == 'action':
            return lambda i: i == which
        if how == 'all':
            return lambda i: i in visited
        det = acts[which].process_details
        if how in ('pid', 'name'):
            value = det[how]
            return lambda i: (acts[i].process_details or {}).get(how) == value
        return lambda i: ('/opt/sim/simp%d' % i).endswith('simp%d' % which)

    def started(i):
        return any(e['k'] == 'ev_start' and e['p'] == i for e in k.hist)

    def fire(st, context):
        kind = st[1]
        if kind == 'api_loop':
            k.rec('request', src=kind)
            ret = ls_box[0].shutdown()
            if ret is not None:
                context.asyncio_loop.create_task(ret)
        elif kind in ('action', 'event'):
            k.rec('request', src=kind)
            if kind == 'event':
                context.emit_event_sync(ShutdownEvent(reason='sim'))
            else:
                Shutdown(reason='sim action').visit(context)
        elif kind == 'raise':
            k.rec('request', src='raise')
            context.emit_event_sync(Boom())
        elif kind in ('signal_proc', 'shutdown_proc'):
            _, _, which, how, sg = st
            visited = {e['p'] for e in k.hist if e['k'] == 'visit'}
            # signalling a process that is not started yet is a documented error: not generated
            if kind == 'signal_proc' and (not all(started(i) for i in visited)
                                          or which not in visited):
                return
            if how in ('pid', 'name', 'exe', 'all') and not all(started(i) for i in visited):
                return
            if which not in visited:
                return
            if how == 'pid' and not started(which):
                return
            m = matcher(which, how)
            if how == 'all':
                m = (lambda ids: lambda x: idx[id(x)] in ids)(frozenset(visited))
            want = wanted(which, how, frozenset(visited))
            match = [i for i in visited if want(i)]
            if kind == 'signal_proc':
                k.rec('req_signal', match=match, sig=sg, how=how)
                context.emit_event_sync(SignalProcess(signal_number=signal.Signals(sg), process_matcher=m))
            else:
                k.rec('req_sdproc', match=match, how=how)
                ev = ShutdownProcess(process_matcher=m)
                ev.sim_want = want
                context.emit_event_sync(ev)

    ld = LaunchDescription(pre + [OpaqueFunction(function=stimulate)] + top)
    ls = LaunchService(noninteractive=not s['interactive'])
    ls_box.append(ls)
    ls.include_launch_description(ld)
    rc = common.run_service(ctx, ls, s['mode'], shutdown_when_idle=s['idle'])
    for i, a in acts.items():
        k.rec('final', p=i, code=a.return_code)
    for p in osim.alive():
        k.rec('survivor', pid=p.pid, name=p.tag)
    for t in threads:
        t.join(60)
        if t.is_alive():
            k.rec('thread_stuck', name=t.name)


# --------------------------------------------------------------------------------------------
def judge(ctx):
    k = ctx.k
    s = getattr(ctx, 's', None)
    if s is None:
        return
    V = ctx.violation
    H = k.hist
    procs = {p['i']: p for p in s['procs']}
    byprog = {p['prog']: p for p in s['procs']}
    ret = first(ctx, 'returned')
    end_t = ret['t'] if ret else k.now
    sds = hist(ctx, 'ev_shutdown')
    reqs = hist(ctx, 'request')
    req_t = min([e['t'] for e in reqs] + [e['t'] for e in sds]) if (reqs or sds) else None
    raised = first(ctx, 'raise')
    twice_err = any(p['twice'] and sum(1 for e in H if e['k'] == 'visit' and e['p'] == p['i']) > 1
                    for p in s['procs'])
    spawns = hist(ctx, 'spawn')
    ctx.nontrivial = bool(spawns)
    for e in hist(ctx, 'ev_start'):
        # (the event may be handled late)
        if e['code'] is not None and e['code'] not in [
                x['rc'] for x in hist(ctx, 'ev_exit') if x['p'] == e['p'] and x['pid'] >= e['pid']]:
            V(['C03'], 'return_code', 'when the process %d of action %d starts, its return code is '
              '%r' % (e['pid'], e['p'], e['code']))
    for e in hist(ctx, 'final'):
        mine = [x for x in hist(ctx, 'ev_exit') if x['p'] == e['p']]
        tries = [x['k'] for x in H if x['k'] in ('spawn', 'spawn_fail')
                 and x.get('name') == procs[e['p']]['prog']]
        if mine and tries[-1] == 'spawn_fail' and e['code'] is None:
            continue
        if mine and e['code'] != mine[-1]['rc'] or not mine and e['code'] is not None:
            V(['C03'], 'return_code', 'after the run, the return code of action %d is %r, the last '
              'process ended with %r' % (e['p'], e['code'], mine[-1]['rc'] if mine else None))
    for e in spawns:
        ctx.state_marks.add('spawned')
    if sds and spawns:
        ctx.state_marks.add('shutdown_with_procs')

    hang_props = ['C01', 'C06', 'C05', 'C07', 'C18']
    for p in s['procs']:
        if p['twice'] and not p['respawn'] and sum(
                1 for e in H if e['k'] == 'spawn_try' and e['name'] == p['prog']) > 1:
            V(['C24'], 'twice', 'process action %d was executed twice' % p['i'])
    if ctx.aborted:
        what = '%s: %s' % tuple(ctx.aborted)
        if req_t is None:
            V(['C07', 'C01'], 'never_idle', 'the run neither ended nor was asked to: ' + what)
        else:
            V(hang_props, 'hang', 'the run did not end after shutdown was requested at %s: %s' % (
                T(req_t), what))
        return
    if ret is None:
        V(hang_props, 'no_return', 'the run did not return')
        return

    # ---- per instance facts
    inst = []
    for e in spawns:
        p = byprog[e['name']]
        sp = k.procs[e['pid']]
        inst.append(dict(
            p=p, pid=e['pid'], n=e['inst'], t=e['t'], plan=sp.plan, exit=sp.exit_t,
            reaped=next((x['t'] for x in H if x['k'] == 'reaped' and x['pid'] == e['pid']), None),
            kills=[x for x in H if x['k'] == 'kill' and x['pid'] == e['pid']],
            starts=[x for x in H if x['k'] == 'ev_start' and x['pid'] == e['pid']],
            exits=[x for x in H if x['k'] == 'ev_exit' and x['pid'] == e['pid']],
            ios=[x for x in H if x['k'] == 'ev_io' and x['pid'] == e['pid']],
            sp=sp, i=e['i']))

    for x in inst:
        # output of descendants that outlive a process comes after its exit and may be
        # attributed to the next instance: no claim
        x['lin'] = any(y['sp'].lingered[1] or y['sp'].lingered[2] for y in inst if y['p'] is x['p'])

    # ---- C01: nothing survives, bounded time
    surv = hist(ctx, 'survivor')
    if surv:
        V(['C01', 'C06'] + (['C05'] if any(byprog[e['name']]['respawn'] for e in surv) else []),
          'survivor', 'run() returned at %s while %s still ran' % (
              T(end_t), ', '.join('%s[%d]' % (e['name'], e['pid']) for e in surv)))
    if req_t is not None:
        bound = NS
        stalls = k.stalled_between(req_t, end_t)
        worst = 0
        for x in inst:
            if x['exit'] is None or x['exit'] >= req_t - SLACK:
                kd = x['plan'].sig.get(SIGKILL, ('die', 0))[1]
                st = max(0, x['t'] - req_t)
                worst = max(worst, st + (x['p']['term_ms'] + x['p']['kill_ms']) * MS + kd)
        for w in s['work']:
            if w[0] == 'timer_optout':
                worst = max(worst, w[1] * MS + NS)
            if w[0] == 'future':
                worst = max(worst, w[1] * MS + NS)
        bound += worst + stalls
        if end_t - req_t > bound:
            V(['C01'] + (['C05'] if any(p['respawn'] for p in s['procs']) else []), 'slow_end', 'shutdown requested at %s, run returned only at %s (bound %.3f s)'
              % (T(req_t), T(end_t), bound / NS))
    if hist(ctx, 'foreign_kill'):
        V(['C02', 'C18'], 'foreign_kill', 'a signal was sent to a pid that is no launched process')
    if hist(ctx, 'stale_kill'):
        V(['C02', 'C18'], 'stale_kill', 'a signal was sent to the pid of a reaped process')

    # ---- C09 (return code): non-zero exactly when something raised
    if bool(ret['rc']) != bool(raised or twice_err):
        V(['C09', 'C14', 'C13', 'C01'] if not (raised or twice_err) else ['C09'],
          'rc', 'run returned %r, %s' % (
              ret['rc'], 'although an exception was raised' if raised or twice_err
              else 'although nothing failed'))

    # ---- C03: start / exit events
    for x in inst:
        tag = '%s[%d]' % (x['p']['prog'], x['pid'])
        if len(x['starts']) != 1:
            V(['C03'], 'n_start', '%d start events for %s' % (len(x['starts']), tag))
        if len(x['exits']) != 1:
            V(['C03'], 'n_exit', '%d exit events for %s which exited at %s' % (
                len(x['exits']), tag, T(x['exit'])))
        if x['starts'] and x['exits']:
            a, b = x['starts'][0], x['exits'][0]
            if a['i'] > b['i']:
                V(['C03'], 'order', 'exit event of %s handled before its start event' % tag)
            if any(io['i'] < a['i'] for io in x['ios']):
                V(['C03'], 'early_io', 'output event of %s before its start event' % tag)
            if b['rc'] != x['sp'].returncode:
                V(['C03'], 'code', 'exit event of %s says %r, it exited with %r' % (
                    tag, b['rc'], x['sp'].returncode))
            if a['pname'] != b['pname']:
                V(['C03', 'C24'], 'pname', 'name of %s changed' % tag)
            if not ok_name(a['pname'], x['p']):
                V(['C03', 'C24'], 'badname', 'process %s is called %r' % (tag, a['pname']))
            if a['p'] != x['p']['i'] or b['p'] != x['p']['i']:
                V(['C03'], 'action', 'events of %s carry another action' % tag)
            late = [io for io in x['ios'] if io['i'] > b['i']]
            if late and not x['lin']:
                V(['C03', 'C04'], 'late_io', 'output event of %s after its exit event' % tag)
            if b['t'] < x['exit']:
                V(['C03'], 'early_exit_ev', 'exit event of %s before it exited' % tag)
            p = x['p']
            want = {'p': p['i'], 'pname': a['pname'], 'cwd': 'cwd%d' % p['i'] if p['cwd'] else None,
                    'cmd': ['/opt/sim/' + p['prog'], 'arg%d' % p['i']]}
            if p['env'] in ('own', 'empty'):
                want['env'] = [-1] + ([('SIM_OWN', 'o%d' % p['i'])] if p['env'] == 'own' else [])
            for e in x['starts'] + x['exits'] + x['ios']:
                bad = [f for f in want if e[f] != want[f]]
                if e['env'] is not None and p['env'] in (None, 'add') and e['env'][1:] != (
                        [('SIM_ADD', 'a%d' % p['i'])] if p['env'] else []):
                    bad.append('env')
                if e['env'] is None and p['env'] is not None:
                    bad.append('env')
                if bad:
                    V(['C03'], 'details', '%s of %s carries %s' % (e['k'], tag, ', '.join(
                        '%s=%r' % (f, e[f]) for f in bad)))
                    break
        for fd in (1, 2):
            got = b''.join(io['data'] for io in x['ios'] if io['fd'] == fd)
            want = x['sp'].written[fd]
            if got != want and not x['lin']:
                V(['C04', 'C03'], 'bytes', 'stream %d of %s: events carry %r, written %r' % (
                    fd, tag, got[-80:], want[-80:]))
    for e in hist(ctx, 'ev_start', 'ev_exit', 'ev_io'):
        if e['pid'] not in k.procs:
            V(['C03'], 'ghost', 'event %s for pid %r which never ran' % (e['k'], e['pid']))
    for p in s['procs']:
        mine = [(e['k'], e['pid']) for e in hist(ctx, 'ev_start', 'ev_exit', 'ev_io')
                if e['p'] == p['i']]
        tgt = [e for e in hist(ctx, 'tgt') if e['p'] == p['i']]
        if [(e['ev'], e['pid']) for e in tgt] != mine or any(e['at'] != p['i'] for e in tgt):
            V(['C03'], 'target', 'handlers for process %d saw %r, its events were %r' % (
                p['i'], [(e['ev'], e['pid'], e['at']) for e in tgt][-6:], mine[-6:]))
    names = {}
    for e in hist(ctx, 'ev_start'):
        o = names.setdefault(e['pname'], e['p'])
        if o != e['p']:
            V(['C24'], 'dupname', 'processes %d and %d share the name %r' % (o, e['p'], e['pname']))

    judge_shutdown(ctx, s, inst, sds)
    judge_respawn(ctx, s, inst, sds)
    judge_start(ctx, s, inst, sds)
    judge_idle(ctx, s, inst, sds, ret)
    judge_requests(ctx, s, inst)
    if hist(ctx, 'thread_stuck'):
        V(['C11', 'C01'], 'stuck', 'a thread calling the service never returned')
    for e in hist(ctx, 'thread_exc'):
        V(['C11'], 'thread_exc', 'call from thread %s raised %s: %s' % (e['name'], e['exc'], e['msg']))


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS) if t is not None else 'never'


def ok_name(name, p):
    base = p['name'] or p['prog']
    head, sep, tail = name.rpartition('-')
    return sep == '-' and head == base and tail != ''


def judge_shutdown(ctx, s, inst, sds):
    """C02 and the signal part of C06."""
    k, V = ctx.k, ctx.violation
    for x in inst:
        p = x['p']
        tag = '%s[%d]' % (p['prog'], x['pid'])
        # every event that asked this process to shut down: (time, omit SIGINT?)
        trig = [(e['t'], e['sigint'] and s['interactive']) for e in sds]
        trig += [(e['t'], False) for e in k.hist
                 if e['k'] == 'ev_sdproc' and p['i'] in e['match']]
        trig.sort()
        st = x['starts'][0] if x['starts'] else None
        own = [e for e in x['kills'] if e['sig'] in (SIGINT, SIGTERM, SIGKILL)]
        if not trig or st is None:
            if own and not trig:
                V(['C02', 'C18'], 'unprovoked', '%s was sent signal %d at %s without any shutdown'
                  % (tag, own[0]['sig'], T(own[0]['t'])))
            continue
        t0 = trig[0][0]
        # The procedure starts when the request is handled, or, if the process is just being
        # started, when its start is handled.
        if t0 >= st['t']:
            lo = hi = t0
        else:
            lo, hi = max(t0, x['t']), st['t']
        if x['exit'] is not None and x['exit'] < t0 and not own:
            continue
        lo = k.earliest(lo, 0)
        hi = k.latest(hi, SLACK)
        if t0 < st['t'] + 2 * SLACK:
            ctx.state_marks.add('shutdown_while_starting')
            props = ['C02', 'C06']
        else:
            props = ['C02']
        if x['n'] > 0:
            props = props + ['C05']
        # requests that come before the procedure begins all count
        omits = {o for t, o in trig if t <= max(k.latest(t0, SLACK), k.latest(st['t'], SLACK))}
        for sig, d in ((SIGINT, 0), (SIGTERM, p['term_ms']), (SIGKILL, p['term_ms'] + p['kill_ms'])):
            got = [e for e in own if e['sig'] == sig]
            if len(got) > 1:
                V(props, 'repeat', '%s was sent signal %d %d times' % (tag, sig, len(got)))
            due, late = lo + d * MS, k.latest(hi + d * MS, SLACK if d else 0)
            # the signal itself is an event that waits for its turn
            if got:
                g = got[0]['t']
                if g < due - 2000:
                    V(props, 'early', '%s was sent signal %d at %s, due at %s' % (
                        tag, sig, T(g), T(due)))
                if g > late:
                    V(props, 'late', '%s was sent signal %d at %s, due at %s (latest %s)' % (
                        tag, sig, T(g), T(hi + d * MS), T(late)))
                if sig == SIGINT and False not in omits:
                    V(props, 'int_interactive', '%s was sent SIGINT although the terminal had '
                      'already done so' % tag)
            elif sig == SIGINT and True in omits:
                continue
            elif x['exit'] is None or x['exit'] > late:
                # it was still there well after the signal was due
                V(props, 'missing_%d' % sig, '%s was not sent signal %d due at %s although it '
                  'ran until %s' % (tag, sig, T(hi + d * MS), T(x['exit'])))


def judge_respawn(ctx, s, inst, sds):
    k, V = ctx.k, ctx.violation
    H = k.hist
    tries = hist(ctx, 'spawn_try')
    sd_t = sds[0]['t'] if sds else None
    sd_i = sds[0]['i'] if sds else None
    ret = first(ctx, 'returned')
    procs = {p['i']: p for p in s['procs']}
    for p in s['procs']:
        tr = [e for e in tries if e['name'] == p['prog']]
        props = ['C05']
        limit = 1
        if p['respawn']:
            limit = None if p['retries'] < 0 else 1 + p['retries']
        if limit is not None and len(tr) > limit and not (p['twice'] and not p['respawn']):
            V(props, 'too_many', '%s was started %d times, at most %d allowed' % (
                p['prog'], len(tr), limit))
        own_sd = [e for e in H if e['k'] == 'ev_sdproc' and p['i'] in e['match']]
        stop_t = min([e['t'] for e in own_sd] + ([sd_t] if sd_t is not None else [])) \
            if own_sd or sd_t is not None else None
        xs = [x for x in inst if x['p'] is p]
        # pair each try with the end of the previous instance
        for a, b in zip(tr, tr[1:]):
            prev = next((x for x in xs if x['n'] == a['inst']), None)
            if prev is None:
                V(props, 'after_failed', '%s was started again after a failed start' % p['prog'])
                continue
            delay = (p['delay_ms'] or 0) * MS
            if prev['reaped'] is None or b['t'] < prev['reaped'] + delay - 2000:
                V(props, 'too_soon', '%s restarted at %s, exit %s, delay %s ms' % (
                    p['prog'], T(b['t']), T(prev['exit']), p['delay_ms']))
            else:
                due = k.latest(prev['exit'], SLACK) + delay
                if b['t'] > k.latest(due, SLACK):
                    V(props, 'too_late', '%s restarted at %s, due at %s' % (
                        p['prog'], T(b['t']), T(due)))
            # the restart is decided in the loop iteration after the event; allow the in-flight one
            if stop_t is not None and b['t'] > k.latest(stop_t, SLACK):
                V(props, 'after_shutdown', '%s was started again at %s, shutdown began at %s' % (
                    p['prog'], T(b['t']), T(stop_t)))
        # a respawn that should have happened
        if p['respawn'] and xs:
            last = xs[-1]
            n = len(tr)
            if last['exit'] is not None and tr[-1]['inst'] == last['n'] and \
                    (limit is None or n < limit):
                due = k.latest(last['exit'], SLACK) + (p['delay_ms'] or 0) * MS
                end = min([t for t in (stop_t, ret['t'] if ret else None) if t is not None]
                          or [k.now])
                # shutdown requests count from the request on
                end = min([end] + [e['t'] for e in hist(ctx, 'request')] +
                          [e['t'] for e in hist(ctx, 'req_sdproc') if p['i'] in e['match']] +
                          [e['t'] for e in hist(ctx, 'ev_exit') if procs[e['p']]['on_exit_shutdown']])
                if end > k.latest(due, SLACK):
                    V(props, 'missing', '%s exited at %s and was not restarted (due %s, %d of %s '
                      'starts used)' % (p['prog'], T(last['exit']), T(due), n, limit))


def judge_start(ctx, s, inst, sds):
    """C06: never started after shutdown began."""
    k, V = ctx.k, ctx.violation
    if not sds:
        return
    H = k.hist
    sd = sds[0]
    for p in s['procs']:
        vis = [e for e in H if e['k'] == 'visit' and e['p'] == p['i']]
        if not vis:
            continue
        ctx.state_marks.add('visit_after_shutdown' if vis[0]['i'] > sd['i'] else 'visit_before')
        if vis[0]['i'] > sd['i']:
            tr = [e for e in H if e['k'] == 'spawn_try' and e['name'] == p['prog']]
            if tr:
                V(['C06'], 'started_after', '%s was started although its action was reached after '
                  'shutdown began' % p['prog'])
    for x in inst:
        st = x['starts'][0]['t'] if x['starts'] else x['t']
        if sd['t'] <= st and x['n'] == 0:
            ctx.state_marks.add('shutdown_while_starting')


def judge_idle(ctx, s, inst, sds, ret):
    """C07."""
    k, V = ctx.k, ctx.violation
    H = k.hist
    reqs = hist(ctx, 'request')
    if not sds:
        if not reqs:
            V(['C07', 'C01'], 'no_shutdown', 'the run ended at %s without a shutdown' % T(ret['t']))
        return
    first_req = reqs[0]['t'] if reqs else None
    sd = sds[0]
    spontaneous = first_req is None or first_req > sd['t']
    # required-process shutdowns are requests, too
    for p in s['procs']:
        if p['on_exit_shutdown'] and any(e['k'] == 'ev_exit' and e['p'] == p['i'] and e['i'] < sd['i']
                                         for e in H):
            spontaneous = False
    if any(p['twice'] for p in s['procs']):
        spontaneous = False
    if not spontaneous:
        return
    if not s['idle']:
        V(['C07'], 'keepalive', 'the run shut itself down at %s although told to keep running (%s)'
          % (T(sd['t']), sd['reason']))
        return
    busy = []
    for x in inst:
        if x['t'] <= sd['t'] and (x['exit'] is None or x['exit'] > sd['t']):
            busy.append('%s[%d] runs' % (x['p']['prog'], x['pid']))
        elif x['exits'] and x['exits'][0]['i'] > sd['i']:
            busy.append('exit event of %s[%d] not handled' % (x['p']['prog'], x['pid']))
    for p in s['procs']:
        tr = [e for e in H if e['k'] == 'spawn_try' and e['name'] == p['prog']]
        vis = [e for e in H if e['k'] == 'visit' and e['p'] == p['i'] and e['i'] < sd['i'] and not e['down']]
        if vis and (not tr or tr[0]['i'] > sd['i']):
            busy.append('%s is being started' % p['prog'])
        if any(e['i'] > sd['i'] for e in tr[1:]):
            busy.append('%s is being restarted' % p['prog'])
        v = p['via']
        if v[0] == 'at' and not any(e['k'] == 'visit' and e['p'] == p['i'] and e['i'] < sd['i']
                                    for e in H):
            busy.append('timer for %s pending' % p['prog'])
    for w in s['work']:
        done = [e for e in H if e['k'] == 'work_done' and e['w'] == w[0] and e['i'] < sd['i']]
        want = sum(1 for y in s['work'] if y[0] == w[0])
        if len(done) < want:
            busy.append('%s of %d ms pending' % w)
    if busy:
        V(['C07'], 'premature', 'the run shut itself down (%s) at %s although %s' % (
            sd['reason'], T(sd['t']), '; '.join(sorted(set(busy)))))
    # promptness: the last piece of work ended when?
    last = max([x['exit'] for x in inst if x['exit'] is not None and x['exit'] <= sd['t']] +
               [e['t'] for e in H if e['i'] < sd['i'] and e['k'] in (
                   'work_done', 'visit', 'running', 'ev_exit', 'ev_start', 'ev_io', 'spawn_fail',
                   'ev_sdproc', 'req_signal', 'req_sdproc')] + [k.t0])
    # timers of a cancelled shutdown procedure and respawn delays end with their process
    rd = max([(p['delay_ms'] or 0) * MS for p in s['procs'] if p['respawn']] + [0])
    if sd['t'] > k.latest(k.latest(last, SLACK) + rd, SLACK):
        V(['C07'], 'not_prompt', 'nothing was left to do at %s, shutdown came at %s' % (
                T(last), T(sd['t'])))


def judge_requests(ctx, s, inst):
    """C18: SignalProcess requests (ShutdownProcess is covered by judge_shutdown)."""
    k, V = ctx.k, ctx.violation
    H = k.hist
    reqs = hist(ctx, 'req_signal')
    ret = first(ctx, 'returned')
    for sig in {e['sig'] for e in reqs} | {e['sig'] for x in inst for e in x['kills']
                                           if e['sig'] not in (SIGINT, SIGTERM, SIGKILL)}:
        for x in inst:
            got = [e for e in x['kills'] if e['sig'] == sig]
            lo = hi = 0
            for r in reqs:
                if r['sig'] != sig or x['p']['i'] not in r['match']:
                    continue
                win = k.latest(r['t'], SLACK) - r['t']
                st = x['starts'][0]['t'] if x['starts'] else None
                if st is None or st > r['t'] + win:
                    continue
                if x['reaped'] is not None and x['reaped'] < r['t']:
                    continue
                hi += 1
                if st < r['t'] and (x['exit'] is None or x['exit'] > r['t'] + win):
                    lo += 1
            if not lo <= len(got) <= hi:
                V(['C18'], 'signal_count', '%s[%d] received signal %d %d times, %s requested' % (
                    x['p']['prog'], x['pid'], sig, len(got),
                    lo if lo == hi else '%d..%d' % (lo, hi)))
    # a request for processes that are gone is no error
    if reqs or hist(ctx, 'req_sdproc'):
        ctx.state_marks.add('targeted')
