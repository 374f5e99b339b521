"""Scenario family: the legacy launch test service, that judges a launch from within."""
import asyncio
import errno
import re

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'ltlegacy'
PROFILES = ('mix',)
SLACK = 20 * MS
LINES = ('alpha', 'beta 7', 'gamma', 'pid 42', 'rc 0', 'noise: x', 'alpha beta', 'delta', '',
         '\u00fcber')


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx)
    s = {'procs': [], 'coros': [], 'outs': [], 'mode': ch.pick(('run', 'run', 'own'), 'mode'),
         'idle': not ch.chance(0.2, 'keep'), 'sigint': None}
    for i in range(ch.rng_int(1, 3, 'nprocs')):
        n = ch.choose(5, 'nlines')
        lines = [ch.pick(LINES, 'line') for _ in range(n)]
        sep = ch.pick(('\n', '\n', '\n', '\r\n'), 'sep')
        text = sep.join(lines) + (sep if lines and ch.chance(0.8, 'last') else '')
        raw = text.encode()
        cuts = sorted({ch.rng_int(1, len(raw) - 1, 'cut') for _ in range(ch.choose(4, 'ncuts'))}
                      ) if len(raw) > 1 else []
        chunks = []
        for a, b in zip([0] + cuts, cuts + [len(raw)]):
            if b > a:
                chunks.append([ch.pick((0, 0, 1, 30, 400), 'gap'), a, b])
        s['procs'].append({
            'role': ch.weighted([(4, 'fixture'), (4, 'test'), (1, 'plain')], 'role'),
            'text': text, 'chunks': chunks,
            'life': ch.weighted([(4, None), (5, ch.pick((0, 0, 5, 100, 500, 501)))], 'life'),
            'code': ch.pick((0, 0, 0, 0, 1, 3, -11), 'code'),
            'allowed': ch.pick(([0], [0], [0, 1, -2], [], True, False), 'allowed'),
            'int': ch.weighted([(3, ('die', 0)), (3, ('exit', ch.pick((1, 60, 700)) * MS, 0)),
                                (1, ('exit', 2 * MS, 0, b'bye\n')), (1, ('ignore',))], 'int'),
            'spawn': ch.pick((0, 0, 1, 50), 'spawn') * MS, 'fail': ch.chance(0.05, 'fail')})
    for i in range(ch.pick((0, 0, 1, 2), 'ncoros')):
        s['coros'].append([ch.pick((0, 1, 100, 500, 2000), 'dur'),
                           ch.weighted([(6, 'pass'), (1, 'raise'), (1, 'forever')], 'how')])
    for i in range(ch.pick((0, 1, 1, 2), 'nouts')):
        p = ch.choose(len(s['procs']), 'out_of')
        kind = ch.pick(('lines', 'regex'), 'okind')
        # of the lines that this process writes, mostly
        have = [x for x in s['procs'][p]['text'].splitlines() if x]
        if kind == 'lines':
            pats = [ch.pick(have or ['none'], 'pat') if ch.chance(0.85, 'there') else
                    ch.pick(('bye', 'nothing', 'alph', 'noise'), 'other')
                    for _ in range(ch.rng_int(1, 3, 'npats'))]
        else:
            pats = []
            for _ in range(ch.rng_int(1, 2, 'npats')):
                at = ch.choose(max(1, len(have)), 'at')
                pats.append('\n'.join(re.escape(x) for x in have[at:at + ch.rng_int(1, 3)])
                            if have and ch.chance(0.85, 'there') else
                            ch.pick((r'b[a-z]e', r'\d\d\d', r'alpha\s+beta')))
        s['outs'].append({'p': p, 'kind': kind, 'pats': pats,
                          'filter': ch.pick((None, None, 'default', 'patterns'), 'filter'),
                          'side': ch.pick((None, None, None, 'shutdown'), 'side')})
    if ch.chance(0.12, 'sigint?'):
        s['sigint'] = ch.pick((0, 1, 50, 100, 500, 501, 1000), 'sigint_at')
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms])
    return s


def run(ctx):
    from launch import LaunchDescription, LaunchService
    from launch.actions import ExecuteProcess, OpaqueCoroutine, RegisterEventHandler
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnShutdown
    from launch_testing.legacy import LaunchTestService
    from launch_testing.legacy import output
    k = ctx.k
    s = ctx.s = draw(ctx)
    common.setup_logging(ctx)
    common.baseline_signals(ctx, True)
    common.make_loop()
    ls = LaunchService(noninteractive=True)
    lts = LaunchTestService()
    ld = LaunchDescription([
        RegisterEventHandler(OnShutdown(on_shutdown=lambda ev, c: k.rec('shutdown')))])
    actions = []
    for i, p in enumerate(s['procs']):
        name = 'siml%d' % i
        raw = p['text'].encode()
        steps = [((g + 1) * MS, 'out', 1, raw[a:b]) for g, a, b in p['chunks']]
        if p['life'] is not None:
            steps.append((max(1, p['life']) * MS, 'exit', p['code']))
        k.os.program(name, [Plan(
            steps, {SIGINT: p['int'], SIGTERM: ('die', 0), SIGKILL: ('die', 0)},
            spawn=errno.EACCES if p['fail'] else None, spawn_ns=p['spawn'])])
        a = ExecuteProcess(cmd=['/opt/sim/' + name], name=name, output='log')
        actions.append(a)
        ld.add_action(RegisterEventHandler(OnProcessExit(
            target_action=a, on_exit=lambda ev, c, i=i: k.rec(
                'ended', p=i, rc=ev.returncode, sd=c.is_shutdown))))
        ld.add_action(RegisterEventHandler(OnProcessIO(
            target_action=a, on_stdout=lambda ev, i=i: k.rec('got', p=i, text=ev.text))))
        if p['role'] == 'fixture':
            r = lts.add_fixture_action(ld, a, exit_allowed=p['allowed'])
        elif p['role'] == 'test':
            r = lts.add_test_action(ld, a)
        else:
            ld.add_action(a)
            r = a
        assert r is a
    for j, (dur, how) in enumerate(s['coros']):
        def make(j=j, dur=dur, how=how):
            async def coro(context):
                k.rec('co_begin', c=j)
                try:
                    await asyncio.sleep(10 ** 6 if how == 'forever' else dur / 1000)
                except asyncio.CancelledError:
                    k.rec('co_end', c=j, how='cancelled')
                    raise
                k.rec('co_end', c=j, how=how)
                if how == 'raise':
                    raise RuntimeError('by the test')
            return coro
        lts.add_test_action(ld, OpaqueCoroutine(coroutine=make()))
    for j, o in enumerate(s['outs']):
        pats = [x.encode() for x in o['pats']]
        t = output.create_output_lines_test(pats) if o['kind'] == 'lines' else \
            output.create_output_regex_test([re.compile(x) for x in pats])
        f = None
        if o['filter'] == 'default':
            f = output.create_output_lines_filter()
        elif o['filter'] == 'patterns':
            f = output.create_output_lines_filter(filtered_patterns=[b'noise.*', b'del'])
        lts.add_output_test(ld, actions[o['p']], t, test_suffix='out%d' % j, output_filter=f,
                            side_effect=o['side'])
    ls.include_launch_description(ld)
    if s['sigint'] is not None:
        k.after(s['sigint'] * MS, lambda: k.post_signal(SIGINT))
    # like a user that presses Ctrl-C in the end
    k.after(100 * NS, lambda: (k.rec('user_end'), k.post_signal(SIGINT)))
    k.rec('begin')
    try:
        rc = lts.run(ls, shutdown_when_idle=s['idle'])
    except Exception as e:      # noqa
        k.rec('raised', exc=type(e).__name__, msg=str(e))
        return
    k.rec('returned', rc=rc)


def filtered(how, raw):
    """The lines of the text that are not filtered out."""
    lines = raw.splitlines()
    if how is not None:
        lines = [x for x in lines if not x.startswith((b'pid', b'rc'))]
    if how == 'patterns':
        lines = [x for x in lines if not x.startswith((b'noise', b'del'))]
    return lines


def matched(o, raw):
    """Whether the text has all that is expected."""
    lines = filtered(o['filter'], raw)
    pats = [x.encode() for x in o['pats']]
    if o['kind'] == 'lines':
        return all(any(p in x for x in lines) for p in pats)
    text = b'\n'.join(lines)
    return all(re.search(p, text) for p in pats)


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C27']
    marks = ctx.state_marks
    tests = [('p', i) for i, p in enumerate(s['procs']) if p['role'] == 'test'] + \
        [('c', j) for j in range(len(s['coros']))] + [('o', j) for j in range(len(s['outs']))]
    ctx.nontrivial = bool(tests) and bool(hist(ctx, 'spawn'))
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    for e in hist(ctx, 'raised'):
        V(P, 'raised', 'the run failed: %s: %s' % (e['exc'], e['msg']))
        return
    for p in k.procs.values():
        if not p.exited:
            V(P, 'orphan', '%s is left behind' % p.tag)
            return
    ret = first(ctx, 'returned')
    shut = first(ctx, 'shutdown')
    if shut is None:
        V(P, 'no_shutdown', 'the launch ended without a shutdown')
        return

    def lim(t):
        return k.latest(k.latest(t, SLACK), SLACK)
    # --- go through what happened
    open_ = set(tests)
    bad = []                    # (index, what, code)
    causes = []                 # when a shutdown is due, and why
    maybe = []
    text = {i: b'' for i in range(len(s['procs']))}
    over = set()
    failed_start = set()
    names = {'siml%d' % i: i for i in range(len(s['procs']))}

    def close(x, e, why):
        if x in open_:
            open_.discard(x)
            if not open_:
                causes.append((e, 'all tests are done: ' + why))
    running = set()
    for e in k.hist:
        if e['k'] == 'spawn' and e['name'] in names:
            running.add(names[e['name']])
        elif e['k'] == 'spawn_fail' and e['name'] in names:
            i = names[e['name']]
            failed_start.add(i)
            over.add(i)
            if s['procs'][i]['role'] == 'test':
                bad.append((e, 'start', None))
                causes.append((e, 'test process %d was not started' % i))
        elif e['k'] == 'got':
            i = e['p']
            text[i] += e['text']
            for j, o in enumerate(s['outs']):
                if o['p'] != i or ('o', j) not in open_ and o['side'] is None:
                    continue
                t = text[i]
                if o['filter'] is not None:
                    # what is in the last line is not known yet
                    t = t[:t.rfind(b'\n') + 1]
                if matched(o, t):
                    if o['side'] == 'shutdown':
                        causes.append((e, 'side effect'))
                    close(('o', j), e, 'output %d matched' % j)
        elif e['k'] == 'ended':
            i = e['p']
            p = s['procs'][i]
            over.add(i)
            running.discard(i)
            ok = p['allowed'] if isinstance(p['allowed'], bool) else e['rc'] in p['allowed']
            if p['role'] == 'fixture' and not ok and not e['sd']:
                bad.append((e, 'fixture', e['rc'] or 1))
                causes.append((e, 'fixture %d died' % i))
            if p['role'] == 'test' and e['rc'] != 0:
                bad.append((e, 'test', e['rc']))
                causes.append((e, 'test process %d failed' % i))
            close(('p', i), e, 'process %d ended' % i)
            for j, o in enumerate(s['outs']):
                if o['p'] == i:
                    if o['side'] == 'shutdown' and matched(o, text[i]):
                        causes.append((e, 'side effect at the end'))
                    close(('o', j), e, 'process %d ended' % i)
        elif e['k'] == 'co_end':
            j = e['c']
            if e['how'] == 'raise':
                bad.append((e, 'coroutine', None))
                causes.append((e, 'a coroutine failed'))
            if e['how'] == 'cancelled':
                open_.discard(('c', j))
            else:
                close(('c', j), e, 'coroutine %d ended' % j)
        elif e['k'] == 'signal_raised':
            # nobody is there to handle it before the run has begun
            begun = any(x['k'] in ('spawn_try', 'co_begin') for x in k.hist[:e['i']])
            (causes if begun else maybe).append((e, 'Ctrl-C'))
    # --- verdict
    launch_failed = any(w == 'coroutine' for _, w, _ in bad)
    for j, o in enumerate(s['outs']):
        if not matched(o, text[o['p']]):
            bad.append((ret, 'output', None))
            marks.add('unmatched_' + o['kind'])
        else:
            marks.add('matched_' + o['kind'])
    for _, w, _ in bad:
        marks.add('bad_' + w)
    codes = [c for _, _, c in bad if c]
    unsure = any(s['procs'][i]['role'] == 'test' and i not in over for i in names.values())
    want = 1 if launch_failed else codes[0] if codes else 1 if bad else 0
    if unsure:
        # one was never started, as the launch was interrupted before
        marks.add('unsure')
        if ret['rc'] == 0:
            V(P, 'unstarted', 'success, although a test process was never started')
            return
    elif launch_failed:
        if ret['rc'] == 0:
            V(P, 'verdict', 'success, although the launch failed')
            return
    elif ret['rc'] != want:
        V(P, 'verdict', 'the result is %s instead of %s; problems: %s; output: %s' % (
            ret['rc'], want, [(w, c) for _, w, c in bad], text))
        return
    marks.add('ok' if not bad else 'failed')
    # --- the shutdown came when it was due
    due = min(causes, key=lambda x: x[0]['i'], default=None)
    if due and due[0]['i'] < shut['i']:
        if shut['t'] > lim(due[0]['t']):
            V(P, 'late', 'due at %s (%s), the shutdown came at %s' % (
                T(due[0]['t']), due[1], T(shut['t'])))
        marks.add('due')
        return
    if maybe and maybe[0][0]['i'] < shut['i'] and shut['t'] <= lim(maybe[0][0]['t']):
        return
    # nothing is left to do, or it is recorded after the fact
    if due and due[0]['t'] <= shut['t'] + MS:
        return
    alive = [p.tag for p in k.procs.values()
             if p.spawn_t < shut['t'] - MS and p.exit_t > shut['t'] + MS]
    co = [j for j in range(len(s['coros'])) if not any(
        e['c'] == j and e['i'] < shut['i'] for e in hist(ctx, 'co_end'))]
    if s['idle'] and not alive and not co:
        marks.add('idle')
        return
    V(P, 'early', 'shut down at %s for no reason (running: %s, coroutines: %s)' % (
        T(shut['t']), alive, co))


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS)
