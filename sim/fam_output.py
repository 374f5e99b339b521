"""Scenario family: everything processes write reaches events, caches and logs."""
import codecs
import locale
import os
import re

from . import common
from .common import MS, NS, SIGINT, SIGKILL, SIGTERM, first, hist
from .procs import Plan

NAME = 'output'
SLACK = 8 * MS
PROFILES = ('mix', 'dest')

PIECES = ('plain', '', 'äöü', 'a{b}c', '{line}', '%s %d', '日本語テキスト', '\U0001f600', 'tab\tx',
          'cr\rx', 'x\x0by', 'z\x85w', 'u\u2028v', '\x00', '\x1b[31mred\x1b[0m', ' lead', 'trail ',
          '[INFO] [fake]: x', '{this.cmd}', '\x1c', 'end\r')
FORMATS = (None, '{line}', '<{this.process_description.final_name}|{line}>', '{{{line}}}',
           '%s {line}')
OUTS = ('log', 'screen', 'both', 'own_log', 'full', {'stdout': 'log', 'stderr': 'screen'},
        {'both': {'own_log'}}, {'stdout': {'own_log', 'screen'}}, {'stderr': {'log', 'own_log'},
                                                                  'both': 'screen'}, {})


def dests(cfg):
    """output configuration -> {stream: set of destinations} (from its documentation)"""
    r = {1: set(), 2: set()}
    if isinstance(cfg, str):
        if cfg in ('screen', 'both'):
            r[1].add('screen')
            r[2].add('screen')
        if cfg in ('log', 'both', 'full'):
            r[1].add('log')
            r[2].add('log')
        if cfg == 'log':
            r[2].add('screen')
        if cfg == 'full':
            r[1].add('screen')
            r[2].add('screen')
        if cfg in ('own_log', 'full'):
            for fd in (1, 2):
                r[fd] |= {'own', 'comb'}
        return r
    for src, ds in cfg.items():
        for d in ({ds} if isinstance(ds, str) else ds):
            for fd in ((1,) if src == 'stdout' else (2,) if src == 'stderr' else (1, 2)):
                r[fd].add({'own_log': 'comb' if src == 'both' else 'own'}.get(d, d))
    return r


def draw_text(ch, tag):
    """The bytes one instance writes to one stream."""
    out = b''
    n = ch.choose(6, 'nlines')
    for j in range(n):
        bare = ch.chance(0.15, 'bare')
        body = '' if bare else '@%s.%d@' % (tag, j)
        for _ in range(ch.choose(3, 'npieces')):
            body += ch.pick(PIECES, 'piece')
        b = body.encode()
        if ch.chance(0.08, 'bad'):
            b += ch.pick((b'\xff', b'\xe6\x97', b'\xf0\x9f\x98', b'\xc3', b'\xed\xa0\x80'), 'badbytes')
            if ch.chance(0.5):
                b += b'k'
        if ch.chance(0.02, 'huge'):
            b += ch.pick((b'x' * 70000, 'ü'.encode() * 40000, b'y' * 300000), 'hugebytes')
        out += b
        if j < n - 1 or ch.chance(0.6, 'newline'):
            out += b'\n' * (1 + (1 if ch.chance(0.1, 'blank') else 0))
    if ch.chance(0.06, 'tail'):
        # what comes last is blank but not empty
        out += ch.pick((b' ', b'\t', b'  \t', b' \n'), 'tailbytes')
    return out


def draw_plan(ctx, ch, p, inst):
    text = {fd: draw_text(ch, '%d.%d.%d' % (p['i'], inst, fd)) for fd in (1, 2)}
    chunks = {1: [], 2: []}
    for fd in (1, 2):
        t = text[fd]
        cuts = sorted({ch.choose(len(t) + 1, 'cut') for _ in range(ch.choose(6, 'ncuts'))} | {0, len(t)})
        chunks[fd] = [t[a:b] for a, b in zip(cuts, cuts[1:])]
    steps = []
    while chunks[1] or chunks[2]:
        fd = 1 + ch.choose(2, 'which')
        if not chunks[fd]:
            fd = 3 - fd
        steps.append((ch.pick((0, 0, 1, 2, 50, 300), 'dt') * MS, 'out', fd, chunks[fd].pop(0)))
        if not chunks[fd] and ch.chance(0.05, 'closefd'):
            steps.append((ch.pick((0, 1, 10)) * MS, 'closefd', fd))
    end = ch.weighted([(6, 'exit'), (1, 'die'), (2, 'forever')], 'end')
    if end == 'exit':
        steps.append((ch.pick((0, 0, 1, 100)) * MS, 'exit', ch.pick((0, 3))))
    elif end == 'die':
        steps.append((ch.pick((0, 0, 1, 100)) * MS, 'die', 11))
    boot = ch.pick((1000, 500, 3000), 'boot_us') * 1000
    if steps:
        steps[0] = (steps[0][0] + boot,) + steps[0][1:]
    sig = {}
    if ch.chance(0.4, 'sig'):
        sig[SIGINT] = ('exit', ch.pick((0, 5, 100)) * MS, 0, ch.pick((
            b'@%d.%d.bye@\n' % (p['i'], inst), b'@%d.%d.bye@' % (p['i'], inst), b'\n', b'\xc3')))
    return Plan(steps, sig)


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx)
    s = {'mode': ch.pick(('run', 'async')), 'screen_fmt': ch.pick((None, 'default_with_timestamp'))}
    n = ch.rng_int(1, 3, 'nproc')
    s['procs'] = []
    s['override'] = ch.pick(('screen', 'both', 'own_log')) if ch.chance(0.08, 'override') else None
    for i in range(n):
        p = {'i': i, 'prog': 'simp%d' % i, 'name': ch.pick((None, 'alpha', 'beta'), 'name')}
        p['tty'] = ch.chance(0.15, 'tty')
        p['cached'] = ch.chance(0.35, 'cached')
        p['out'] = ch.choose(len(OUTS), 'output')
        p['fmt'] = ch.choose(len(FORMATS), 'fmt')
        p['src'] = ch.pick(('plain', 'subst', 'config'), 'osrc')
        p['retries'] = ch.pick((0, 0, 1, 2), 'retries')
        p['delay'] = ch.pick((0, 30), 'delay')
        p['at'] = ch.pick((None, None, 0, 10, 300), 'at')
        p['plans'] = [draw_plan(ctx, ch, p, j) for j in range(1 + p['retries'])]
        s['procs'].append(p)
    s['sd'] = [(common.t_ms(ch, (1, 10, 50, 100, 300, 1000)), ch.pick(('sigint', 'action', 'api'), 'sd'))
               for _ in range(ch.choose(2, 'nsd'))]
    s['rotate'] = sorted(common.t_ms(ch, (1, 2, 10, 50, 100, 300)) for _ in range(
        ch.pick((0, 0, 0, 1, 2), 'nrot')))
    s['full'] = ch.choose(5, 'full') if ch.chance(0.12, 'full?') else None
    ctx.desc = {a: b for a, b in s.items() if a != 'procs'}
    ctx.desc['procs'] = [{a: (b if a != 'plans' else [x.describe() for x in b])
                          for a, b in p.items()} for p in s['procs']]
    for p in ctx.desc['procs']:
        p['output'] = str(OUTS[p['out']])
        for x in p['plans']:
            for st in x['steps']:
                if len(str(st[-1])) > 200:
                    st[-1] = '%s.. (%d)' % (st[-1][:40], len(st[-1]))
    ctx.desc['stall'] = [ctx.k.stall_p, ctx.k.stall_max_ms]
    return s


def run(ctx):
    import launch.logging
    from launch import LaunchDescription, LaunchService
    from launch.actions import (ExecuteProcess, OpaqueFunction, RegisterEventHandler,
                                SetLaunchConfiguration, Shutdown, TimerAction)
    from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
    from launch.substitutions import LaunchConfiguration, TextSubstitution
    k, ch = ctx.k, ctx.ch
    s = ctx.s = draw(ctx)
    d = ctx.logdir = common.setup_logging(ctx)
    if s['screen_fmt']:
        launch.logging.launch_config.set_screen_format(s['screen_fmt'])
    if s['override']:
        os.environ['OVERRIDE_LAUNCH_PROCESS_OUTPUT'] = s['override']
    ctx.fullname = None
    if s['full'] is not None:
        ctx.fullname = ('launch.log', 'simp0-1-stdout.log', 'alpha-1.log', 'alpha-1-stderr.log',
                        'simp1-2.log')[s['full']]
        os.symlink('/dev/full', os.path.join(d, ctx.fullname))
    common.baseline_signals(ctx, True)
    common.make_loop()
    acts, idx = {}, {}
    for p in s['procs']:
        k.os.program(p['prog'], p['plans'])
        out = OUTS[p['out']]
        p['eff'] = s['override'] or out
        if isinstance(out, str) and p['src'] == 'subst':
            out = [TextSubstitution(text=out[:2]), TextSubstitution(text=out[2:])]
        elif isinstance(out, str) and p['src'] == 'config':
            out = LaunchConfiguration('out%d' % p['i'])
        kw = {}
        if FORMATS[p['fmt']]:
            kw['output_format'] = FORMATS[p['fmt']]
        if p['name']:
            kw['name'] = p['name']
        if p['retries']:
            kw.update(respawn=True, respawn_max_retries=p['retries'], respawn_delay=p['delay'] / 1000)
        acts[p['i']] = a = ExecuteProcess(
            cmd=['/opt/sim/' + p['prog'], 'arg'], emulate_tty=p['tty'], cached_output=p['cached'],
            output=out, **kw)
        idx[id(a)] = p['i']
    os.environ.pop('OVERRIDE_LAUNCH_PROCESS_OUTPUT', None)
    inc = {}

    def cached(i):
        if not s['procs'][i]['cached']:
            return None
        return [acts[i].get_stdout(), acts[i].get_stderr()]

    def on_start(event, context):
        k.rec('ev_start', p=idx[id(event.action)], pid=event.pid, pname=event.process_name)

    def on_exit(event, context):
        k.rec('ev_exit', p=idx[id(event.action)], pid=event.pid, cached=cached(
            idx[id(event.action)]))

    def on_io(event):
        i = idx[id(event.action)]
        fd = 1 if event.from_stdout else 2
        k.rec('ev_io', p=i, pid=event.pid, fd=fd, data=event.text, pname=event.process_name)
        x = inc.setdefault((event.pid, fd), [codecs.getincrementaldecoder('utf-8')('replace'), ''])
        x[1] += x[0].decode(event.text)
        p = s['procs'][i]
        if p['cached']:
            c = cached(i)[fd - 1]
            if not c.endswith(x[1]):
                k.rec('cache_behind', p=i, fd=fd, have=c[-60:], want=x[1][-60:])
        if 'screen' in dests(p['eff'])[fd]:
            # a finished line is shown when its event is handled
            done = x[1][:x[1].rfind('\n') + 1]
            tok = re.findall('@%d[.0-9]+@' % i, done)
            if tok and tok[-1] not in ctx.screen.getvalue():
                k.rec('not_live', p=i, fd=fd, line=tok[-1])

    pre = [RegisterEventHandler(h) for h in (
        OnProcessStart(on_start=on_start), OnProcessExit(on_exit=on_exit),
        OnProcessIO(on_stdout=on_io, on_stderr=on_io))]
    for p in s['procs']:
        if isinstance(OUTS[p['out']], str):
            pre.append(SetLaunchConfiguration('out%d' % p['i'], OUTS[p['out']]))
    top = []
    box = []

    def stimulate(context):
        for t, kind in s['sd']:
            if kind == 'sigint':
                k.after(t * MS, post)
            elif kind == 'action':
                context.asyncio_loop.call_later(t / 1000, lambda: Shutdown(reason='x').visit(context))
            else:
                context.asyncio_loop.call_later(t / 1000, lambda: box[0].shutdown())
        for j, t in enumerate(s['rotate']):
            k.after(t * MS, rotate, j)
        k.after(15000 * MS, post)

    def post():
        if first(ctx, 'returned') is None:
            k.rec('request')
            k.post_signal(SIGINT)

    def rotate(j):
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.log') and not os.path.islink(os.path.join(d, fn)):
                k.fault('log_rotated')
                os.rename(os.path.join(d, fn), os.path.join(d, fn + '.%d' % j))
    for p in s['procs']:
        if p['at'] is None:
            top.append(acts[p['i']])
        else:
            top.append(TimerAction(period=p['at'] / 1000, actions=[acts[p['i']]]))
    ls = LaunchService()
    box.append(ls)
    ls.include_launch_description(LaunchDescription(pre + [OpaqueFunction(function=stimulate)] + top))
    common.run_service(ctx, ls, s['mode'])
    if ctx.fullname:
        k.fault('disk_full')
    ctx.files = {}
    for fn in sorted(os.listdir(d)):
        m = re.match(r'(.*\.log)(\.\d+)?$', fn)
        if m and fn != ctx.fullname:
            with open(os.path.join(d, fn), 'rb') as f:
                ctx.files.setdefault(m.group(1), {})[int(m.group(2)[1:]) if m.group(2) else 99] = \
                    f.read().decode('utf-8', 'surrogateescape')
    ctx.shown = ctx.screen.getvalue()


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    if ctx.aborted:
        V(['C04', 'C01', 'C07'], 'hang', 'the run did not end: %s: %s' % tuple(ctx.aborted))
        return
    ret = first(ctx, 'returned')
    H = k.hist
    ctx.nontrivial = any(e['k'] == 'ev_io' for e in H)
    if ret['rc']:
        V(['C04', 'C09'], 'rc', 'the run returned %r although nothing failed' % ret['rc'])
    want = {}            # file or 'screen' -> [expected sequence per stream]
    for p in s['procs']:
        insts = sorted((x for x in k.procs.values() if x.tag == p['prog']), key=lambda x: x.inst)
        pname = next((e['pname'] for e in H if e['k'] == 'ev_start' and e['p'] == p['i']), None)
        if pname is None:
            continue
        fmt = FORMATS[p['fmt']] or '[{name}] {line}'
        fmt = fmt.replace('this.process_description.final_name', 'name')
        if p['tty']:
            ctx.state_marks.add('tty')
        ds = dests(p['eff'])
        total = {1: '', 2: ''}
        caches = {}
        for fd in (1, 2):
            lines = []
            for x in insts:
                raw = x.written[fd]
                got = b''.join(e['data'] for e in H if e['k'] == 'ev_io' and e['pid'] == x.pid
                               and e['fd'] == fd)
                if got != raw:
                    V(['C04', 'C03'], 'bytes', 'stream %d of %s[%d]: events carry %r, written %r' % (
                        fd, p['prog'], x.pid, got[-80:], raw[-80:]))
                    return
                text = raw.decode('utf-8', 'replace')
                total[fd] += text
                caches[x.pid, fd] = total[fd]
                part = text.split('\n')
                if part[-1] == '':
                    part.pop()
                else:
                    ctx.state_marks.add('unfinished_line')
                lines += part
                try:
                    raw.decode()
                except UnicodeDecodeError:
                    ctx.state_marks.add('invalid_utf8')
                if len(raw) > 65536:
                    ctx.state_marks.add('huge')
            lines = [fmt.format(line=ln, name=pname) for ln in lines]
            for dd in ds[fd]:
                fn = {'screen': 'screen', 'log': 'launch.log', 'comb': pname + '.log',
                      'own': '%s-%s.log' % (pname, 'stdout' if fd == 1 else 'stderr')}[dd]
                want.setdefault(fn, []).append(('%s stream %d' % (pname, fd), lines))
        if len(insts) > 1:
            ctx.state_marks.add('respawned')
        if p['cached']:
            ctx.state_marks.add('cached')
            for e in H:
                if e['k'] == 'ev_exit' and e['p'] == p['i']:
                    for fd in (1, 2):
                        if e['cached'][fd - 1] != caches[e['pid'], fd]:
                            V(['C04'], 'cache', 'cached stream %d of %s is %r at its exit, written '
                              '%r' % (fd, pname, e['cached'][fd - 1][-80:], caches[e['pid'], fd][-80:]))
                            return
    for e in hist(ctx, 'cache_behind'):
        V(['C04'], 'cache_behind', 'cached stream %d of process %d ends in %r when the event '
          'with %r was handled' % (e['fd'], e['p'], e['have'], e['want']))
        return
    for e in hist(ctx, 'not_live'):
        V(['C04'], 'not_live', 'line %s of process %d was not on the screen when its event was '
          'handled' % (e['line'], e['p']))
        return
    enc = locale.getpreferredencoding(False)
    have = {'screen': [x for x in cut(ctx.shown)
                       if not re.match(r'(\d+\.\d{7} )?\[(INFO|WARNING|ERROR|DEBUG|CRITICAL)\] \[(?!fake)', x)]}
    for fn, parts in ctx.files.items():
        ls = []
        for j in sorted(parts):
            if parts[j] and not parts[j].endswith('\n'):
                V(['C04', 'C19'], 'torn', '%s does not end with a whole line' % fn)
                return
            ls += cut(parts[j])
        if fn == 'launch.log':
            out = []
            for x in ls:
                m = re.match(r'\d+\.\d{7} (.*)$', x, re.S)
                if not m:
                    V(['C04', 'C19'], 'torn', 'launch.log has the line %r' % x[:100])
                    return
                if not re.match(r'\[(INFO|WARNING|ERROR|DEBUG|CRITICAL)\] \[(?!fake)', m.group(1)):
                    out.append(m.group(1))
            ls = out
        have[fn] = ls
    for fn in sorted(set(have) | set(want)):
        if fn == ctx.fullname:
            continue
        got = have.get(fn, [])
        exp = want.get(fn, [])
        if fn == 'screen':
            exp = [(a, [x.encode(enc, 'replace').decode(enc, 'replace') for x in b]) for a, b in exp]
        allexp = sorted(x for _, b in exp for x in b)
        if sorted(got) != allexp:
            extra = diff(got, allexp)
            miss = diff(allexp, got)
            V(['C04'], 'lines', '%s: not logged: %s; logged without being expected: %s' % (
                fn, [x[:80] for x in miss[:4]], [x[:80] for x in extra[:4]]))
            return
        for who, seq in exp:
            it = iter(got)
            if not all(any(y == x for y in it) for x in seq):
                V(['C04'], 'line_order', '%s: the lines of %s are out of order' % (fn, who))
                return


def cut(text):
    ls = text.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    return ls


def diff(a, b):
    from collections import Counter
    return sorted((Counter(a) - Counter(b)).elements())
