"""Scenario family: nested asynchronous signal managers under bursts of real signals."""
import asyncio
import os
import signal
import socket
import threading

from . import common
from .common import MS, hist

NAME = 'sigman'
PROFILES = ('mix',)
SIGS = (signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP, signal.SIGTERM, signal.SIGINT)


class Boom(Exception):
    pass


def draw(ctx):
    ch = ctx.ch
    common.swarm(ctx)
    s = {'nloops': ch.pick((1, 1, 2)), 'nman': ch.rng_int(1, 3), 'root': ch.pick((None, 'a', 'b'))}
    s['man_loop'] = [ch.choose(s['nloops']) for _ in range(s['nman'])]
    s['recv_faults'] = ch.pick((0, 0, 0.1, 0.4))
    s['pre'] = ch.choose(s['nman'] + 1)
    s['ops'] = []
    for _ in range(ch.rng_int(4, 22, 'nops')):
        op = ch.weighted([
            (6, 'raise'), (5, 'run'), (4, 'enter'), (3, 'exit'), (5, 'handle'), (2, 'unhandle'),
            (2, 'burst'), (3, 'timed'), (1, 'exit_exc'), (1, 'wakeup'), (1, 'thread'),
            (1, 'asyncio'), (1, 'enter_fault'), (1, 'call_soon')], 'op')
        a = [op, ch.choose(s['nman']), ch.choose(len(SIGS)), ch.choose(4), ch.choose(3),
             ch.pick((1, 1, 2, 3, 40, 150))]
        s['ops'].append(a)
    ctx.desc = dict(s, stall=[ctx.k.stall_p, ctx.k.stall_max_ms])
    return s


class FaultySocket(socket.socket):
    """A socket whose reads may be short, spurious or interrupted."""

    faults = None

    def recv(self, n, *a):
        f = FaultySocket.faults
        if f is not None:
            what = f()
            if what == 'eintr':
                raise InterruptedError()
            if what == 'short':
                n = 1
        return super().recv(n, *a)


def run(ctx):
    from launch.utilities import AsyncSafeSignalManager
    k = ctx.k
    s = ctx.s = draw(ctx)
    ch = ctx.ch
    common.baseline_signals(ctx, False)
    original = signal.set_wakeup_fd
    ctx.orig_hook = original
    loops = [asyncio.get_event_loop_policy().new_event_loop() for _ in range(s['nloops'])]
    for n, lp in enumerate(loops):
        lp.set_exception_handler(lambda lp, c, n=n: k.rec(
            'loop_exc', loop=n, exc=repr(c.get('exception'))))
    fail_pair = [False]
    real_pair = socket.socketpair

    def socketpair(*a, **kw):
        if fail_pair[0]:
            fail_pair[0] = False
            k.fault('socketpair_emfile')
            raise OSError(24, 'Too many open files')
        return tuple(FaultySocket(fileno=x.detach()) for x in real_pair(*a, **kw))
    socket.socketpair = socketpair
    in_row = [0]

    def recv_fault():
        if in_row[0] < 3 and ch.chance(s['recv_faults'], 'recv?'):
            in_row[0] += 1
            what = ch.pick(('short', 'eintr'), 'recv')
            k.fault('recv_' + what)
            return what
        in_row[0] = 0
        return None
    FaultySocket.faults = recv_fault if s['recv_faults'] else None

    roots = {}
    for n in ('a', 'b'):
        r, w = os.pipe()
        os.set_blocking(r, False)
        os.set_blocking(w, False)
        roots[n] = (r, w)
    names = {-1: None}
    names.update({w: n for n, (r, w) in roots.items()})
    if s['root']:
        original(roots[s['root']][1])
    k.rec('root', root=s['root'])
    fds = set(os.listdir('/proc/self/fd'))

    def drain_roots():
        for n, (r, w) in roots.items():
            try:
                for b in os.read(r, 65536):
                    k.rec('root_got', root=n, sig=b)
            except BlockingIOError:
                pass

    pend, total = [0], [0]

    def raise_(sig):
        # a socket takes some 270 one-byte messages; python itself drops what comes on top
        pend[0] += 1
        total[0] += 1
        if pend[0] > 200 or (s['nloops'] > 1 and total[0] > 200):
            return
        k.rec('signal_raised', sig=int(sig))
        k.fault('signal_' + signal.Signals(sig).name)
        signal.raise_signal(sig)
        k.rec('raise_done', sig=int(sig))

    mans = [AsyncSafeSignalManager(loops[x]) for x in s['man_loop']]
    hid = [0]

    def handler(m, action, sig2, n):
        hid[0] += 1
        me = hid[0]

        def fn(signum):
            try:
                lp = loops.index(asyncio.get_event_loop_policy()._local._loop) if False else \
                    loops.index(asyncio._get_running_loop())
            except ValueError:
                lp = None
            k.rec('invoked', m=m, sig=int(signum), h=me, loop=lp)
            if action == 1:                 # unregister itself
                mans[m].handle(signum, None)
                k.rec('handle', m=m, sig=int(signum), h=None)
            elif action == 2:               # another signal, a bounded number of times
                if left[0] > 0:
                    left[0] -= 1
                    raise_(sig2)
            elif action == 3:
                k.rec('boom', m=m)
                raise Boom('handler')
        return me, fn
    left = [6]
    stack = []
    asy = {}

    def run_loop(n, ms):
        lp = loops[n]
        asyncio.set_event_loop(lp)
        lp.run_until_complete(asyncio.sleep(ms / 1000))
        # every pending signal passes through at most one hop per iteration
        lp.run_until_complete(_spin())
        k.rec('ran', loop=n)
        drain_roots()

    async def _spin():
        n = None
        while n != len(k.hist):
            n = len(k.hist)
            for _ in range(60):
                await asyncio.sleep(0)
        pend[0] = 0

    def enter(m):
        mans[m].__enter__()
        stack.append(m)
        k.rec('enter', m=m, loop=s['man_loop'][m])

    def leave(exc):
        m = stack[-1]
        if exc:
            try:
                raise Boom('body')
            except Boom as e:
                swallow = mans[m].__exit__(type(e), e, e.__traceback__)
            if swallow:
                k.rec('swallowed', m=m)
        else:
            mans[m].__exit__(None, None, None)
        stack.pop()
        k.rec('exit', m=m)
        drain_roots()

    for m in range(s['pre']):
        enter(m)
    for op, m, sg, action, lp, n in s['ops']:
        sig = SIGS[sg]
        if op == 'raise':
            raise_(sig)
        elif op == 'burst':
            for i in range(n):
                raise_(SIGS[(sg + i) % len(SIGS)])
            drain_roots()
        elif op == 'call_soon':
            loops[lp % len(loops)].call_soon(raise_, sig)
        elif op == 'timed':
            k.after(n * MS, k.post_signal, sig)
        elif op == 'run':
            run_loop(lp % len(loops), n)
        elif op == 'enter':
            if m not in stack:
                enter(m)
        elif op in ('exit', 'exit_exc'):
            if stack:
                leave(op == 'exit_exc')
        elif op == 'handle':
            me, fn = handler(m, action, SIGS[(sg + lp) % len(SIGS)], n)
            mans[m].handle(sig, fn)
            k.rec('handle', m=m, sig=int(sig), h=me, action=action)
        elif op == 'unhandle':
            mans[m].handle(sig, None)
            k.rec('handle', m=m, sig=int(sig), h=None)
        elif op == 'wakeup':
            new = (None, 'a', 'b')[lp]
            kw = {'warn_on_full_buffer': False} if action == 1 else {}
            old = signal.set_wakeup_fd(roots[new][1] if new else -1, **kw)
            k.rec('wakeup', new=new, old=names.get(old, old))
        elif op == 'thread':
            def body():
                if m not in stack:
                    try:
                        mans[m].__enter__()
                        k.rec('thread_enter', exc=None)
                    except ValueError:
                        k.rec('thread_enter', exc='ValueError')
                try:
                    signal.set_wakeup_fd(-1)
                    k.rec('thread_hook', exc=None)
                except ValueError:
                    k.rec('thread_hook', exc='ValueError')
            t = common.spawn_thread(ctx, 'other', body)
            t.join()
        elif op == 'enter_fault':
            if m not in stack:
                fail_pair[0] = True
                try:
                    mans[m].__enter__()
                    k.rec('enter_fault', exc=None)
                    mans[m].__exit__(None, None, None)
                except OSError:
                    k.rec('enter_fault', exc='OSError')
                fail_pair[0] = False
        elif op == 'asyncio':
            x = loops[lp % len(loops)]
            asyncio.set_event_loop(x)
            x.add_signal_handler(sig, lambda sig=sig, x=x: k.rec('asy', sig=int(sig)))
            k.rec('asy_on', sig=int(sig))
            asy[sig] = x
            # the other side of the same documented feature
            x.run_until_complete(_spin())
            k.rec('ran', loop=loops.index(x))
            x.remove_signal_handler(sig)
            common.baseline_signals(ctx, False)
            k.rec('wakeup', new=None, old='?')
            k.rec('asy_off', sig=int(sig))
    # everything that is pending gets its turn, then all is taken down
    while k.events:
        for n in range(len(loops)):
            run_loop(n, 200)
    for _ in range(2):
        for n in range(len(loops)):
            run_loop(n, 1)
    k.rec('quiet')
    while stack:
        leave(False)
    ctx.hook_ok = signal.set_wakeup_fd is original
    left_fd = original(-1)
    ctx.left_root = names.get(left_fd, 'fd %d' % left_fd)
    leaked = sorted(set(os.listdir('/proc/self/fd')) - fds)
    ctx.leaked = len(leaked)
    drain_roots()


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    H = k.hist
    P = ['C15']
    ctx.nontrivial = bool(hist(ctx, 'invoked')) or len(hist(ctx, 'signal_raised')) > 1
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    stack = []
    handlers = {}
    actions = {}
    queue = {}
    expect = {}
    root = None
    want_root = {'a': [], 'b': []}
    inside = False
    marks = ctx.state_marks

    def deliver(sig, depth):
        """A signal arrives at stack level depth (-1: the root descriptor)."""
        if depth < 0:
            if root is not None:
                want_root[root].append(sig)
            return
        queue[stack[depth][0]].append(sig)

    def drain(loop):
        for d in range(len(stack) - 1, -1, -1):
            m, lp = stack[d]
            if lp != loop:
                continue
            q = queue[m]
            while q:
                sig = q.pop(0)
                h = handlers.get((m, sig))
                if h is not None:
                    expect.setdefault(m, []).append((sig, h))
                    if actions[h] == 1:
                        handlers[m, sig] = None
                deliver(sig, d - 1)
    for e in H:
        kind = e['k']
        if kind == 'root':
            root = e['root']
        elif kind == 'signal_raised':
            inside = True
            deliver(e['sig'], len(stack) - 1)
        elif kind == 'raise_done':
            inside = False
        elif kind == 'invoked':
            if inside:
                V(P, 'in_signal', 'a handler of manager %d was called inside the interrupted code'
                  % e['m'])
                return
            lp = [x[1] for x in stack if x[0] == e['m']]
            if not lp:
                V(P, 'inactive', 'a handler of manager %d was called while it was not active' % e['m'])
                return
            if e['loop'] != lp[0]:
                V(P, 'wrong_loop', 'a handler of manager %d was called %s' % (
                    e['m'], 'outside of any loop' if e['loop'] is None else 'on another loop'))
                return
        elif kind == 'ran':
            inside = False
            drain(e['loop'])
        elif kind == 'enter':
            stack.append((e['m'], e['loop']))
            queue[e['m']] = []
            marks.add('depth%d' % len(stack))
        elif kind == 'exit':
            m, _ = stack.pop()
            pend = queue.pop(m)
            if pend:
                marks.add('pending_at_exit')
            for sig in pend:
                deliver(sig, len(stack) - 1)
        elif kind == 'handle':
            if e['h'] is not None or 'action' in e:
                handlers[e['m'], e['sig']] = e['h']
                actions[e['h']] = e['action']
            elif not _in_handler(H, e):
                handlers[e['m'], e['sig']] = None
        elif kind == 'wakeup':
            if e['old'] not in ('?', root):
                V(P, 'hook_result', 'set_wakeup_fd returned %r, the descriptor set before was %r' % (
                    e['old'], root))
                return
            root = e['new']
            marks.add('wakeup%d' % len(stack))
        elif kind == 'asy_on':
            root = None         # asyncio's own descriptor
        elif kind in ('thread_enter', 'thread_hook'):
            if e['exc'] is None:
                V(P, kind, 'in another thread, %s was accepted' % (
                    'entering a manager' if kind == 'thread_enter' else 'set_wakeup_fd'))
                return
        elif kind == 'enter_fault':
            if e['exc'] is None:
                return
        elif kind == 'loop_exc':
            if 'Boom' not in e['exc']:
                V(P, 'loop_exc', 'the event loop was left with %s' % e['exc'])
                return
        elif kind == 'swallowed':
            V(P, 'swallowed', 'leaving a manager swallowed the exception')
    for m in range(s['nman']):
        got = [(e['sig'], e['h']) for e in hist(ctx, 'invoked') if e['m'] == m]
        want = expect.get(m, [])
        if got != want:
            n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                     min(len(got), len(want)))
            V(P, 'calls', 'manager %d: call %d of a handler was (signal, handler) %s, expected %s' % (
                m, n, got[n] if n < len(got) else None, want[n] if n < len(want) else None))
            return
    for n in ('a', 'b'):
        got = [e['sig'] for e in hist(ctx, 'root_got') if e['root'] == n]
        if got != want_root[n]:
            V(P, 'root', 'the descriptor that was set before received %s, expected %s' % (
                got[:20], want_root[n][:20]))
            return
    if not ctx.hook_ok:
        V(P, 'hook', 'signal.set_wakeup_fd is not the original any more')
    if ctx.left_root != root:
        V(P, 'restore', 'the wake-up descriptor left behind is %r, before it was %r' % (
            ctx.left_root, root))
    if ctx.leaked:
        V(P, 'leak', '%d descriptors were left open' % ctx.leaked)


def _in_handler(H, e):
    """Whether an unregistration came from the handler itself (modelled when it is dispatched)."""
    prev = H[e['i'] - 1] if e['i'] else None
    return prev is not None and prev['k'] == 'invoked' and prev['m'] == e['m'] and \
        prev['sig'] == e['sig']
