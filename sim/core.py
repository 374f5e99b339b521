"""Simulation kernel: seeded choices, virtual time, baton-scheduled threads, world events.

One run happens in one forked child process.  Exactly one thread runs at any time (the one
that holds the baton); every blocking operation of the code under test ends up in
Kernel.block(), which decides who runs next and when virtual time advances.
"""
import hashlib
import heapq
import os
import random
import sys
import threading
import time as _time
import _thread

_real_allocate = _thread.allocate_lock
_real_get_ident = _thread.get_ident
REAL_MONOTONIC = _time.monotonic
REAL_TIME = _time.time
REAL_SLEEP = _time.sleep

K = None  # the active kernel of this process, if any

NS = 1_000_000_000


def kernel():
    return K


class Chooser:
    """Source of every decision of a run; either a PRNG or a recorded list of numbers."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.log = []

    def choose(self, n, label=''):
        """An integer in [0, n); 0 is by convention the simplest alternative."""
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = v % n if v >= n else v
            self.pos += 1
        self.log.append(v)
        return v

    def pick(self, seq, label=''):
        return seq[self.choose(len(seq), label)]

    def chance(self, p, label=''):
        """True with probability p; the recorded value 0 means False."""
        return self.choose(1000, label) >= 1000 - int(p * 1000)

    def rng_int(self, lo, hi, label=''):
        return lo + self.choose(hi - lo + 1, label)

    def weighted(self, pairs, label=''):
        """pairs: [(weight, value)]; first pair is the simplest."""
        tot = sum(w for w, _ in pairs)
        v = self.choose(tot, label)
        for w, val in pairs:
            if v < w:
                return val
            v -= w
        return pairs[-1][1]

    def shuffle(self, seq, label=''):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.choose(len(seq), label)))
        return out


class SimThread:
    __slots__ = ('name', 'tid', 'gate', 'state', 'pred', 'deadline', 'label', 'ident')

    def __init__(self, name, tid):
        self.name = name
        self.tid = tid
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = 'run'     # run | blocked | done
        self.pred = None
        self.deadline = None
        self.label = ''
        self.ident = None

    def ready(self, now):
        if self.state == 'run':
            return True
        if self.state == 'blocked':
            if self.deadline is not None and self.deadline <= now:
                return True
            return self.pred is not None and bool(self.pred())
        return False


class Kernel:
    TICK = 20_000                 # ns per loop iteration
    MAX_STEPS = 60_000
    MAX_TIME = 3600 * NS

    def __init__(self, chooser):
        self.ch = chooser
        self.now = 1000 * NS      # virtual monotonic clock, ns
        self.wall_offset = 1_700_000_000 * NS
        self.events = []
        self.seq = 0
        self.threads = []
        main = SimThread('main', 0)
        main.ident = _real_get_ident()
        self.threads.append(main)
        self.main = main
        self.cur = main
        self.hist = []
        self.faults = {}
        self.steps = 0
        self.switches = 0
        self.sched = hashlib.sha1()
        self.stalls = []          # (time, duration) of host stalls
        self.stall_p = 0.0
        self.stall_max_ms = 0
        self.pending_signals = []
        self.on_abort = None
        self.preempt_mean = 0
        self.preempt_left = -1
        self.desched_p = 0.0
        self.in_kernel = 0
        self.in_events = False
        self.aborting = False
        self.probe = None
        self.signal_note = None
        self.t0 = self.now
        self.real0 = REAL_MONOTONIC()

    # -- recording ---------------------------------------------------------
    def rec(self, kind, **kw):
        e = dict(kw)
        e['t'] = self.now
        e['k'] = kind
        e['i'] = len(self.hist)
        self.hist.append(e)     # returns None: harness callbacks are often just a rec()

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def mark(self, *what):
        self.sched.update(repr(what).encode())

    # -- time --------------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        heapq.heappush(self.events, (max(int(t), self.now), self.seq, fn, args))

    def after(self, dt_ns, fn, *args):
        self.at(self.now + int(dt_ns), fn, *args)

    def time(self):
        return self.now / NS

    def run_due(self):
        if self.in_events:
            return
        self.in_events = True
        try:
            while self.events and self.events[0][0] <= self.now:
                t, s, fn, args = heapq.heappop(self.events)
                fn(*args)
        finally:
            self.in_events = False

    def advance_to(self, t):
        """Let virtual time pass while the current thread keeps the CPU (stall, slow call)."""
        if self.in_events:
            self.now = max(self.now, t)
            return
        while self.events and self.events[0][0] <= t:
            self.now = max(self.now, self.events[0][0])
            self.run_due()
        self.now = max(self.now, t)

    def stall(self, dt_ns, why='stall'):
        t = self.now
        self.advance_to(self.now + int(dt_ns))
        self.stalls.append((t, int(dt_ns)))
        self.fault(why)

    def latest(self, t, base):
        """The latest moment for something due at t, `base` ns late at most, given the stalls."""
        end = t + base
        for _ in range(1000):
            new = t + base + sum(d for a, d in self.stalls if a + d >= t and a <= end)
            if new <= end:
                break
            end = new
        return end

    def earliest(self, t, base):
        """The earliest moment from which something seen at t may have been under way."""
        start = t - base
        for _ in range(1000):
            new = t - base - sum(d for a, d in self.stalls if a <= t and a + d >= start)
            if new >= start:
                break
            start = new
        return start

    def stalled_between(self, a, b):
        return sum(d for t, d in self.stalls if t + d >= a and t <= b)

    def step(self):
        self.steps += 1
        self.now += self.TICK
        if self.steps > self.MAX_STEPS:
            self.abort('livelock', 'more than %d scheduling steps' % self.MAX_STEPS)
        if self.now - self.t0 > self.MAX_TIME:
            self.abort('livelock', 'more than %d s of simulated time' % (self.MAX_TIME // NS))

    # -- threads -----------------------------------------------------------
    def multi(self):
        return any(t is not self.cur and t.state != 'done' for t in self.threads)

    def block(self, pred, deadline=None, label=''):
        """Park the calling thread until pred() holds (True) or the deadline passes (False)."""
        if self.in_events:
            raise RuntimeError('harness: blocking call inside a world event: ' + label)
        me = self.cur
        me.pred = pred
        me.deadline = deadline
        me.label = label
        me.state = 'blocked'
        self._reschedule()
        ok = pred is not None and bool(pred())
        me.pred = None
        me.deadline = None
        return ok

    def yield_(self, label=''):
        """A possible switch to another runnable thread."""
        if self.in_events or self.in_kernel:
            return
        if self.multi():
            self._reschedule()

    def _reschedule(self):
        self.in_kernel += 1
        try:
            me = self.cur
            while True:
                self.run_due()
                cand = [t for t in self.threads if t.ready(self.now)]
                if cand:
                    break
                nxt = None
                if self.events:
                    nxt = self.events[0][0]
                for t in self.threads:
                    if t.state == 'blocked' and t.deadline is not None:
                        nxt = t.deadline if nxt is None else min(nxt, t.deadline)
                if nxt is None:
                    self.abort('deadlock', '; '.join(
                        '%s blocked in %s' % (t.name, t.label)
                        for t in self.threads if t.state == 'blocked') or 'nobody can run')
                if nxt - self.t0 > self.MAX_TIME:
                    self.abort('livelock', 'nothing but timers beyond %d s' % (self.MAX_TIME // NS))
                self.now = max(self.now, nxt)
            if len(cand) > 1:
                if me in cand:
                    cand.remove(me)
                    cand.insert(0, me)
                t = cand[self.ch.choose(len(cand), 'sched')]
            else:
                t = cand[0]
        finally:
            self.in_kernel -= 1
        t.state = 'run'
        if t is not me:
            self.switches += 1
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                self.abort('livelock', 'more than %d scheduling steps' % self.MAX_STEPS)
            self.sched.update(b'%d>%d;' % (me.tid, t.tid))
            self.cur = t
            t.gate.release()
            if me.state != 'done':
                me.gate.acquire()

    def thread_started(self, name):
        t = SimThread(name, len(self.threads))
        self.threads.append(t)
        return t

    def thread_done(self, t):
        t.state = 'done'
        self._reschedule()

    # -- preemption at source lines -----------------------------------------
    def arm_preempt(self):
        if self.preempt_mean <= 0:
            self.preempt_left = -1
            return
        v = self.ch.choose(2 * self.preempt_mean + 1, 'preempt')
        self.preempt_left = v if v else -1

    def line_event(self):
        if self.preempt_left < 0 or self.in_kernel or self.in_events or self.aborting:
            return
        if _real_get_ident() != self.cur.ident:
            return
        self.preempt_left -= 1
        if self.preempt_left == 0:
            self.arm_preempt()
            if self.multi():
                self.fault('preempt_line')
                self.now += 1000
                if self.desched_p and self.ch.chance(self.desched_p, 'desched'):
                    # the host gives this thread no time for a while, but the others
                    dt = self.ch.pick((1, 20, 300, 2500), 'desched_ms') * 1_000_000
                    self.stalls.append((self.now, dt))
                    self.fault('thread_descheduled')
                    self.block(None, self.now + dt, 'desched')
                else:
                    self._reschedule()

    # -- signals -------------------------------------------------------------
    def post_signal(self, signum):
        self.pending_signals.append(signum)

    # -- the end ---------------------------------------------------------------
    def abort(self, kind, msg):
        if self.aborting:
            os._exit(77)
        self.aborting = True
        self.preempt_left = -1
        self.rec('abort', what=kind, msg=msg)
        self.on_abort(kind, msg)
        os._exit(78)


# ---------------------------------------------------------------------------
# synchronisation primitives that replace those of `threading`
# ---------------------------------------------------------------------------
class SimLock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        k = K
        if k is not None and blocking and not k.in_kernel:
            k.yield_('lock')
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if k is None:
            raise RuntimeError('harness: contended lock outside a simulation')
        deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * NS) + 1
        if k.block(lambda: not self._locked, deadline, 'lock.acquire'):
            self._locked = True
            return True
        return False

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False

    release_lock = release

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return _real_get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        k = K
        if k is not None and blocking and not k.in_kernel:
            k.yield_('rlock')
        if self._owner is None:
            self._owner = me
            self._count = 1
            return True
        if not blocking:
            return False
        if k is None:
            raise RuntimeError('harness: contended rlock outside a simulation')
        deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * NS) + 1
        if k.block(lambda: self._owner is None, deadline, 'rlock.acquire'):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        return self._owner == self._me()

    def _recursion_count(self):
        return self._count if self._owner == self._me() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


_real_start_new_thread = threading._start_new_thread
_real_join = threading.Thread.join


def _sim_start_new_thread(function, args, kwargs={}):
    k = K
    if k is None:
        return _real_start_new_thread(function, args, kwargs)
    owner = getattr(function, '__self__', None)
    rec = k.thread_started(getattr(owner, 'name', 'thread%d' % len(k.threads)))
    if owner is not None:
        owner._sim_thread = rec

    def runner():
        rec.ident = _real_get_ident()
        rec.gate.acquire()
        try:
            function(*args, **kwargs)
        finally:
            k.thread_done(rec)
    return _real_start_new_thread(runner, ())


def _sim_join(self, timeout=None):
    k = K
    rec = getattr(self, '_sim_thread', None)
    if k is None or rec is None:
        return _real_join(self, timeout)
    deadline = None if timeout is None else k.now + int(max(timeout, 0) * NS) + 1
    if k.block(lambda: rec.state == 'done', deadline, 'thread.join(%s)' % self.name):
        pass
    return None


def _sim_is_alive(self, _real=threading.Thread.is_alive):
    rec = getattr(self, '_sim_thread', None)
    if rec is None:
        return _real(self)
    return rec.state != 'done'


def _sim_monotonic():
    k = K
    if k is None:
        return REAL_MONOTONIC()
    k.now += 200
    return k.now / NS


def _sim_time():
    k = K
    if k is None:
        return REAL_TIME()
    k.now += 200
    return (k.now + k.wall_offset) / NS


def _sim_sleep(secs):
    k = K
    if k is None:
        return REAL_SLEEP(secs)
    if _real_get_ident() == k.main.ident and not k.multi():
        k.advance_to(k.now + int(secs * NS))
        return None
    k.block(None, k.now + int(secs * NS) + 1, 'sleep')
    return None


def install_time_and_threads():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._start_new_thread = _sim_start_new_thread
    threading.Thread.join = _sim_join
    threading.Thread.is_alive = _sim_is_alive
    threading._time = _sim_monotonic
    _time.time = _sim_time
    _time.time_ns = lambda: int(_sim_time() * NS)
    _time.monotonic = _sim_monotonic
    _time.perf_counter = _sim_monotonic
    _time.sleep = _sim_sleep

    import datetime
    real_dt = datetime.datetime

    class _Meta(type(real_dt)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_dt)

    class datetime_(real_dt, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            if K is None:
                return real_dt.now(tz)
            return real_dt.fromtimestamp(_sim_time(), tz)

        @classmethod
        def utcnow(cls):
            if K is None:
                return real_dt.utcnow()
            return real_dt.utcfromtimestamp(_sim_time())
    datetime_.__name__ = datetime_.__qualname__ = 'datetime'
    datetime.datetime = datetime_


_where = [(), ()]


def relax_preemption(prefixes):
    """Also preempt in these folders, for the rest of this process."""
    _where[:] = [_where[0] + tuple(prefixes), ()]
    sys.monitoring.restart_events()


def install_line_preemption(prefixes, exclude):
    """Make every executed source line below `prefixes` a possible preemption point."""
    mon = sys.monitoring
    tool = 4
    _where[:] = [tuple(prefixes), tuple(exclude)]
    mon.use_tool_id(tool, 'simpreempt')

    def on_line(code, line):
        fn = code.co_filename
        if not fn.startswith(_where[0]) or any(x in fn for x in _where[1]):
            return mon.DISABLE
        k = K
        if k is not None:
            k.line_event()
        return None
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
