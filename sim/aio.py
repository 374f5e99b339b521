"""asyncio on the simulation kernel: real selector event loop, simulated readiness and time."""
import asyncio
import asyncio.unix_events
import os
import selectors
import signal

from . import core
from .core import NS


class SimSelector(selectors.PollSelector):
    """Reports the real readiness of real descriptors, in an order chosen by the scheduler.

    All peers of those descriptors are simulated, so readiness changes only through the kernel.
    """

    def _poll(self):
        return super().select(0)

    def select(self, timeout=None):
        k = core.K
        if k is None:
            return super().select(timeout)
        k.step()
        me = k.cur
        deadline = None if timeout is None else k.now + int(max(timeout, 0) * NS) + 1
        if k.stall_p and k.ch.chance(k.stall_p, 'stall'):
            k.stall((1 + k.ch.choose(k.stall_max_ms, 'stall_ms')) * 1_000_000, 'host_stall')
        k.run_due()
        self._signals(k)
        if k.probe is not None:
            k.probe()
        ready = self._poll()
        if ready or (timeout is not None and timeout <= 0):
            k.yield_('loop')
            self._signals(k)
            if k.multi():
                ready = self._poll()
        else:
            k.block(lambda: (me is k.main and k.pending_signals) or self._poll(), deadline, 'event loop')
            self._signals(k)
            ready = self._poll()
        if len(ready) > 1:
            ready.sort(key=lambda kv: kv[0].fd)
            ready = k.ch.shuffle(ready, 'ready')
            k.mark('order', [kv[0].fd for kv in ready])
        return ready

    def _signals(self, k):
        if k.cur is not k.main:
            return      # python runs the handlers in the main thread
        while k.pending_signals:
            s = k.pending_signals.pop(0)
            k.rec('signal_raised', sig=int(s), **(k.signal_note() if k.signal_note else {}))
            k.mark('sig', int(s))
            k.fault('signal_%s' % signal.Signals(s).name)
            signal.raise_signal(s)      # may raise KeyboardInterrupt, like a real select()
            k.rec('raise_done', sig=int(s))


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, selector=None):
        super().__init__(selector or SimSelector())
        self._clock_resolution = 1e-9

    def time(self):
        k = core.K
        if k is None:
            return core.REAL_MONOTONIC()
        return k.now / NS


class SimChildWatcher(asyncio.unix_events.AbstractChildWatcher):
    """pidfd-style watcher: the exit of a simulated process makes a descriptor readable."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def is_active(self):
        return True

    def close(self):
        pass

    def attach_loop(self, loop):
        pass

    def add_child_handler(self, pid, callback, *args):
        k = core.K
        proc = k.procs.get(pid)
        loop = asyncio.get_running_loop()
        r, w = os.pipe()
        proc.exit_fd_w = w
        if proc.exited:
            os.write(w, b'x')

        def do_wait():
            loop._remove_reader(r)
            os.close(r)
            os.close(w)
            proc.exit_fd_w = None
            proc.reaped = True
            k.rec('reaped', pid=pid, name=proc.tag)
            callback(pid, proc.returncode, *args)
        loop._add_reader(r, do_wait)

    def remove_child_handler(self, pid):
        return True


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop

    def get_child_watcher(self):
        return _WATCHER


_WATCHER = SimChildWatcher()


def install():
    asyncio.set_event_loop_policy(SimPolicy())
