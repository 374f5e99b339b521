"""Helpers shared by the scenario families."""
import asyncio
import errno
import os
import signal
import threading

from . import core
from .core import NS
from .procs import MS, Plan

SIGINT, SIGTERM, SIGKILL = signal.SIGINT, signal.SIGTERM, signal.SIGKILL
GRID = (0, 250, 500, 1000, 1500, 2000, 10, 100, 1, 750, 3000)
JITTER = (0, 0, 0, 1, 2, 5, 37)


def t_ms(ch, grid=GRID, jitter=JITTER):
    """A time in ms from a small grid, so that coincidences are common."""
    return ch.pick(grid, 'grid') + ch.pick(jitter, 'jit')


def setup_logging(ctx):
    """Send launch's log files to the scratch directory of this run."""
    import launch.logging
    d = os.path.join(ctx.scratch, 'log')
    os.makedirs(d, exist_ok=True)
    launch.logging.reset()
    launch.logging.launch_config.log_dir = d
    os.environ['ROS_LOG_DIR'] = d
    return d


def baseline_signals(ctx, kbi=True):
    """Host set-up: Python-level handlers exist for every signal that is delivered."""
    def noop(signum, frame):
        ctx.k.rec('py_handler', sig=int(signum))
    for s in (signal.SIGTERM, signal.SIGQUIT, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2):
        signal.signal(s, noop)
    signal.signal(signal.SIGINT, signal.default_int_handler if kbi else noop)
    ctx.notes['kbi'] = kbi
    return noop


def swarm(ctx, threads=False, allow_stall=True):
    """Per-run choice of which kinds of disturbance are on at all (swarm testing)."""
    ch, k = ctx.ch, ctx.k
    if allow_stall and ch.chance(0.3, 'stall?'):
        k.stall_p = ch.pick((0.01, 0.05, 0.2), 'stall_p')
        k.stall_max_ms = ch.pick((3, 50, 600), 'stall_max')
    if threads:
        k.preempt_mean = ch.pick((0, 400, 100, 30, 8, 1500), 'preempt_mean')
        if k.preempt_mean:
            k.desched_p = ch.pick((0, 0, 0, 0.02, 0.1, 0.3), 'desched_p')
        k.arm_preempt()


def run_service(ctx, ls, mode, **kw):
    """Run the service the way a user does; returns its return code."""
    k = ctx.k
    if mode == 'run':
        rc = ls.run(**kw)
    else:
        loop = asyncio.get_event_loop()
        task = loop.create_task(ls.run_async(**kw))
        while True:
            try:
                rc = loop.run_until_complete(task)
                break
            except KeyboardInterrupt:
                continue
    k.rec('returned', rc=rc)
    return rc


def make_loop():
    """The main thread's loop, set the way osrf_pycommon expects it."""
    from osrf_pycommon.process_utils import get_loop
    asyncio.set_event_loop(asyncio.get_event_loop_policy().new_event_loop())
    return get_loop()


def spawn_thread(ctx, name, fn):
    """A client thread of the code under test; exceptions are recorded, not lost."""
    def body():
        try:
            fn()
            ctx.k.rec('thread_ok', name=name)
        except BaseException as e:          # noqa
            ctx.k.rec('thread_exc', name=name, exc=type(e).__name__, msg=str(e)[:200])
    t = threading.Thread(target=body, name=name, daemon=True)
    t.start()
    return t


def hist(ctx, *kinds):
    return [e for e in ctx.k.hist if e['k'] in kinds]


def first(ctx, *kinds):
    for e in ctx.k.hist:
        if e['k'] in kinds:
            return e
    return None


def pname(p):
    return p['name']
