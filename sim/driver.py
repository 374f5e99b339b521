"""Runs simulations: one forked child per run, many workers, minimisation, replay, evidence."""
import gc
import hashlib
import io
import json
import os
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import core

HERE = os.path.dirname(os.path.abspath(__file__))
CPU_LIMIT = 15
WALL_LIMIT = 60


class Ctx:
    """What a scenario family gets: kernel, choices, scratch directory, options."""

    def __init__(self, k, ch, scratch, profile):
        self.k = k
        self.ch = ch
        self.scratch = scratch
        self.profile = profile
        self.viol = []
        self.notes = {}
        self.desc = None
        self.nontrivial = False
        self.state_marks = set()
        self.aborted = None

    def violation(self, props, key, msg):
        if isinstance(props, str):
            props = [props]
        self.viol.append({'props': list(props), 'key': key, 'msg': msg})


class HarnessError(Exception):
    pass


def run_seed(base, family, i):
    h = hashlib.sha256(('%s:%s:%d' % (base, family, i)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def _child(family, profile, seed, replay, scratch, out_fd, want):
    """Body of a run; never returns."""
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    gc.disable()
    from . import boot, procs
    ch = core.Chooser(seed, replay)
    k = core.Kernel(ch)
    ctx = Ctx(k, ch, scratch, profile)
    cap_out, cap_err = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = cap_out, cap_err
    sys.__stdout__, sys.__stderr__ = cap_out, cap_err
    ctx.screen = cap_out
    ctx.err = cap_err
    os.chdir(scratch)

    def finish(harness=None):
        core.K = None
        digest = hashlib.sha1()
        for e in k.hist:
            digest.update(normal(repr(sorted(e.items())), ctx.scratch).encode())
        res = {
            'viol': ctx.viol, 'harness': harness, 'aborted': ctx.aborted,
            'steps': k.steps, 'switches': k.switches, 'sim_ns': k.now - k.t0,
            'faults': k.faults, 'sched': k.sched.hexdigest()[:16],
            'digest': digest.hexdigest(), 'n_hist': len(k.hist),
            'nontrivial': bool(ctx.nontrivial), 'desc_hash': hashlib.sha1(
                json.dumps(ctx.desc, sort_keys=True, default=str).encode()).hexdigest()[:16],
            'marks': sorted(ctx.state_marks), 'n_choices': len(ch.log),
        }
        if ctx.viol or harness or want:
            res['choices'] = ch.log
            res['desc'] = json.loads(json.dumps(ctx.desc, default=str))
            if want == 'full':
                res['trace'] = [fmt(e) for e in k.hist]
                res['stalls'] = k.stalls
                res['screen'] = cap_out.getvalue()
                res['err'] = cap_err.getvalue()
        data = json.dumps(res, default=str).encode()
        while data:
            n = os.write(out_fd, data)
            data = data[n:]
        os._exit(0)

    def on_abort(kind, msg):
        ctx.aborted = [kind, msg]
        try:
            # whatever state the run is in, judge what was recorded
            sav, core.K = core.K, None
            family.judge(ctx)
            core.K = sav
        except BaseException:
            finish('judge failed after abort: ' + traceback.format_exc())
        finish()
    k.on_abort = on_abort

    def on_xcpu(signum, frame):
        where = [f for f in traceback.extract_stack(frame) if f.filename.startswith(boot.REPO)]
        on_abort('spin', 'no progress in %d s of CPU time: %s' % (CPU_LIMIT, ' < '.join(
            '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in where[-3:][::-1])))
    signal.signal(signal.SIGXCPU, on_xcpu)
    procs.OS(k)
    procs.install()
    try:
        core.K = k
        family.run(ctx)
        k.rec('end')
        core.K = None
        family.judge(ctx)
    except BaseException as e:
        core.K = None
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        repo = [i for i, f in enumerate(frames) if f.startswith(boot.REPO + os.sep)]
        mine = [i for i, f in enumerate(frames) if f.startswith(HERE + os.sep)]
        if repo and repo[-1] > mine[-1] and not isinstance(e, HarnessError):
            # the code under test raised something its caller has no reason to expect
            ctx.violation(['*'], 'crash:' + type(e).__name__, '%s: %s (%s)' % (
                type(e).__name__, normal(str(e), scratch)[:200],
                os.path.relpath(frames[repo[-1]], boot.REPO)))
            k.rec('crash', exc=type(e).__name__)
            finish()
        finish(traceback.format_exc())
    finish()


def normal(text, scratch):
    """Without the names and addresses that belong to this process only."""
    return re.sub('0x[0-9a-f]+', '0x', text.replace(scratch, '<scratch>'))


def fmt(e):
    rest = {a: b for a, b in e.items() if a not in ('t', 'k', 'i')}
    return '%12.6f %-14s %s' % ((e['t'] - 1000 * core.NS) / core.NS, e['k'],
                               ' '.join('%s=%s' % (a, repr(b)[:160]) for a, b in rest.items()))


def run_once(family, profile, seed=None, replay=None, scratch=None, want=None):
    """Execute one run in a forked child and return its result dictionary."""
    if scratch is not None and not os.path.basename(scratch).startswith('w'):
        # the length of the path is part of what a run sees
        os.makedirs(os.path.join(scratch, 'w0-single00'), exist_ok=True)
        scratch = os.path.join(scratch, 'w0-single00')
    d = tempfile.mkdtemp(prefix='r', dir=scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _child(family, profile, seed, replay, d, w, want)
        except BaseException:
            try:
                os.write(w, json.dumps({'harness': traceback.format_exc(), 'viol': []}).encode())
            except BaseException:
                pass
        os._exit(79)
    os.close(w)
    buf = b''
    t0 = core.REAL_MONOTONIC()
    hung = False
    while True:
        left = WALL_LIMIT - (core.REAL_MONOTONIC() - t0)
        rd, _, _ = select.select([r], [], [], max(0, left))
        if not rd:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        buf += data
    os.close(r)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if buf and not hung:
        return json.loads(buf)
    res = {'viol': [], 'harness': None, 'steps': 0, 'switches': 0, 'sim_ns': 0, 'faults': {},
           'sched': '', 'digest': '', 'n_hist': 0, 'nontrivial': True, 'desc_hash': '',
           'marks': [], 'choices': replay if replay is not None else None,
           'aborted': None, 'n_choices': 0}
    if hung:
        res['died'] = 'no progress in %d s of real time' % WALL_LIMIT
    elif os.WIFSIGNALED(status):
        res['died'] = 'killed by signal %d' % os.WTERMSIG(status)
    else:
        res['died'] = 'exit status %d without a result' % os.WEXITSTATUS(status)
    return res


def _worker(family, profile, base_seed, idx, nworkers, lo, hi, deadline, out_fd, root, want_first):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = tempfile.mkdtemp(prefix='w%d-' % idx, dir=root)
    f = os.fdopen(out_fd, 'w')
    for i in range(lo + idx, hi, nworkers):
        if core.REAL_MONOTONIC() > deadline:
            break
        seed = run_seed(base_seed, family.NAME + '/' + profile, i)
        res = run_once(family, profile, seed=seed, scratch=scratch,
                       want='desc' if i < want_first else None)
        res['i'] = i
        res['seed'] = seed
        f.write(json.dumps(res) + '\n')
        f.flush()
    f.close()
    os._exit(0)


def explore(family, profile, base_seed, n, nworkers, deadline, root, want_first=2, stop_on=None):
    """Yield the results of runs 0..n-1 (in no particular order)."""
    pipes = {}
    pids = []
    for w in range(nworkers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            for p in pipes:
                os.close(p)
            try:
                _worker(family, profile, base_seed, w, nworkers, 0, n, deadline, wfd, root,
                        want_first)
            finally:
                os._exit(1)
        os.close(wfd)
        pipes[rfd] = b''
        pids.append(pid)
    try:
        while pipes:
            rd, _, _ = select.select(list(pipes), [], [], 5)
            for fd in rd:
                data = os.read(fd, 1 << 16)
                if not data:
                    os.close(fd)
                    del pipes[fd]
                    continue
                buf = pipes[fd] + data
                *lines, pipes[fd] = buf.split(b'\n')
                for ln in lines:
                    yield json.loads(ln)
    finally:
        for fd in list(pipes):
            os.close(fd)
        for p in pids:
            try:
                if pipes:
                    os.kill(p, signal.SIGTERM)
                os.waitpid(p, 0)
            except OSError:
                pass


def minimise(family, profile, choices, pred, scratch, budget_s=40, max_runs=1500):
    """Shorten and simplify a choice sequence while pred(result) stays true."""
    t0 = core.REAL_MONOTONIC()
    runs = 0
    best = list(choices)

    def attempt(cand):
        nonlocal runs, best
        if runs >= max_runs or core.REAL_MONOTONIC() - t0 > budget_s:
            return False
        runs += 1
        res = run_once(family, profile, replay=cand, scratch=scratch, want='desc')
        if pred(res):
            used = res.get('choices')
            if used is None or len(used) > len(cand):
                used = cand
            best = list(used)
            return True
        return False

    def strip(seq):
        while seq and seq[-1] == 0:
            seq = seq[:-1]
        return seq

    changed = True
    while changed and runs < max_runs and core.REAL_MONOTONIC() - t0 < budget_s:
        changed = False
        # truncate
        n = len(best)
        step = n // 2
        while step >= 1:
            cut = best[:len(best) - step]
            if len(cut) < len(best) and attempt(cut):
                changed = True
            else:
                step //= 2
        # delete chunks
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and attempt(cand):
                    changed = True
                else:
                    i += size
            size //= 2
        # zero chunks
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * min(size, len(best) - i) + best[i + size:]
                    if attempt(cand):
                        changed = True
                i += size
            size //= 2
        # lower values
        for i in range(len(best)):
            if i >= len(best):
                break
            v = best[i]
            for nv in (v // 2, v - 1):
                if 0 < nv < v:
                    cand = best[:i] + [nv] + best[i + 1:]
                    if attempt(cand):
                        changed = True
                        break
    return strip(best), runs
