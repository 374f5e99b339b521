"""Simulated operating-system processes behind subprocess.Popen, os.kill and pty.openpty."""
import errno
import io
import os
import signal
import subprocess

from . import core
from .core import NS

MS = 1_000_000
FIRST_PID = 5_000_000     # above the kernel's pid_max: can never name a real process


class Plan:
    """What one instance of a program does.

    steps: [(dt_ns, op, *args)] executed one after the other:
        ('out', fd, bytes) ('exit', code) ('die', signum) ('closefd', fd) ('hang',)
    sig: {signum: ('die', dt) | ('exit', dt, code, out) | ('ignore',)}
    spawn: None, or an errno to fail with; spawn_ns: how long starting it takes
    linger: list of (dt_ns, fd, bytes) written by a descendant after the exit
    """

    def __init__(self, steps=(), sig=None, spawn=None, spawn_ns=0, linger=(), linger_close_ns=0):
        self.steps = list(steps)
        self.sig = dict(sig or {})
        self.spawn = spawn
        self.spawn_ns = spawn_ns
        self.linger = list(linger)
        self.linger_close_ns = linger_close_ns

    def describe(self):
        return {'steps': [[s[0] // MS] + [str(x) if callable(x) else x if not isinstance(x, bytes) else
                                          x.decode('latin1') for x in s[1:]] for s in self.steps],
                'sig': {signal.Signals(s).name: list(r) for s, r in self.sig.items()},
                'spawn_errno': errno.errorcode.get(self.spawn) if self.spawn else None,
                'spawn_ms': self.spawn_ns / MS}


class SimProc:
    def __init__(self, k, pid, tag, plan, inst):
        self.k = k
        self.pid = pid
        self.tag = tag
        self.plan = plan
        self.inst = inst
        self.exited = False
        self.reaped = False
        self.dying = False
        self.returncode = None
        self.exit_fd_w = None
        self.wfds = {}
        self.stdin_r = None
        self.tty = False
        self.pc = 0
        self.written = {1: b'', 2: b''}
        self.lingered = {1: b'', 2: b''}
        self.spawn_t = k.now
        self.exit_t = None
        self.closed_t = None
        self.signals = []

    def start(self):
        self._next()

    def _next(self):
        if self.exited or self.dying:
            return
        if self.pc >= len(self.plan.steps):
            return   # runs until a signal
        st = self.plan.steps[self.pc]
        self.k.after(st[0], self._do, self.pc, 0)

    def _do(self, pc, off):
        if self.exited or self.dying or pc != self.pc:
            return
        st = self.plan.steps[pc]
        op = st[1]
        if op == 'out':
            data = st[3](self) if callable(st[3]) else st[3]
            if not self._write(st[2], data, off, lambda o: self.k.after(MS, self._do, pc, o)):
                return
        elif op == 'exit':
            self._exit(st[2])
            return
        elif op == 'die':
            self._exit(-st[2])
            return
        elif op == 'closefd':
            fd = self.wfds.pop(st[2], None)
            if fd is not None:
                os.close(fd)
        self.pc += 1
        self._next()

    def _write(self, fd, data, off, retry):
        w = self.wfds.get(fd)
        if w is None:
            return True
        if self.tty:
            data = data.replace(b'\n', b'\r\n')
        while off < len(data):
            try:
                n = os.write(w, data[off:])
            except BlockingIOError:
                self.k.fault('pipe_full')
                retry(off)
                return False
            except BrokenPipeError:
                self.k.rec('epipe', pid=self.pid, name=self.tag, fd=fd)
                return True
            tgt = self.lingered if self.exited else self.written
            tgt[fd] += data[off:off + n]
            off += n
        self.k.rec('wrote', pid=self.pid, name=self.tag, fd=fd, n=len(data))
        return True

    def _exit(self, code):
        if self.exited:
            return
        self.exited = True
        self.returncode = code
        self.exit_t = self.k.now
        self.k.rec('exit', pid=self.pid, name=self.tag, code=code, inst=self.inst)
        self.k.mark('exit', self.tag)
        if self.stdin_r is not None:
            os.close(self.stdin_r)
            self.stdin_r = None
        if self.plan.linger or self.plan.linger_close_ns:
            self.k.fault('grandchild_keeps_pipes')
            t = 0
            for dt, fd, data in self.plan.linger:
                t += dt
                self.k.after(t, self._write, fd, data, 0, lambda o: None)
            self.k.after(t + self.plan.linger_close_ns, self._close_fds)
        else:
            self._close_fds()
        if self.exit_fd_w is not None:
            os.write(self.exit_fd_w, b'x')

    def _close_fds(self):
        for fd in self.wfds.values():
            os.close(fd)
        self.wfds = {}
        self.closed_t = self.k.now

    def signal(self, signum, via):
        """A kill(2) of this pid by the code under test."""
        signum = int(signum)
        self.k.rec('kill', pid=self.pid, name=self.tag, sig=signum, inst=self.inst,
                   exited=self.exited, reaped=self.reaped)
        self.signals.append(self.k.hist[-1])
        self.k.mark('kill', self.tag, signum)
        if self.exited or signum == 0:
            return
        self.react(signum)

    def react(self, signum):
        r = self.plan.sig.get(signum, ('die', 0))
        if signum == signal.SIGKILL and r[0] == 'ignore':
            r = ('die', 0)
        if r[0] == 'ignore':
            self.k.fault('signal_ignored')
            return
        if r[0] == 'die':
            if signum == signal.SIGKILL:
                self.dying = True
                if r[1] > 100 * MS:
                    self.k.fault('slow_kill')
            self.k.after(r[1], self._exit, -signum)
        elif r[0] == 'exit':
            if self.dying:
                return
            self.dying = True
            if r[1] > 100 * MS:
                self.k.fault('slow_signal_reaction')
            out = r[3] if len(r) > 3 else None
            self.k.after(r[1], self._exit_with, r[2], out)

    def _exit_with(self, code, out):
        if self.exited:
            return
        if out:
            self._write(1, out, 0, lambda o: None)
        self._exit(code)


class OS:
    """Process table and program registry of one run."""

    def __init__(self, k):
        self.k = k
        k.procs = {}
        k.os = self
        self.programs = {}
        self.next_pid = FIRST_PID
        self.spawns = []
        self.foreign_kills = []

    def program(self, name, plans):
        """plans: list; instance i uses plans[min(i, last)]."""
        self.programs[name] = {'plans': list(plans), 'n': 0}

    def lookup(self, args, shell):
        if isinstance(args, (str, bytes)):
            words = (args if isinstance(args, str) else args.decode()).split()
        else:
            words = [os.fspath(a) if not isinstance(a, bytes) else a.decode() for a in args]
            if shell and len(words) == 1:
                words = words[0].split()
        for w in words:
            b = os.path.basename(w)
            if b in self.programs:
                return b
        return None

    def alive(self):
        return [p for p in self.k.procs.values() if not p.exited]


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, **kwargs):
        k = core.K
        osim = k.os
        self.args = args
        self.returncode = None
        name = osim.lookup(args, shell)
        if name is None:
            k.rec('spawn_fail', name=str(args), errno='ENOENT')
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(args))
        prog = osim.programs[name]
        inst = prog['n']
        prog['n'] += 1
        plan = prog['plans'][min(inst, len(prog['plans']) - 1)]
        seen_env = dict(os.environ if env is None else env)
        argv = args if isinstance(args, str) else [
            a if isinstance(a, str) else os.fsdecode(a) for a in args]
        k.rec('spawn_try', name=name, inst=inst, argv=argv, shell=bool(shell), cwd=cwd)
        osim.spawns.append({'name': name, 'inst': inst, 't': k.now, 'env': seen_env,
                            'argv': argv, 'cwd': cwd, 'ok': plan.spawn is None, 'shell': shell})
        if plan.spawn_ns:
            k.stall(plan.spawn_ns, 'slow_spawn')
        if plan.spawn is not None:
            k.fault('spawn_fail_' + errno.errorcode[plan.spawn])
            k.rec('spawn_fail', name=name, inst=inst, errno=errno.errorcode[plan.spawn])
            raise OSError(plan.spawn, os.strerror(plan.spawn), name)
        pid = osim.next_pid
        osim.next_pid += 1
        self.pid = pid
        self._proc = p = SimProc(k, pid, name, plan, inst)
        osim.spawns[-1]['pid'] = pid
        self.stdin = self.stdout = self.stderr = None
        if stdin == subprocess.PIPE:
            r, w = os.pipe()
            p.stdin_r = r
            self.stdin = io.open(w, 'wb', 0)
        elif stdin is not None and not isinstance(stdin, int):
            p.stdin_r = os.dup(stdin.fileno())
        for fd, spec in ((1, stdout), (2, stderr)):
            if spec == subprocess.PIPE:
                r, w = os.pipe()
                os.set_blocking(w, False)
                p.wfds[fd] = w
                if fd == 1:
                    self.stdout = io.open(r, 'rb', 0)
                else:
                    self.stderr = io.open(r, 'rb', 0)
            elif spec == subprocess.STDOUT:
                if 1 in p.wfds:
                    p.wfds[2] = os.dup(p.wfds[1])
            elif isinstance(spec, int) and spec >= 0:
                p.wfds[fd] = os.dup(spec)
                os.set_blocking(p.wfds[fd], False)
                p.tty = True
        k.procs[pid] = p
        k.rec('spawn', pid=pid, name=name, inst=inst)
        k.mark('spawn', name)
        p.argv, p.env = argv, seen_env
        self._text = universal_newlines or kwargs.get('text')
        p.start()

    def communicate(self, input=None, timeout=None):
        k, p = core.K, self._proc
        t = k.now
        dl = None if timeout is None else k.now + int(timeout * NS)
        if not k.block(lambda: p.exited and p.closed_t is not None, dl, 'Popen.communicate'):
            raise subprocess.TimeoutExpired(self.args, timeout)
        k.stalls.append((t, k.now - t))
        k.fault('blocking_command')
        p.reaped = True
        self.returncode = p.returncode
        out = []
        for f in (self.stdout, self.stderr):
            data = None if f is None else f.readall() or b''
            if data is not None and self._text:
                data = data.decode().replace('\r\n', '\n').replace('\r', '\n')
            out.append(data)
        return tuple(out)

    def poll(self):
        if self.returncode is None and self._proc.reaped:
            self.returncode = self._proc.returncode
        return self.returncode

    def wait(self, timeout=None):
        k = core.K
        dl = None if timeout is None else k.now + int(timeout * NS)
        if not k.block(lambda: self._proc.exited, dl, 'Popen.wait'):
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._proc.returncode
        return self.returncode

    def send_signal(self, sig):
        self.poll()
        if self.returncode is not None:
            return
        self._proc.signal(sig, 'popen')

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdin, self.stdout, self.stderr):
            if f is not None:
                f.close()


def _sim_kill(pid, sig):
    k = core.K
    p = k.procs.get(abs(pid)) if k is not None else None
    if p is None:
        if k is not None:
            k.os.foreign_kills.append((pid, int(sig)))
            k.rec('foreign_kill', pid=pid, sig=int(sig))
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    if p.reaped:
        k.rec('stale_kill', pid=pid, sig=int(sig), name=p.tag)
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    p.signal(sig, 'kill')


def _sim_openpty():
    r, w = os.pipe()
    return r, w


def install():
    """Only in the child process of a run: nothing here may reach a real process."""
    import pty
    subprocess.Popen = SimPopen
    os.kill = _sim_kill
    os.killpg = _sim_kill
    os.getpgid = lambda pid: pid
    pty.openpty = _sim_openpty

    def no_wait(*a, **kw):
        raise ChildProcessError(errno.ECHILD, 'No child processes')
    os.waitpid = no_wait
    os.waitid = no_wait
    signal.pidfd_send_signal = no_wait
