"""Scenario family: several launches and threads that set up and use launch's logging."""
import errno
import importlib.util
import os
import re
import socket
import sys
import time
import warnings

from . import boot, common, core
from .common import first, hist

NAME = 'logging'
PROFILES = ('dirs', 'lines')


class Crash(BaseException):
    """The simulated launch dies here."""


def draw(ctx):
    ch = ctx.ch
    k = ctx.k
    k.preempt_mean = ch.pick((8, 30, 3, 100, 0), 'preempt_mean')
    s = {'kind': ctx.profile}
    s['env'] = ch.pick(('ROS_LOG_DIR', 'ROS_HOME', 'HOME'))
    s['base_exists'] = ch.chance(0.6)
    s['latest'] = ch.pick((None, None, 'link', 'dangling', 'dir', 'file'))
    s['launches'] = []
    n = ch.rng_int(2, 5) if ctx.profile == 'dirs' else 1
    same_pid = ch.chance(0.5)
    for i in range(n):
        s['launches'].append({'pid': 4242 if same_pid else 4242 + i,
                              'host': 'box' if same_pid or ch.chance(0.7) else 'box%d' % i,
                              'threads': ch.pick((1, 1, 2, 3)) if ctx.profile == 'dirs'
                              else ch.rng_int(2, 5)})
    s['p_taken'] = ch.pick((0, 0, 0.3, 0.6)) if ctx.profile == 'dirs' else 0
    s['p_link_err'] = ch.pick((0, 0, 0, 0.3, 1)) if ctx.profile == 'dirs' else 0
    s['p_mkdir_err'] = ch.pick((0, 0, 0, 0.15)) if ctx.profile == 'dirs' else 0
    s['p_crash'] = ch.pick((0, 0, 0, 0.05)) if ctx.profile == 'dirs' else 0
    s['p_jump'] = ch.pick((0, 0, 0.1)) if ctx.profile == 'dirs' else 0
    s['lines'] = ch.rng_int(1, 12) if ctx.profile == 'lines' else 1
    s['sizes'] = ch.pick(((0, 5), (0, 5, 300), (5, 9000, 70000)))
    s['rotate'] = ch.choose(3) if ctx.profile == 'lines' else 0
    s['full'] = ctx.profile == 'lines' and ch.chance(0.15)
    s['loggers'] = ch.pick(('own', 'shared', 'output'))
    s['reformat'] = ch.chance(0.2)
    ctx.desc = dict(s, preempt=k.preempt_mean)
    k.arm_preempt()
    return s


def copy_of_logging(name):
    """A copy of launch.logging with a state of its own: the one of another process."""
    d = os.path.join(boot.REPO, 'launch', 'launch', 'logging')
    spec = importlib.util.spec_from_file_location(
        name, os.path.join(d, '__init__.py'), submodule_search_locations=[d])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def run(ctx):
    import logging
    import logging.handlers
    k = ctx.k
    ch = ctx.ch
    s = ctx.s = draw(ctx)
    core.relax_preemption((os.path.join(boot.REPO, 'launch') + os.sep,
                           os.path.dirname(logging.__file__) + os.sep))
    logging._lock = core.SimRLock()
    base = os.path.join(ctx.scratch, 'h', 'log' if s['env'] == 'ROS_HOME' else '.ros/log')
    if s['env'] == 'ROS_LOG_DIR':
        os.environ['ROS_LOG_DIR'] = base
    else:
        os.environ.pop('ROS_LOG_DIR', None)
        os.environ['HOME'] = os.path.join(ctx.scratch, 'h')
        if s['env'] == 'ROS_HOME':
            os.environ['ROS_HOME'] = os.path.join(ctx.scratch, 'h')
    ctx.base = base
    latest = os.path.join(base, 'latest')
    if s['base_exists'] or s['latest']:
        os.makedirs(base)
    if s['latest'] == 'link':
        os.mkdir(os.path.join(base, 'old'))
        os.symlink(os.path.join(base, 'old'), latest)
    elif s['latest'] == 'dangling':
        os.symlink(os.path.join(base, 'gone'), latest)
    elif s['latest'] == 'dir':
        os.makedirs(os.path.join(latest, 'content'))
    elif s['latest'] == 'file':
        open(latest, 'w').write('x')
    mods = [copy_of_logging('simlog%d' % i) for i in range(len(s['launches']))]
    warnings.simplefilter('always')
    whoami = {}

    def me():
        return whoami.get(k.cur.tid)

    def showwarning(message, category, *a, **kw):
        if issubclass(category, ResourceWarning):
            return      # the harness's own files
        k.rec('warning', who=me(), msg=str(message).replace(ctx.scratch, 'S')[:120])
    warnings.showwarning = showwarning
    real_getpid, real_host = os.getpid, socket.gethostname
    os.getpid = lambda: s['launches'][me()]['pid'] if me() is not None else real_getpid()
    socket.gethostname = lambda: s['launches'][me()]['host'] if me() is not None else real_host()
    taken = [0]

    def seam(name, mutates):
        real = getattr(os, name)

        def call(*a, **kw):
            path = a[1] if name == 'symlink' and len(a) > 1 else (a[0] if a else None)
            if me() is None or k.in_kernel or not isinstance(path, str) or \
                    not path.startswith(base[:-4]) or k.in_events:
                return real(*a, **kw)
            k.yield_(name)
            if k.preempt_mean:
                k.now += 1000
            if s['p_jump'] and ch.chance(s['p_jump'], 'jump'):
                k.fault('clock_jump')
                k.wall_offset -= ch.pick((1000, 5000, 10 ** 9), 'jump_by')
            if mutates:
                if ch.chance(s['p_crash'], 'crash'):
                    k.fault('crash')
                    k.rec('crashed', who=me(), at=name)
                    raise Crash()
                if name == 'mkdir':
                    if '-' in os.path.basename(path) and taken[0] < 6 and \
                            ch.chance(s['p_taken'], 'taken'):
                        taken[0] += 1
                        take(path)
                    if ch.chance(s['p_mkdir_err'], 'mkdir_err'):
                        k.fault('mkdir_error')
                        k.rec('mkdir_error', who=me())
                        raise OSError(errno.ENOSPC, 'No space left on device', path)
                elif os.path.dirname(path) == base and ch.chance(s['p_link_err'], 'link_err'):
                    k.fault(name + '_error')
                    k.rec('link_error', who=me())
                    raise OSError(errno.EROFS, 'Read-only file system', path)
            try:
                r = real(*a, **kw)
            except OSError as e:
                if mutates:
                    k.rec('fs', who=me(), op=name, exc=type(e).__name__)
                raise
            if mutates:
                k.rec('fs', who=me(), op=name)
                k.mark(name, me())
            return r
        setattr(os, name, call)
        return real
    real = {}

    def take(path):
        """Another program takes the name just before."""
        what = ch.pick(('dir', 'file', 'link'), 'take')
        k.fault('name_taken_' + what)
        try:
            if what == 'dir':
                real['mkdir'](path)
            elif what == 'file':
                os.close(os.open(path, os.O_CREAT | os.O_EXCL))
            else:
                real['symlink']('/nonexistent', path)
            k.rec('taken', path=path)
        except OSError:
            pass
    for name, mutates in (('stat', False), ('lstat', False), ('mkdir', True), ('symlink', True),
                          ('unlink', True), ('remove', True), ('rename', True),
                          ('replace', True)):
        real[name] = seam(name, mutates)

    nlines = s['lines']

    def text(i, j, n):
        size = s['sizes'][(i + j + n) % len(s['sizes'])]
        return '<%d.%d.%d %s>' % (i, j, n, 'x' * size)

    def launch_thread(i, j):
        cfg = s['launches'][i]
        mod = mods[i]

        def body():
            whoami[k.cur.tid] = i
            try:
                d = mod.launch_config.log_dir
                k.rec('dir', who=i, thread=j, path=d, isdir=real_isdir(d))
            except OSError as e:
                k.rec('dir_error', who=i, exc=type(e).__name__)
                return
            except Crash:
                return
            if s['loggers'] == 'output':
                logger = mod.get_output_loggers('p%d' % i, 'both' if j % 2 else 'full')[j % 2]
            elif s['loggers'] == 'own':
                logger = mod.get_logger('l%d.%d' % (i, j))
            else:
                logger = mod.get_logger('l%d' % i)
            for n in range(nlines):
                if s['reformat'] and n == 1:
                    mod.launch_config.set_log_format('{created:.7f} {name} {msg}')
                logger.info(text(i, j, n))
                k.rec('line', who=i, thread=j, n=n)
                if n % 4 == 3:
                    time.sleep(0.001)
        return body

    def real_isdir(p):
        import stat
        try:
            return stat.S_ISDIR(real['stat'](p).st_mode)
        except OSError:
            return False
    threads = []
    ctx.log_dir = None
    if ctx.profile == 'lines':
        # the directory exists from the start here, it may be on a full disk
        d = ctx.log_dir = os.path.join(ctx.scratch, 'logs')
        os.mkdir(d)
        mods[0].launch_config.log_dir = d
        if s['full']:
            os.symlink('/dev/full', os.path.join(d, 'launch.log'))
            k.fault('disk_full')
    for i, lc in enumerate(s['launches']):
        for j in range(lc['threads']):
            threads.append(common.spawn_thread(ctx, 't%d.%d' % (i, j), launch_thread(i, j)))
    for n in range(s['rotate']):
        for _ in range(ch.choose(30, 'rot')):
            k.yield_('rotate')
        f = os.path.join(d, 'launch.log')
        if os.path.exists(f) and not s['full']:
            real['rename'](f, f + '.%d' % n)
            k.fault('log_rotated')
    for t in threads:
        t.join(60)
        if t.is_alive():
            k.rec('thread_stuck', name=t.name)
    for name in real:
        setattr(os, name, real[name])
    os.getpid, socket.gethostname = real_getpid, real_host
    ctx.final_latest = None
    if os.path.lexists(latest):
        ctx.final_latest = ('link', os.readlink(latest)) if os.path.islink(latest) else \
            ('dir', '') if os.path.isdir(latest) else ('file', '')
    ctx.files = {}
    for e in hist(ctx, 'dir'):
        d = e['path']
        if d in ctx.files:
            continue
        ctx.files[d] = {fn: open(os.path.join(d, fn), errors='replace', newline='').read()
                        for fn in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, fn))}


TOKEN = re.compile(r'<\d+\.\d+\.\d+ x*>')
START = re.compile(r'<\d+\.\d+\.\d+')


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    P = ['C19']
    ctx.nontrivial = k.switches > 2
    if ctx.aborted:
        V(P, 'hang', 'stuck: %s: %s' % tuple(ctx.aborted))
        return
    for e in hist(ctx, 'thread_stuck'):
        V(P, 'stuck', 'thread %s is stuck' % e['name'])
    for e in hist(ctx, 'thread_exc'):
        V(P, 'raised', 'thread %s failed with %s: %s' % (e['name'], e['exc'], e['msg']))
    if ctx.viol:
        return
    crashed = {e['who'] for e in hist(ctx, 'crashed')}
    nospace = {e['who'] for e in hist(ctx, 'mkdir_error')}
    linkerr = {e['who'] for e in hist(ctx, 'link_error')}
    for e in hist(ctx, 'dir_error'):
        if e['who'] not in nospace and e['who'] not in crashed:
            V(P, 'dir_error', 'launch %d got no log directory: %s' % (e['who'], e['exc']))
            return
    byl = {}
    for e in hist(ctx, 'dir'):
        if not e['isdir']:
            V(P, 'no_dir', 'the log directory of launch %d does not exist' % e['who'])
            return
        if ctx.log_dir is None and os.path.dirname(e['path']) != ctx.base:
            V(P, 'elsewhere', 'the log directory is not below the configured one: %s' %
              os.path.relpath(e['path'], ctx.scratch))
            return
        byl.setdefault(e['who'], set()).add(e['path'])
    taken = {e['path'] for e in hist(ctx, 'taken')}
    for i, ds in byl.items():
        if len(ds) > 1:
            V(P, 'two_dirs', 'the threads of launch %d got %d log directories' % (i, len(ds)))
            return
        if ds & taken:
            V(P, 'shared_dir', 'launch %d got a directory that existed already' % i)
            return
    seen = {}
    for i, ds in byl.items():
        d = next(iter(ds))
        if d in seen:
            V(P, 'shared_dir', 'launches %d and %d got the same log directory' % (seen[d], i))
            return
        seen[d] = i
    if ctx.log_dir is None:
        if s['latest'] in ('dir', 'file'):
            if ctx.final_latest is None or ctx.final_latest[0] != s['latest']:
                V(P, 'clobbered', 'latest was a %s and is %s now' % (s['latest'], ctx.final_latest))
            warned = {e['who'] for e in hist(ctx, 'warning')}
            for i in byl:
                if i not in warned and i not in crashed:
                    V(P, 'no_warning', 'launch %d could not set the link and did not warn' % i)
        elif byl and not crashed and not linkerr and not nospace:
            if ctx.final_latest is None or ctx.final_latest[0] != 'link' or os.path.join(
                    ctx.base, ctx.final_latest[1]) not in seen:
                V(P, 'latest', 'latest is %s, not one of the new directories' % (
                    ctx.final_latest,))
        for i in linkerr:
            if i in byl and i not in crashed and i not in {
                    e['who'] for e in hist(ctx, 'warning')}:
                V(P, 'no_warning', 'launch %d could not set the link and did not warn' % i)
    # lines
    if s['full']:
        where = {'screen': ctx.screen.getvalue()}
    else:
        where = {'screen': ctx.screen.getvalue()}
        for d, files in ctx.files.items():
            i = seen.get(d)
            txt = ''.join(files[fn] for fn in sorted(files, key=order)
                          if fn.startswith('launch.log'))
            where[d] = txt
    for d, txt in where.items():
        want = [(e['who'], e['thread'], e['n']) for e in hist(ctx, 'line')
                if d == 'screen' or seen.get(d) == e['who']]
        got = {}
        order_ = {}
        for ln in txt.split('\n'):
            m = TOKEN.search(ln)
            st = START.findall(ln)
            if len(st) != (1 if m else 0) or (m and not ln.endswith(m.group())) or (
                    not m and 'xxxx' in ln):
                V(P, 'torn', 'a log line is not whole: %s ... %s' % (ln[:60], ln[-60:]))
                return
            if m:
                key = tuple(int(x) for x in st[0][1:].split('.'))
                want_size = s['sizes'][sum(key) % len(s['sizes'])]
                if len(m.group()) != len('<%d.%d.%d >' % key) + want_size:
                    V(P, 'torn', 'line %s has %d characters' % (key, len(m.group())))
                    return
                got[key] = got.get(key, 0) + 1
                order_.setdefault(key[:2], []).append(key[2])
        for key in want:
            if got.get(key, 0) != 1:
                V(P, 'count', 'line %s was written %d times to %s' % (
                    key, got.get(key, 0), 'the screen' if d == 'screen' else 'launch.log'))
                return
        for key, ns in order_.items():
            if ns != sorted(ns):
                V(P, 'order', 'the lines of thread %s are out of order: %s' % (key, ns))
                return


def order(fn):
    m = re.match(r'launch\.log\.(\d+)$', fn)
    return int(m.group(1)) if m else 10 ** 6
