"""Scenario family: random launch programs against an executable reference model.

A program is a tree of actions and event handlers.  The real launch service executes it in the
simulator; every leaf records what it observes.  Afterwards a small interpreter of the same
program (class Model) walks through the recorded history and accepts or rejects it.
"""
import asyncio
import logging
import os
import re
import shlex
import signal
import sys
import types

from . import common, core, front
from .common import MS, NS, SIGINT, hist, first
from .procs import Plan

NAME = 'prog'
SLACK = 8 * MS
MAX_EMIT = 24
NTYPES = 4
CFG = ('a', 'b', 'c')
ENV = ('SIM_A', 'SIM_B', 'SIM_C')
LOC = ('x', 'y')
# configurations that the start of processes depends on
PREFIX = {'launch-prefix': ('', 'pre', 'pre -x "a b"', ' pre  -y '),
          'launch-prefix-filter': ('', 'simq0', 'simq', 'imq', '.*q1', 'q0', 'other')}

# weights of the node kinds per profile
BASE = {'rec': 6, 'emit': 4, 'emit_static': 1, 'reg': 2, 'unreg': 1, 'locals': 1, 'globals': 1,
        'group': 2, 'ld': 1, 'func': 1, 'timer': 1, 'setcfg': 1, 'tact': 1}
PROFILES = {
    'order': {},
    'locals': {'locals': 6, 'globals': 3, 'timer': 4, 'raise': 1, 'emit': 5},
    'errors': {'raise': 4, 'badret': 1, 'coro': 3, 'future': 1, 'timer': 2, 'emit': 5, 'proc': 1,
               'shutdown': 1},
    'async': {'coro': 6, 'future': 3, 'timer': 2, 'tact': 2, 'proc': 1, 'shutdown': 1},
    'timers': {'timer': 8, 'cancel': 5, 'shutdown': 1, 'coro': 1, 'emit': 3},
    'config': {'setcfg': 8, 'unsetcfg': 2, 'resetcfg': 2, 'declare': 3, 'group': 7, 'include': 4, 'timer': 2,
               'emit': 2, 'raise': 1, 'reg': 1, 'unreg': 0, 'locals': 0, 'globals': 0},
    'files': {'include': 18, 'timer': 6, 'group': 6, 'func': 4, 'ld': 4, 'raise': 1, 'rec': 16,
              'locals': 0, 'globals': 0, 'setcfg': 0, 'emit': 6, 'reg': 3},
    'front': {'group': 7, 'timer': 4, 'include': 7, 'setcfg': 8, 'declare': 3, 'setenv': 4,
              'appendenv': 3, 'unsetenv': 1, 'resetenv': 1, 'resetcfg': 1, 'proc': 5, 'log': 6,
              'func': 1, 'ld': 1, 'emit': 2, 'reg': 2, 'raise': 1, 'shutdown': 1, 'locals': 0, 'globals': 0,
              'tact': 0, 'unreg': 0, 'emit_static': 0},
    'cmd': {'setcfg': 9, 'unsetcfg': 3, 'resetcfg': 1, 'group': 6, 'proc': 9, 'timer': 2, 'emit': 2, 'include': 1,
            'setenv': 2, 'unreg': 0, 'locals': 0, 'globals': 0, 'raise': 1},
    'env': {'setenv': 7, 'unsetenv': 3, 'appendenv': 4, 'resetenv': 2, 'group': 7, 'include': 1,
            'proc': 5, 'timer': 2, 'emit': 2, 'raise': 1, 'reg': 1, 'unreg': 0, 'setcfg': 1},
}
# every deviation in these profiles is a violation of this property, too
PROP_OF = {'files': 'C28', 'front': 'C30'}
TEXTS = ('v0', 'v1', 'v2', 'a b', "it's", 'say "hi"', 'back\\slash', '$x', 'a$', '(p)', ' lead', 'trail ',
         '<&>', 'ü€', '1', '1.0', 'true', 'False', '', '#c', 'k: v', '- x', '{b}', '[1, 2]', '~', 'null',
         "''", 'pay $(x)', "don't (say) \"it\"", '1e0', '%s', 'x=y;z', 'on', '0')
EVALS = ('1 + 1', "'a' * 3", "len('abc')", 'not False', "'x' if 1 > 0 else 'y'", 'floor(2.5)',
         "'a b'.split()[1]", 'math.sqrt(4)', "{'k': 1}['k']", "'\\x41'")


def file_name(n):
    return ('d%d/inc%d.%s' % (n['dir'], n['id'], n.get('ext', 'launch.py'))).rstrip('.')


# ---------------------------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------------------------
class Gen:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ch = ctx.ch
        w = dict(BASE)
        w.update(PROFILES[ctx.profile])
        self.keys = CFG + (tuple(PREFIX) * 2 if ctx.profile == 'cmd' else ())
        if ctx.profile in ('config', 'env', 'cmd'):
            for x in ('locals', 'globals', 'tact'):
                w[x] = 0
        self.w = w
        self.n = 0
        self.left = self.ch.rng_int(8, 45, 'size')
        self.handlers = []
        self.timers = []
        self.targets = []
        self.nproc = 0
        self.stubs = False
        self.inc_depth = 0
        self.in_file = False
        self.in_handler = 0
        self.front = ctx.profile == 'front'
        self.native = None       # the front end of the file that is written

    def nid(self):
        self.n += 1
        return self.n

    def expr(self, simple=False):
        ch = self.ch
        if self.front and not simple:
            e = [self.part(0) for _ in range(1 + ch.chance(0.35, 'parts'))]
            return e if front.possible(e) else [('t', 'v3')]
        r = ch.weighted([(5, 't'), (4, 'lc'), (2, 'env'), (2, 'mix')], 'expr')
        t = ('t', 'v%d' % ch.choose(6))
        if r == 't':
            return [t]
        if r == 'lc':
            return [('lc', ch.pick(CFG), None if ch.chance(0.12, 'nodef') else ch.pick(('', 'dflt')))]
        if r == 'env':
            return [('env', ch.pick(ENV), None if ch.chance(0.12, 'nodef') else ch.pick(('', 'edf')))]
        return [('lc', ch.pick(CFG), 'm'), t]

    def part(self, depth):
        ch = self.ch
        if depth > 2 or ch.chance(0.45 if depth else 0.35, 'text'):
            return ('t', ch.pick(TEXTS, 'ftext'))

        def sub():
            return [self.part(depth + 1) for _ in range(1 + ch.chance(0.25, 'parts'))]
        r = ch.weighted([(6, 'var'), (4, 'env'), (2, 'if'), (2, 'equals'), (1, 'not-equals'),
                         (2, 'eval'), (1, 'file-content' if self.native else 'var'), (3, 'bool'),
                         (1, 'this' if self.native else 'var'), (1, 'command'), (1, 'special')], 'fsub')
        if r in ('var', 'env'):
            key = [('t', ch.pick(CFG if r == 'var' else ENV))]
            if ch.chance(0.1, 'computed'):
                # a name that is put together
                key = [('t', key[0][1][:-1] or ''), ('s', 'if', [
                    [('t', 'true')], [('t', key[0][1][-1])]])]
            return ('s', r, [key] + ([] if ch.chance(0.012, 'nodef') else [sub()]))
        if r == 'if':
            return ('s', 'if', [self.boolean(depth + 1), sub()] + (
                [sub()] if ch.chance(0.7, 'else') else [])[:1])
        if r in ('equals', 'not-equals'):
            return ('s', r, [sub(), sub()])
        if r == 'eval':
            if ch.chance(0.1, 'eval var'):
                return ('s', 'eval', [[('t', "'"), ('s', 'var', [
                    [('t', ch.pick(CFG))], [('t', 'v0')]]), ('t', "' == 'v0'")]])
            if ch.chance(0.01, 'syntax'):
                return ('s', 'eval', [[('t', '1 +')]])
            mods = [[('t', ch.pick(('math', 'math,string', 'math, string', ' string , math')))]] \
                if ch.chance(0.2, 'modules') else []
            return ('s', 'eval', [[('t', ch.pick(EVALS + (
                ('string.digits',) if 'string' in str(mods) else ()), 'eval'))]] + mods)
        if r == 'command':
            bad = ch.chance(0.03, 'failing command')
            err = ch.chance(0.2, 'stderr')
            name = ch.pick(front.FAILING) if bad else 'simcerr' if err else ch.pick([
                x for x in front.COMMANDS if x not in front.FAILING and x != 'simcerr'])
            args = [[('t', ch.pick(('', '/opt/bin/', '/opt/sim/')) + name)]]
            for _ in range(ch.choose(4, 'nargs') if name == 'simcecho' else 0):
                q = ch.pick(('', '', '"'))
                args[0] += [('t', ch.pick((' ', '  ')) + q)] + (
                    sub() if q else [('t', ch.pick(('v1', 'x=y', "'a b'", '-f')))]) + [('t', q)]
            mode = ch.pick(front.ON_STDERR[1:] if not bad else front.ON_STDERR + ('maybe',)) \
                if err or bad or ch.chance(0.3, 'on_stderr') else None
            return ('s', r, args + ([[('t', mode)]] if mode else []))
        if r == 'special':
            r = ch.pick(('anon', 'anon', 'log', 'exec'), 'special')
            if r == 'log':
                return ('s', 'eval', [[('t', "'"), ('s', 'log_dir', []), ('t', "' == '"), (
                    's', ch.pick(('log_dir', 'launch_log_dir')), []), ('t', "'")]])
            if r == 'exec':
                return ('s', 'eval', [[('t', "'"), ('s', 'find-exec', [[
                    ('t', 'no_such_exe' if ch.chance(0.03, 'no exe') else 'sh')]]),
                    ('t', "'.split('/')[-1]")]])
            names = [[('s', 'if', [self.boolean(depth + 1)] + [
                [('t', x)] for x in ('v0', 'n1')])] if ch.chance(0.3) else [
                ('t', ch.pick(('v0', 'n1', 'n.2')))] for _ in range(2)]
            return ('s', 'eval', [[('t', "'"), ('s', 'anon', [names[0]]), ('t', "' == '"),
                                   ('s', 'anon', [names[1]]), ('t', "'")]])
        if r == 'file-content':
            return ('s', r, [[('s', 'dirname', []), ('t', '/../d0/content.txt')]])
        if r == 'this':
            return ('s', 'eval', [[('t', "'"), ('s', ch.pick(('dirname', 'filename')), []),
                                   ('t', "'.split('/')[-1]")]])
        return self.boolean(depth)[0]

    def boolean(self, depth, words=front.TRUE + front.FALSE):
        """An expression that is a truth value, most of the time."""
        ch = self.ch
        if depth > 2 or ch.chance(0.4, 'literal'):
            return [('t', ch.weighted([(150, ch.pick(words)),
                                       (1, ch.pick(('', 'v0', '2')))], 'truth'))]
        r = ch.weighted([(2, 'not'), (2, 'and'), (2, 'or'), (1, 'any'), (1, 'all'), (2, 'equals'),
                         (1, 'not-equals'), (2, 'var')], 'fbool')
        if r == 'var':
            return [('s', 'var', [[('t', ch.pick(CFG if ch.chance(0.01) else ('flag',)))],
                                 self.boolean(depth + 1, words)])]
        if r in ('equals', 'not-equals'):
            return [('s', r, [[('s', 'var', [[('t', ch.pick(CFG))], [('t', '')]])],
                              [('t', ch.pick(('v0', 'v1', '', 'true')))]])]
        n = {'not': 1, 'and': 2, 'or': 2}.get(r) or ch.rng_int(1, 3, 'nargs')
        return [('s', r, [self.boolean(depth + 1) for _ in range(n)])]

    def assign(self):
        key = self.ch.pick(self.keys)
        return key, [('t', self.ch.pick(PREFIX[key], 'prefix'))] if key in PREFIX else self.expr()

    def cond(self):
        ch = self.ch
        if not ch.chance(0.3, 'cond?'):
            return None
        if self.front:
            # conditions know fewer words
            e = self.boolean(0, *([] if ch.chance(0.03, 'bad cond') else [
                ('true', 'True', '1', 'TRUE', 'false', 'False', '0', 'FALSE')]))
            return (ch.pick(('if', 'unless')), e if front.possible(e) else [('t', 'true')])
        r = ch.pick(('lam', 'if', 'unless', 'eq', 'ne', 'iflc'), 'cond')
        if r == 'lam':
            return ('lam', ch.choose(2))
        if r in ('if', 'unless'):
            return (r, [('t', ch.pick(('true', 'false', ' True ', '0', '1')))])
        if r == 'iflc':
            return ('if', [('lc', 'flag', ch.pick(('true', 'false')))])
        return (r, ch.pick(CFG), ch.pick((None, 'v0', 'v1', 'dflt', '')))

    def kids(self, depth, rank, lo=1, hi=4):
        """A list of children; ranks bound the recursion through events."""
        out = []
        for _ in range(self.ch.rng_int(lo, hi, 'nkids')):
            if self.left <= 0:
                break
            out += self.node(depth, rank)
        return out

    def rec(self):
        return {'op': 'rec', 'id': self.nid()}

    def node(self, depth, rank):
        ch = self.ch
        self.left -= 1
        w = [(v, o) for o, v in self.w.items() if v > 0 and not (
            depth >= 4 and o in ('group', 'ld', 'func', 'include', 'timer'))]
        op = ch.weighted(w, 'op')
        n = {'op': op, 'id': self.nid()}
        if self.native and op in front.NATIVE:
            n['native'] = self.native
        if self.front and op in ('timer', 'declare', 'unsetenv', 'resetenv', 'resetcfg', 'proc', 'log'):
            n['cond'] = self.cond()
        after = [self.rec()] if ch.chance(0.5, 'rec after') else []
        if op == 'rec':
            return [n]
        if op in ('emit', 'emit_static'):
            if rank + 1 >= NTYPES:
                return [dict(n, op='rec')]
            n['type'] = ch.rng_int(rank + 1, NTYPES - 1, 'etype')
        elif op == 'reg':
            n['h'] = self.handler(depth + 1, rank)
            n['append'] = ch.chance(0.3, 'append')
            n['how'] = ch.choose(2, 'how') if not n['append'] else 0
        elif op == 'unreg':
            if not self.handlers:
                return [dict(n, op='rec')]
            n['h'] = ch.choose(len(self.handlers), 'unreg')
            n['strict'] = ch.chance(0.05, 'strict')
            n['how'] = ch.choose(2, 'how')
        elif op in ('locals', 'globals'):
            n['key'] = ch.pick(LOC)
            after = [self.rec()]
        elif op == 'group':
            n['scoped'] = not ch.chance(0.3, 'unscoped')
            n['fwd'] = not ch.chance(0.3, 'nofwd')
            n['cond'] = self.cond()
            n['cfgs'] = [self.assign() for _ in range(ch.choose(3))] if ch.chance(0.4) else []
            n['cfgs'] = list({k: (k, v) for k, v in n['cfgs']}.values())
            n['kids'] = self.kids(depth + 1, rank)
            after = [self.rec()]
            if 'native' not in n:
                self.targets.append(n['id'])
        elif op in ('ld', 'func'):
            outer, self.native = self.native, None
            n['kids'] = self.kids(depth + 1, rank)
            self.native = outer
            if op == 'func':
                n['gen'] = ch.chance(0.2, 'gen')
        elif op == 'include':
            n['args'] = [(ch.pick(CFG), self.expr()) for _ in range(ch.choose(3, 'nargs'))]
            n['cond'] = self.cond()
            n['where'] = ch.weighted([(4, 'file'), (4 if self.in_file else 0, 'rel'), (1, 'text'),
                                      (1, 'missing')], 'where') \
                if self.ctx.profile == 'files' else None
            if self.front:
                n['where'] = 'rel' if self.in_file and ch.chance(0.5, 'rel') else 'file'
                self.format(n)
            n['dir'] = ch.choose(3, 'dir') if n['where'] else 0
            self.inc_depth += 1
            outer, self.in_file = (self.in_file, self.native), n['where'] in ('file', 'rel')
            self.native = n.get('fmt') if n.get('fmt') != 'py' else None
            n['kids'] = [self.rec()] + self.kids(depth + 1, rank)
            native, (self.in_file, self.native) = self.native, outer
            self.inc_depth -= 1
            # arguments without a default: only in includes that contain no other includes and
            # are in no other include
            if not self.inc_depth and 'include' not in str(n['kids']) and ch.chance(0.3, 'required'):
                n['kids'].insert(1, {'op': 'declare', 'id': self.nid(), 'key': ch.pick(CFG),
                                     'dflt': None, 'choices': None, 'native': native})
                n['kids'].insert(2, self.rec())
            elif ch.chance(0.1, 'provided'):
                # this include provides what it requires
                key = ch.pick(CFG)
                n['kids'].insert(1, {'op': 'declare', 'id': self.nid(), 'key': key,
                                     'dflt': None, 'choices': None, 'native': native})
                n['kids'].insert(2, self.rec())
                if key not in [a for a, _ in n['args']]:
                    n['args'].append((key, self.expr()))
            # names of arguments that are only known when the launch runs
            n['late'] = 'native' not in n and ch.chance(0.3, 'late')
            after = [self.rec()]
        elif op == 'timer':
            n['ms'] = ch.pick((100, 0, 1, 10, 250, 500, 1000), 'period') + \
                ch.pick(common.JITTER, 'jit')
            n['src'] = ch.pick(('float', 'subst'), 'psrc')
            n['optout'] = ch.chance(0.25, 'optout')
            n['kids'] = [self.rec()] + self.kids(depth + 1, rank, 0, 3)
            if 'native' not in n:
                self.timers.append(n['id'])
                self.targets.append(n['id'])
        elif op == 'cancel':
            if not self.timers:
                return [dict(n, op='rec')]
            n['timer'] = ch.pick(self.timers, 'cancel')
        elif op == 'tact':
            self.targets.append(n['id'])
            n['boom'] = self.w.get('raise', 0) > 1 and ch.chance(0.1, 'tboom')
        elif op == 'coro':
            n['ms'] = ch.pick((50, 0, 1, 100, 300, 1000, None), 'cdur')
            n['emit'] = ch.rng_int(rank + 1, NTYPES - 1) if rank + 1 < NTYPES and \
                ch.chance(0.3) else None
            n['boom'] = ch.chance(0.25 if self.ctx.profile == 'errors' else 0.05, 'cboom')
            n['clean'] = ch.pick((0, 0, 1, 30, 400), 'clean')
            n['swallow'] = ch.chance(0.3, 'swallow')
            n['args'] = ch.choose(3, 'cargs')
            self.targets.append(n['id'])
        elif op == 'future':
            n['ms'] = ch.pick((50, 0, 1, 100, 300, 1000), 'fdur')
            n['end'] = ch.weighted([(6, 'ok'), (1, 'cancel'),
                                    (2 if self.ctx.profile == 'errors' else 0, 'exc')], 'fend')
        elif op == 'setcfg':
            n['key'], n['val'] = self.assign()
            n['cond'] = self.cond()
            after = [self.rec()]
        elif op == 'unsetcfg':
            n['key'] = ch.pick(self.keys)
            after = [self.rec()]
        elif op == 'declare':
            n['key'] = ch.pick(CFG)
            n['dflt'] = self.expr()
            n['choices'] = ch.weighted([(5, None), (1, ['v0', 'v1', 'v2', 'dflt'])], 'choices')
            if self.front and n['choices']:
                n['choices'][3] = ch.pick(TEXTS)
                if len(front.merged(n['dflt'])) < 2 and front.merged(n['dflt'] + [
                        ('t', '')])[:1] != [('t', n['choices'][0])]:
                    n['choices'] = None
            elif n['choices'] and n['dflt'][0][0] == 't' and len(n['dflt']) == 1 and \
                    n['dflt'][0][1] not in n['choices']:
                n['choices'] = None
            after = [self.rec()]
        elif op in ('setenv', 'appendenv'):
            n['key'] = ch.pick(ENV)
            n['val'] = self.expr()
            n['pre'] = ch.chance(0.4, 'prepend')
            n['sep'] = ch.pick((None, ',', ''), 'sep')
            n['cond'] = self.cond()
            after = [self.rec()]
        elif op in ('unsetenv', 'resetenv'):
            n['key'] = ch.pick(ENV)
            after = [self.rec()]
        elif op == 'resetcfg':
            n['cfgs'] = [self.assign() for _ in range(ch.choose(3))] if ch.chance(0.7) else None
            if n['cfgs'] is not None:
                n['cfgs'] = list({k: (k, v) for k, v in n['cfgs']}.values())
            if self.front and not n['cfgs']:
                n['cfgs'] = None
            after = [self.rec()]
        elif op == 'log':
            n['val'] = self.expr()
        elif op == 'proc':
            if self.nproc >= 4:
                return [dict(n, op='rec')]
            n['p'] = self.nproc
            self.nproc += 1
            n['env'] = ch.weighted([(4, None), (3, 'add')] + (
                [] if 'native' in n else [(2, 'own'), (1, 'empty')]), 'penv')
            n['addkey'] = ch.pick(ENV + ('SIM_D',))
            n['addval'] = self.expr()
            n['life'] = ch.pick((100, 1, 10, 500), 'life')
            n['respawn'] = ch.choose(3, 'nresp') if ch.chance(0.35, 'resp') else 0
            n['delay'] = ch.pick((0, 50, 300), 'rdelay')
            n['slow'] = ch.pick((0, 0, 20, 200), 'slow')
            n['linger'] = 0
            cmd = self.ctx.profile in ('cmd', 'front')
            n['args'] = [self.word() if self.front else self.expr() for _ in range(ch.choose(4, 'nargs'))] if cmd else []
            n['prefix'] = [('t', ch.pick(PREFIX['launch-prefix']))] if cmd and ch.chance(0.2) \
                else None
            n['name'] = self.expr(True) if cmd and ch.chance(0.3, 'pname') else None
            n['cwd'] = [('t', '/sim/')] + self.expr(True) if cmd and ch.chance(0.3, 'pcwd') else None
            n['shell'] = cmd and ch.chance(0.2, 'shell')
            n['more'] = [(x, self.expr()) for x in ENV + ('SIM_D',) if x != n['addkey'] and ch.chance(
                0.3, 'more env')] if self.front and n['env'] == 'add' else []
            n['onexit'] = cmd and ch.chance(0.15, 'onexit')
            n['stub'], n['tt'] = None, [None, None]
            if self.front and ch.chance(0.25, 'stubborn'):
                n['stub'] = ch.pick(('int', 'term'))
                self.stubs = True
                n['tt'] = [ch.pick((None, 0, 200, 1000), 'timeout') for _ in range(2)]
                n['life'] = ch.pick((30000, 300))
            if 'native' not in n:
                self.targets.append(n['id'])
            return [self.rec(), n] + after
        elif op == 'shutdown':
            # (one in a handler of the shutdown could go on for ever)
            if self.in_handler:
                n.pop('native', None)
            elif 'native' in n:
                n['cond'] = self.cond()
        return [n] + after

    def word(self):
        """An argument of a command."""
        ch = self.ch
        e = self.expr(True)
        if e == [('t', e[0][1])]:
            return [('t', ch.pick(('v0', 'a b', '--x=1', '-', 'k:=v', '/d/f.txt', 'ü')))]
        if ch.chance(0.3, 'around'):
            e = [('t', ch.pick(('--x=', 'a b', 'p/')))] + e
        return e

    def format(self, n):
        ch = self.ch
        n['fmt'] = ch.weighted([(4, 'xml'), (4, 'yaml'), (1, 'py')], 'fmt')
        n['ext'] = ch.pick(front.EXT[n['fmt']] if n['fmt'] == 'py' or ch.chance(0.8, 'known ext')
                           else front.OTHER_EXT, 'ext')
        n['bad'] = ch.pick(front.BAD) if n['fmt'] != 'py' and ch.chance(0.03, 'bad') else None
        n['old'] = ch.pick(('old', 'use $(var a) instead', "it's {so} %s")) \
            if ch.chance(0.08, 'deprecated') else None

    def handler(self, depth, rank):
        ch = self.ch
        i = len(self.handlers)
        kinds = [(5, 'eh'), (4, 'custom'), (1, 'named'), (1, 'sd')]
        if self.targets:
            kinds.append((4 if self.ctx.profile == 'async' else 1, 'done'))
        h = {'h': i, 'id': self.nid(), 'kind': ch.weighted(kinds, 'hkind')}
        self.handlers.append(h)
        h['once'] = ch.chance(0.25, 'once')
        r = rank
        if h['kind'] in ('eh', 'custom', 'named'):
            k = 1 if h['kind'] == 'named' else ch.weighted([(6, 1), (2, 2), (1, 3)], 'ntypes')
            h['types'] = sorted({ch.choose(NTYPES, 'htype') for _ in range(k)})
            r = max(h['types'])
        elif h['kind'] == 'done':
            h['target'] = ch.pick(self.targets, 'target')
            h['by'] = ch.choose(2, 'by')
            r = NTYPES
        else:
            r = NTYPES - 2
        boom = self.w.get('raise', 0) > 0
        if h['kind'] == 'custom':
            h['ext'] = ch.chance(0.4, 'ext')
            h['ret'] = ch.pick(('list', 'single', 'none', 'tuple'), 'ret')
            h['boom'] = ch.pick(('pre', 'post', 'match'), 'boomkind') if boom and \
                ch.chance(0.12, 'hboom') else None
        elif h['kind'] in ('sd', 'done'):
            h['cb'] = ch.chance(0.5, 'cb')
        # a handler is not run where it was written
        outer, self.in_file, self.native = (self.in_file, self.native), False, None
        self.in_handler += 1
        h['kids'] = [self.rec()] + (self.kids(depth + 1, r, 0, 3) if depth < 6 else [])
        self.in_handler -= 1
        self.in_file, self.native = outer
        if h['kind'] == 'custom' and h['ret'] in ('single', 'none'):
            h['kids'] = h['kids'][:1] if h['ret'] == 'single' else []
        return i

    def program(self):
        ch = self.ch
        p = {}
        if self.ctx.profile == 'files' and ch.chance(0.6, 'main file') or \
                self.front and ch.chance(0.9, 'main file'):
            n = {'op': 'include', 'id': self.nid(), 'args': [], 'cond': None, 'where': 'file',
                 'dir': ch.choose(3, 'dir')}
            if self.front:
                self.format(n)
                self.native = n['fmt'] if n['fmt'] != 'py' else None
            self.in_file, self.inc_depth = True, 1
            n['kids'] = self.kids(0, -1, 2, 7)
            self.in_file, self.inc_depth = False, 0
            self.native = None
            p['top'] = [n, self.rec()]
        else:
            p['top'] = self.kids(0, -1, 2, 7)
        p['pre'] = []
        for _ in range(ch.choose(4, 'npre')):
            p['pre'].append((self.handler(1, -1), ch.chance(0.25, 'append')))
        p['top2'] = self.kids(0, -1, 0, 4)
        ext = []
        for _ in range(ch.rng_int(0, 6, 'next')):
            t = common.t_ms(ch)
            kinds = [(6, 'emit'), (1, 'globals')]
            if self.handlers and self.w.get('reg'):
                kinds += [(1, 'reg'), (1, 'unreg')]
            if self.timers:
                kinds.append((4 if self.ctx.profile == 'timers' else 1, 'cancel'))
            kinds.append((1, 'include'))
            kind = ch.weighted(kinds, 'ext')
            x = {'t': t, 'kind': kind, 'id': self.nid()}
            if kind == 'emit':
                x['type'] = ch.choose(NTYPES)
                x['n'] = ch.pick((1, 1, 2, 4), 'burst')
                x['how'] = ch.pick(('context', 'service', 'async'), 'how')
            elif kind in ('reg', 'unreg'):
                x['h'] = ch.choose(len(self.handlers))
                x['append'] = ch.chance(0.3)
            elif kind == 'cancel':
                x['timer'] = ch.pick(self.timers)
            elif kind == 'globals':
                x['key'] = ch.pick(LOC)
            elif kind == 'include':
                self.left = max(self.left, 3)
                x['kids'] = [self.rec()] + self.kids(2, 0, 0, 3)
            ext.append(x)
        if ch.chance(0.25, 'shutdown?'):
            ext.append({'t': common.t_ms(ch), 'kind': ch.pick(('api', 'sigint'), 'sdkind'),
                        'id': self.nid()})
        p['ext'] = ext
        return p


# ---------------------------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------------------------
def run(ctx):
    from launch import (Action, Event, EventHandler, LaunchDescription, LaunchService,
                        Substitution)
    from launch.actions import (
        AppendEnvironmentVariable, DeclareLaunchArgument, EmitEvent, ExecuteProcess, GroupAction,
        IncludeLaunchDescription, LogInfo, OpaqueCoroutine, OpaqueFunction, RegisterEventHandler,
        ResetEnvironment, ResetLaunchConfigurations, SetEnvironmentVariable, SetLaunchConfiguration, Shutdown, TimerAction,
        UnregisterEventHandler, UnsetEnvironmentVariable, UnsetLaunchConfiguration)
    from launch.condition import Condition
    from launch.conditions import (IfCondition, LaunchConfigurationEquals,
                                   LaunchConfigurationNotEquals, UnlessCondition)
    from launch.event_handler import BaseEventHandler
    from launch.event_handlers import (OnExecutionComplete, OnProcessExit, OnProcessStart,
                                       OnShutdown, event_named)
    from launch.events import ExecutionComplete, IncludeLaunchDescription as IncludeEvent
    from launch.events import Shutdown as ShutdownEvent, TimerEvent
    from launch.launch_description_source import LaunchDescriptionSource
    from launch.substitutions import (EnvironmentVariable, LaunchConfiguration, LocalSubstitution,
                                      PathJoinSubstitution, SubstitutionFailure,
                                      TextSubstitution, ThisLaunchFile, ThisLaunchFileDir)
    from launch.launch_description_sources import (AnyLaunchDescriptionSource,
                                                   PythonLaunchDescriptionSource)
    k, ch = ctx.k, ctx.ch
    if ctx.profile == 'front':
        front.register()
        front.command_programs(ctx.k.os)
        front.NODES.clear()
    common.swarm(ctx)
    g = Gen(ctx)
    prog = g.program()
    s = {'prog': prog, 'handlers': g.handlers, 'mode': ch.pick(('run', 'async'), 'mode'),
         'kbi': not ch.chance(0.2, 'nokbi'), 'stall': [k.stall_p, k.stall_max_ms],
         'idle': not ch.chance(0.15, 'keep'), 'horizon': 15000}
    ctx.s = s
    ctx.desc = s
    common.setup_logging(ctx)
    common.baseline_signals(ctx, s['kbi'])
    loop = common.make_loop()
    for key in ENV + ('SIM_D',):
        os.environ.pop(key, None)
    os.environ['SIM_A'] = 'base'
    os.environ['SIM_OTHER'] = 'other'

    st = {'emits': 0, 'sds': 0, 'seq': 0, 'execs': {}, 'val': 0}
    objs = {}                 # action node id -> action
    objid = {}                # id(action) -> node id
    hobj = {}
    ldid = {}
    ls_box = []
    recs = {}                 # id(action) -> (node id, action), of the rec nodes
    timer_of = {}             # id of the first child -> id of the timer
    write_pick = ch.pick      # how launch files are written

    def find_timers(nodes):
        for n in nodes:
            if n['op'] == 'timer':
                timer_of[n['kids'][0]['id']] = n['id']
            elif n['op'] == 'proc':
                program(n)
            find_timers(n.get('kids', []))

    class Late(Substitution):
        """A text that is only known when the launch runs."""

        def __init__(self, text):
            super().__init__()
            self.text = text

        def perform(self, context):
            if context.asyncio_loop is None:
                raise SubstitutionFailure('no launch is running')
            return self.text

    class Ev(Event):
        name = 'sim.Event'

        def __init__(self, typ, token):
            self.typ = typ
            self.token = token
            self.name = 'sim.E%d' % typ

    class SimIgnored(Event):
        name = 'sim.ignored'

    def token(ev):
        if isinstance(ev, Ev):
            return ev.token
        if isinstance(ev, ShutdownEvent):
            return ev.reason if str(ev.reason).startswith('sim#') else 'sd*'
        if isinstance(ev, ExecutionComplete):
            return 'done:%s' % objid.get(id(ev.action))
        if isinstance(ev, IncludeEvent):
            return 'inc:%s' % ldid.get(id(ev.launch_description))
        if isinstance(ev, TimerEvent):
            i = objid.get(id(ev.timer_action))
            if i is None:
                # from a file: it is known by its first action
                i = timer_of.get(recs.get(id(ev.timer_action.actions[0]), (None,))[0])
            return 'timer:%s' % i
        return '?' + type(ev).__name__

    def snap(context):
        loc = context.get_locals_as_dict()
        d = {x: loc[x] for x in LOC if x in loc}
        if ctx.profile == 'locals':
            for x in LOC:
                # read in another way
                try:
                    v = LocalSubstitution(x).perform(context)
                except AttributeError:
                    v = None
                if v != d.get(x):
                    d[x] = ['read as', v]
        if ctx.profile in ('files', 'front'):
            try:
                d['file'] = '%s %s' % tuple(os.path.basename(x.perform(context)) for x in (
                    ThisLaunchFile(), ThisLaunchFileDir()))
            except SubstitutionFailure:
                pass
        cfg = context.launch_configurations
        env = context.environment
        if any(len(env[x]) > 20000 for x in ENV if x in env) or any(
                len(str(cfg[x])) > 20000 for x in g.keys if x in cfg):
            k.abort('too_long', 'values that double again and again')
        return dict(
            ev=token(loc['event']) if 'event' in loc else None, loc=d,
            cfg={x: cfg[x] for x in g.keys if x in cfg},
            env={x: env[x] for x in ENV + ('SIM_D', 'SIM_OTHER') if x in env},
            down=bool(context.is_shutdown),
            due=bool(getattr(loc.get('event'), 'due_to_sigint', False)))

    def new_event(typ, node):
        st['seq'] += 1
        st['emits'] += 1
        ev = Ev(typ, 'e%d' % st['seq'])
        k.rec('P', op='emit', node=node, ev=ev.token, typ=typ)
        return ev

    def emit_fn(n):
        def f(context):
            if st['emits'] >= MAX_EMIT:
                k.rec('P', op='emit_skip', node=n['id'])
                return None
            context.emit_event_sync(new_event(n['type'], n['id']))
        return f

    def subst(expr):
        out = []
        for e in expr:
            if e[0] == 't':
                out.append(TextSubstitution(text=e[1]))
            elif e[0] == 's':
                out.append(front.build_sub(e[1], e[2], subst))
            elif e[0] == 'lc':
                out.append(LaunchConfiguration(e[1]) if e[2] is None
                           else LaunchConfiguration(e[1], default=e[2]))
            else:
                out.append(EnvironmentVariable(e[1]) if e[2] is None
                           else EnvironmentVariable(e[1], default_value=e[2]))
        return out

    def condition(c):
        if c is None:
            return {}
        if c[0] == 'lam':
            return {'condition': Condition(predicate=lambda context: bool(c[1]))}
        if c[0] == 'if':
            return {'condition': IfCondition(subst(c[1]))}
        if c[0] == 'unless':
            return {'condition': UnlessCondition(subst(c[1]))}
        cls = LaunchConfigurationEquals if c[0] == 'eq' else LaunchConfigurationNotEquals
        return {'condition': cls(c[1], c[2])}

    class Tact(Action):
        def __init__(self, n):
            super().__init__()
            self.n = n

        def execute(self, context):
            k.rec('P', op='tact', node=self.n['id'])
            if self.n['boom']:
                raise RuntimeError('boom%d' % self.n['id'])
            return None

    def fresh(key):
        st['val'] += 1
        return '%s%d' % (key, st['val'])

    def source(n, ld):
        if not n['where']:
            return LaunchDescriptionSource(ld)
        if n['where'] == 'text':
            return LaunchDescriptionSource(ld, '<string>')
        if n['where'] == 'missing':
            return LaunchDescriptionSource(ld, '/nowhere/inc.py')
        path = file_name(n)
        full = write_file(n, ld)
        cls = (PythonLaunchDescriptionSource, AnyLaunchDescriptionSource)[n['id'] % 2]
        if n.get('fmt', 'py') != 'py':
            cls = ch.pick((AnyLaunchDescriptionSource, FrontendLaunchDescriptionSource,
                           XMLLaunchDescriptionSource if n['fmt'] == 'xml'
                           else YAMLLaunchDescriptionSource, None), 'source')
        if n['where'] == 'rel':
            path = [PathJoinSubstitution([ThisLaunchFileDir(), '..', path])] if n['id'] % 3 == 0 \
                else [ThisLaunchFileDir(), '/../' + path]
        else:
            path = full
        return cls(path) if cls else path

    def write_file(n, ld=None):
        full = os.path.join(ctx.scratch, file_name(n))
        if n.get('fmt', 'py') != 'py':
            front.write(full, n, write_pick, path_of, build)
            return full
        names.LDS[n['id']] = ld or LaunchDescription(
            [build(x) for x in n['kids']], deprecated_reason=n.get('old'))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w') as f:
            f.write('import simprog\n\n\ndef generate_launch_description():\n'
                    '    return simprog.LDS[%d]\n' % n['id'])
        return full

    def path_of(n):
        full = write_file(n)
        return '$(dirname)/../' + file_name(n) if n['where'] == 'rel' else full
    if ctx.profile == 'front':
        from launch.launch_description_sources import FrontendLaunchDescriptionSource
        from launch_xml.launch_description_sources import XMLLaunchDescriptionSource
        from launch_yaml.launch_description_sources import YAMLLaunchDescriptionSource
        os.makedirs(os.path.join(ctx.scratch, 'd0'), exist_ok=True)
        with open(os.path.join(ctx.scratch, 'd0', 'content.txt'), 'w') as f:
            f.write(front.CONTENT)
        for i in range(3):
            os.makedirs(os.path.join(ctx.scratch, 'd%d' % i), exist_ok=True)

        class Tee(logging.Handler):
            def emit(self, record):
                k.rec('P', op='log', node=-3, text=record.getMessage())

        class Warnings(logging.Handler):
            def emit(self, record):
                if record.levelno == logging.WARNING and 'deprecated' in record.getMessage():
                    k.rec('P', op='log', node=-4, text=record.getMessage().replace(
                        ctx.scratch + '/', '').replace('/d0/../', '/').replace(
                        '/d1/../', '/').replace('/d2/../', '/'))
    names = types.ModuleType('simprog')
    names.LDS = {}
    sys.modules['simprog'] = names

    def build(n):
        op, i = n['op'], n['id']
        cond = condition(n.get('cond'))
        if op == 'rec':
            a = OpaqueFunction(function=lambda c: k.rec('P', op='rec', node=i, **snap(c)))
            recs[id(a)] = (i, a)
            return a
        if op == 'emit':
            return OpaqueFunction(function=emit_fn(n))
        if op == 'emit_static':
            return EmitEvent(event=Ev(n['type'], 's%d' % i))
        if op == 'reg':
            h = handler(n['h'])
            if n['append'] or n['how']:
                return OpaqueFunction(
                    function=lambda c: c.register_event_handler(h, append=n['append']))
            return RegisterEventHandler(h)
        if op == 'unreg':
            def f(c):
                h = hobj.get(n['h'])
                if n['strict'] or any(x is h for x in c._event_handlers):
                    k.rec('P', op='unreg', node=i)
                    if n['how']:
                        c.unregister_event_handler(h)
                    else:
                        return [UnregisterEventHandler(h)]
                else:
                    k.rec('P', op='unreg_skip', node=i)
            return OpaqueFunction(function=f)
        if op in ('locals', 'globals'):
            def f(c):
                v = fresh(n['key'])
                k.rec('P', op=op, node=i, val=v)
                (c.extend_locals if op == 'locals' else c.extend_globals)({n['key']: v})
            return OpaqueFunction(function=f)
        if op == 'raise':
            def f(c):
                k.rec('P', op='raise', node=i)
                raise RuntimeError('boom%d' % i)
            return OpaqueFunction(function=f)
        if op == 'badret':
            return OpaqueFunction(function=lambda c: (k.rec('P', op='badret', node=i), [42])[1])
        if op == 'group':
            kw = {}
            if n['cfgs']:
                kw['launch_configurations'] = {a: subst(b) for a, b in n['cfgs']}
            a = GroupAction([build(x) for x in n['kids']], scoped=n['scoped'],
                            forwarding=n['fwd'], **kw, **condition(n['cond']))
        elif op == 'ld':
            return LaunchDescription([build(x) for x in n['kids']])
        elif op == 'func':
            kids = [build(x) for x in n['kids']]
            return OpaqueFunction(
                function=lambda c: (x for x in kids) if n['gen'] else list(kids))
        elif op == 'include':
            a = IncludeLaunchDescription(
                source(n, LaunchDescription(
                    [build(x) for x in n['kids']], deprecated_reason=n.get('old')) if n.get(
                    'fmt', 'py') == 'py' else None),
                launch_arguments=[(Late(x) if n.get('late') else x, subst(y))
                                  for x, y in n['args']], **condition(n['cond']))
        elif op == 'timer':
            p = n['ms'] / 1000
            a = TimerAction(period=p if n['src'] == 'float' else [TextSubstitution(text=str(p))],
                            actions=[build(x) for x in n['kids']],
                            cancel_on_shutdown=not n['optout'], **cond)
        elif op == 'cancel':
            def f(c):
                k.rec('P', op='cancel', node=i)
                t = objs.get(n['timer'])
                if t is not None:
                    t.cancel()
            return OpaqueFunction(function=f)
        elif op == 'tact':
            a = Tact(n)
        elif op == 'coro':
            a = OpaqueCoroutine(coroutine=coro(n), args=list(range(n['args'])) or None,
                                kwargs={'key': i} if n['args'] else None,
                                ignore_context=n['args'] == 1)
        elif op == 'future':
            return OpaqueFunction(function=future(n))
        elif op == 'setcfg':
            a = SetLaunchConfiguration(n['key'], subst(n['val']), **condition(n['cond']))
        elif op == 'unsetcfg':
            a = UnsetLaunchConfiguration(n['key'])
        elif op == 'declare':
            a = DeclareLaunchArgument(n['key'], default_value=None if n['dflt'] is None
                                      else subst(n['dflt']), choices=n['choices'], **cond)
        elif op == 'setenv':
            a = SetEnvironmentVariable(n['key'], subst(n['val']), **condition(n['cond']))
        elif op == 'appendenv':
            kw = {} if n['sep'] is None else {'separator': n['sep']}
            a = AppendEnvironmentVariable(n['key'], subst(n['val']), prepend=n['pre'], **kw,
                                          **condition(n['cond']))
        elif op == 'unsetenv':
            a = UnsetEnvironmentVariable(n['key'], **cond)
        elif op == 'resetenv':
            a = ResetEnvironment(**cond)
        elif op == 'resetcfg':
            a = ResetLaunchConfigurations(None if n['cfgs'] is None else {
                x: subst(y) for x, y in n['cfgs']}, **cond)
        elif op == 'log':
            a = LogInfo(msg=subst(n['val']), **cond)
        elif op == 'proc':
            a = proc(n)
        elif op == 'shutdown':
            a = Shutdown(reason='sim#%d' % i)

            def f(c):
                # handlers of Shutdown may lead back here
                st['sds'] += 1
                k.rec('P', op='shutdown' if st['sds'] <= 3 else 'shutdown_skip', node=i)
                return [a] if st['sds'] <= 3 else None
            return OpaqueFunction(function=f)
        objs[i] = a
        objid[id(a)] = i
        return a

    def coro(n):
        def begin(a, kw):
            e = st['execs'][n['id']] = st['execs'].get(n['id'], 0) + 1
            k.rec('A', op='c_start', node=n['id'], e=e,
                  args=[x if isinstance(x, int) else type(x).__name__ for x in a], kw=dict(kw))
            return e

        async def co(*a, **kw):
            e = begin(a, kw)
            ms = n['ms']
            if ms is None:
                ms = 30 if ls_box[0].context.is_shutdown else 10_000_000
            try:
                await asyncio.sleep(ms / 1000)
            except asyncio.CancelledError:
                k.rec('A', op='c_cancel', node=n['id'], e=e)
                try:
                    if n['clean']:
                        await asyncio.sleep(n['clean'] / 1000)
                finally:
                    k.rec('A', op='c_clean', node=n['id'], e=e)
                if n['swallow']:
                    return
                raise
            if n['emit'] is not None and st['emits'] < MAX_EMIT:
                ls_box[0].context.emit_event_sync(new_event(n['emit'], n['id']))
            k.rec('A', op='c_end', node=n['id'], e=e, boom=n['boom'])
            if n['boom']:
                raise RuntimeError('boom%d' % n['id'])
        return co

    def future(n):
        def f(context):
            e = st['execs'][n['id']] = st['execs'].get(n['id'], 0) + 1
            k.rec('P', op='future', node=n['id'], e=e)
            fut = context.asyncio_loop.create_future()
            context.add_completion_future(fut)

            def done():
                k.rec('A', op='f_end', node=n['id'], e=e, boom=n['end'] == 'exc')
                if n['end'] == 'ok':
                    fut.set_result(None)
                elif n['end'] == 'cancel':
                    fut.cancel()
                else:
                    fut.set_exception(RuntimeError('boom%d' % n['id']))
            context.asyncio_loop.call_later(n['ms'] / 1000, done)
        return f

    def program(n):
        sig = {SIGINT: ('die', 5 * MS)}
        if n['stub']:
            sig[SIGINT] = ('ignore',)
        if n['stub'] == 'term':
            sig[signal.SIGTERM] = ('ignore',)
        plan = Plan([(n['life'] * MS + 500_000, 'exit', 0)], sig,
                    spawn_ns=n['slow'] * MS)
        k.os.program('simq%d' % n['p'], [plan])

    def proc(n):
        name = 'simq%d' % n['p']
        kw = condition(n.get('cond'))
        if n['env'] == 'own':
            kw['env'] = {'SIM_OWN': 'own', n['addkey']: subst(n['addval'])}
        elif n['env'] == 'empty':
            kw['env'] = {}
        elif n['env'] == 'add':
            kw['additional_env'] = {a: subst(b) for a, b in [(n['addkey'], n['addval'])] + n['more']}
        if n['respawn']:
            kw.update(respawn=True, respawn_max_retries=n['respawn'],
                      respawn_delay=n['delay'] / 1000)
        for key in ('prefix', 'name', 'cwd'):
            if n[key] is not None:
                kw[key] = subst(n[key])
        if n['shell']:
            kw['shell'] = True
        if n['onexit']:
            kw['on_exit'] = [Shutdown()]
        for key, ms in zip(('sigterm_timeout', 'sigkill_timeout'), n['tt']):
            if ms is not None:
                kw[key] = str(ms / 1000)
        return ExecuteProcess(cmd=['/opt/sim/' + name] + [subst(x) for x in n['args']], **kw)

    class Custom(BaseEventHandler):
        def __init__(self, h, kids):
            self.h = h
            self.kids = kids

            def match(ev):
                if not isinstance(ev, Ev) or ev.typ not in h['types']:
                    return False
                if h['boom'] == 'match':
                    k.rec('P', op='match_boom', node=h['id'], ev=ev.token)
                    raise RuntimeError('boom%d' % h['id'])
                return True
            super().__init__(matcher=match, handle_once=h['once'])

        def handle(self, event, context):
            h = self.h
            if h['boom'] == 'pre':
                k.rec('P', op='handle_boom', node=h['id'], ev=event.token)
                raise RuntimeError('boom%d' % h['id'])
            super().handle(event, context)
            k.rec('P', op='handle', node=h['id'], **snap(context))
            if h['ext']:
                v = fresh('x')
                k.rec('P', op='locals', node=h['id'], val=v)
                context.extend_locals({'x': v})
            if h['boom'] == 'post':
                k.rec('P', op='handle_boom', node=h['id'], ev=event.token)
                raise RuntimeError('boom%d' % h['id'])
            if h['ret'] == 'list':
                return list(self.kids)
            if h['ret'] == 'tuple':
                return tuple(self.kids) + (None,)
            if h['ret'] == 'single':
                return self.kids[0]
            return None

    def handler(i):
        if i in hobj:
            return hobj[i]
        h = g.handlers[i]
        kids = [build(x) for x in h['kids']]
        if h['kind'] == 'eh':
            o = EventHandler(matcher=lambda e: isinstance(e, Ev) and e.typ in h['types'],
                             entities=kids, handle_once=h['once'])
        elif h['kind'] == 'named':
            o = EventHandler(matcher=event_named('sim.E%d' % h['types'][0]), entities=kids,
                             handle_once=h['once'])
        elif h['kind'] == 'custom':
            o = Custom(h, kids)
        elif h['kind'] == 'sd':
            o = OnShutdown(on_shutdown=(lambda e, c: kids) if h['cb'] else kids,
                           handle_once=h['once'])
        else:
            # the target may be built later: find it when an event comes
            def tgt(action):
                return objid.get(id(action)) == h['target']
            if h['by'] and h['target'] in objs:
                tgt = objs[h['target']]
            o = OnExecutionComplete(target_action=tgt,
                                    on_completion=(lambda e, c: kids) if h['cb'] else kids,
                                    handle_once=h['once'])
        hobj[i] = o
        return o

    # sees every event except completions, as their emission depends on who would handle them
    pre = [RegisterEventHandler(EventHandler(
        # (the timers that escalate signals are not in the program)
        matcher=lambda ev: isinstance(ev, (Ev, ShutdownEvent, IncludeEvent, TimerEvent)) and not (
            g.stubs and token(ev) == 'timer:None'),
        entities=[OpaqueFunction(function=lambda c: k.rec(
            'P', op='tap', node=-2, ev=token(c.locals.event)))])),
        RegisterEventHandler(OnShutdown(on_shutdown=[
            OpaqueFunction(function=lambda c: k.rec('P', op='rec', node=0, **snap(c)))]))]

    def stimulate(context):
        lp = context.asyncio_loop
        k.rec('P', op='rec', node=-1, **snap(context))
        for x in prog['ext']:
            if x['kind'] == 'sigint':
                k.after(x['t'] * MS, sigint)
            else:
                lp.call_later(x['t'] / 1000, fire, x, context)
        k.after(s['horizon'] * MS, sigint)

    def sigint():
        if first(ctx, 'returned') is None:
            k.rec('A', op='sigint')
            k.post_signal(SIGINT)

    def fire(x, c):
        kind = x['kind']
        ls = ls_box[0]
        if kind == 'emit':
            for _ in range(x['n']):
                ev = new_event(x['type'], x['id'])
                if x['how'] == 'context':
                    c.emit_event_sync(ev)
                elif x['how'] == 'service':
                    c.emit_event_sync(ev)
                else:
                    # put() on an unbounded queue does not suspend
                    co = c.emit_event(ev)
                    try:
                        co.send(None)
                    except StopIteration:
                        pass
        elif kind == 'reg':
            h = handler(x['h'])
            k.rec('A', op='x_reg', node=x['id'])
            c.register_event_handler(h, append=x['append'])
        elif kind == 'unreg':
            h = hobj.get(x['h'])
            if h is not None and any(y is h for y in c._event_handlers):
                k.rec('A', op='x_unreg', node=x['id'])
                c.unregister_event_handler(h)
        elif kind == 'cancel':
            t = objs.get(x['timer'])
            if t is not None:
                k.rec('A', op='x_cancel', node=x['id'])
                t.cancel()
        elif kind == 'globals':
            v = fresh(x['key'])
            k.rec('A', op='x_globals', node=x['id'], val=v)
            c.extend_globals({x['key']: v})
        elif kind == 'include':
            ld = lds[x['id']]
            k.rec('A', op='x_include', node=x['id'])
            c.emit_event_sync(IncludeEvent(ld))
        elif kind == 'api':
            k.rec('A', op='api')
            ret = ls.shutdown()
            if ret is not None:
                c.asyncio_loop.create_task(ret)

    if ctx.profile == 'front':
        from launch.logging import get_logger
        get_logger('launch.user').addHandler(Tee())
        get_logger().addHandler(Warnings())
    find_timers(prog['top'] + prog['top2'])
    for x in g.handlers + prog['ext']:
        find_timers(x.get('kids', []))
    lds = {}
    for x in prog['ext']:
        if x['kind'] == 'include':
            lds[x['id']] = LaunchDescription([build(y) for y in x['kids']])
            ldid[id(lds[x['id']])] = x['id']
    body = [OpaqueFunction(function=stimulate)] + [build(n) for n in prog['top']]
    if ctx.profile == 'cmd':
        def announce(kind):
            def fn(event, c):
                k.rec(kind, node=objid.get(id(event.action)), cmd=list(event.cmd), cwd=event.cwd,
                      base=event.process_name.rpartition('-')[0],
                      env={a: b for a, b in (event.env or {}).items() if a.startswith('SIM_')})
            return fn
        pre.append(RegisterEventHandler(OnProcessStart(on_start=announce('pstart'))))
        pre.append(RegisterEventHandler(OnProcessExit(on_exit=announce('pexit'))))
    for h, app in prog['pre']:
        pre.append((lambda h, app: OpaqueFunction(function=lambda c: c.register_event_handler(
            handler(h), append=app)))(h, app))
        handler(h)
    body += [build(n) for n in prog['top2']]
    ld = LaunchDescription(pre + body)
    ldid[id(ld)] = 0
    ls = LaunchService(noninteractive=True)
    ls_box.append(ls)
    ls.include_launch_description(ld)
    ctx.base_env = {x: os.environ[x] for x in ENV + ('SIM_D', 'SIM_OTHER') if x in os.environ}
    common.run_service(ctx, ls, s['mode'], shutdown_when_idle=s['idle'])
    ctx.final_env = {x: os.environ[x] for x in ENV + ('SIM_D', 'SIM_OTHER') if x in os.environ}
    ctx.final_cfg = {x: ls.context.launch_configurations[x] for x in g.keys
                     if x in ls.context.launch_configurations}
    ctx.final_loc = dict(ls.context.get_locals_as_dict())
    logging.shutdown()
    path = os.path.join(ctx.scratch, 'log', 'launch.log')
    ctx.log = open(path, errors='replace').read() if os.path.exists(path) else ''


# ---------------------------------------------------------------------------------------------
# the reference model
# ---------------------------------------------------------------------------------------------
LATE_COND = ('timer', 'declare', 'unsetenv', 'resetenv', 'resetcfg', 'proc', 'log')


class Mismatch(Exception):
    def __init__(self, props, key, msg):
        super().__init__(msg)
        self.props, self.key, self.msg = props, key, msg


class ModelError(Exception):
    """The program raises here."""


class Model:
    def __init__(self, ctx):
        s = ctx.s
        self.ctx = ctx
        self.k = ctx.k
        self.s = s
        self.H = [e for e in ctx.k.hist if e['k'] in ('P', 'A', 'returned')]
        self.pos = 0
        self.handlers = [('service',)]
        self.queue = []
        self.qtime = {}          # when the event was emitted
        self.cfg = {}
        self.files = ctx.profile in ('files', 'front')
        self.env = dict(ctx.base_env)
        self.base_env = dict(ctx.base_env)
        self.globals = {}
        self.frame = None        # locals of the handler that runs
        self.curtok = None
        self.timers = []         # pending executions
        self.cancelled = set()   # timers cancelled for good
        self.coros = []
        self.futures = []
        self.procs = []
        self.done_tokens = []    # completion events of asynchronous actions
        self.errors = []         # (message or None, time, record index)
        self.shut = []           # times of handled Shutdown events
        self.nsd = 0
        self.t = ctx.k.t0
        self.last_busy = ctx.k.t0
        self.nodes = {}
        self.coro_n = {}
        self.index(s['prog']['top'] + s['prog']['top2'])
        for h in s['handlers']:
            self.index(h['kids'])
        for x in s['prog']['ext']:
            self.index(x.get('kids', []))
        self.owner = {}
        for n in list(self.nodes.values()):
            if n['op'] == 'timer':
                self.owner[n['kids'][0]['id']] = n
        self.ext = {x['id']: x for x in s['prog']['ext']}
        self.down_seen = False
        self.optional = set()

    def index(self, nodes):
        for n in nodes:
            self.nodes[n['id']] = n
            if 'kids' in n:
                self.index(n['kids'])

    # -- reading the history
    def peek(self):
        return self.H[self.pos] if self.pos < len(self.H) else None

    def take(self, node, ops, what):
        e = self.peek()
        while e is not None and e['k'] == 'A' and e['op'] == 'sigint':
            # while an action waited for a command
            self.external(e)
            self.pos += 1
            e = self.peek()
        if e is None or e['k'] != 'P' or e['node'] != node or e['op'] not in ops:
            got = 'the end' if e is None else (
                '%s of node %s' % (e.get('op', e['k']), e.get('node')) +
                (' (event %s)' % e['ev'] if e.get('ev') else ''))
            early = e is None or e['k'] == 'returned'
            raise Mismatch(self.order_props + (['C07'] if early else []), 'order', 'expected %s (event %s) at %s, got %s' % (
                what, self.curtok, T(self.t), got))
        self.pos += 1
        self.t = e['t']
        self.last_busy = max(self.last_busy, self.t)
        return e

    def check(self, e, what):
        """The observed values must be those of the model."""
        if e['ev'] != self.curtok:
            raise Mismatch(['C10', 'C08'], 'event', '%s: locals.event is %s instead of %s' % (
                what, e['ev'], self.curtok))
        want = dict(self.globals)
        want.update(self.frame)
        for key in sorted(set(want) | set(e['loc'])):
            if e['loc'].get(key) != want.get(key) and e['loc'].get(key) not in \
                    self.loose.get(key, ()):
                raise Mismatch(['C28' if key == 'file' else 'C10'], 'locals', '%s (event %s): local %s is %r, expected %r' % (
                    what, self.curtok, key, e['loc'].get(key), want.get(key)))
        if e['cfg'] != self.cfg:
            raise Mismatch(['C16'], 'cfg', '%s: launch configurations %r, expected %r' % (
                what, e['cfg'], self.cfg))
        if e['env'] != self.env:
            raise Mismatch(['C17'], 'env', '%s: environment %r, expected %r' % (
                what, e['env'], self.env))

    # -- expressions
    def value(self, expr):
        out = ''
        for e in expr:
            if e[0] == 't':
                out += e[1]
            elif e[0] == 's' and e[1] in ('dirname', 'filename'):
                # only the last component is looked at
                out += '/' + self.frame['file'].split(' ')[e[1] == 'dirname']
            elif e[0] == 's':
                try:
                    out += front.meaning(e[1], e[2], self.value, self)
                except front.Undefined as x:
                    raise ModelError(x.args[0] if 'does not exist' in x.args[0] else None)
            else:
                d = self.cfg if e[0] == 'lc' else self.env
                if e[1] in d:
                    out += d[e[1]]
                elif e[2] is None:
                    raise ModelError("'%s' does not exist" % e[1])
                else:
                    out += e[2]
        return out

    def holds(self, c):
        if c is None:
            return True
        if c[0] == 'lam':
            return bool(c[1])
        if c[0] in ('if', 'unless'):
            v = self.value(c[1]).strip().lower()
            if v not in ('true', 'false', '1', '0'):
                raise ModelError(None)
            return (v in ('true', '1')) == (c[0] == 'if')
        cur = self.cfg.get(c[1])
        return (cur == c[2]) == (c[0] == 'eq')

    # -- actions
    def complete(self, n, future=False):
        """The completion event of an action that was just executed."""
        if any(h[0] == 'H' and self.h(h[1])['kind'] == 'done' and
               self.h(h[1])['target'] == n['id'] for h in self.handlers):
            if future:
                return True
            self.enqueue(('done', n['id']))
        return False

    def enqueue(self, item):
        self.queue.append(item)
        self.qtime[item[1]] = self.t

    def h(self, i):
        return self.s['handlers'][i]

    def visit_all(self, nodes):
        for n in nodes:
            self.visit(n)

    def scoped(self, nodes, scoped):
        if not scoped:
            return self.visit_all(nodes)
        cfg, env = dict(self.cfg), dict(self.env)
        try:
            self.visit_all(nodes)
        finally:
            self.cfg, self.env = cfg, env

    def visit(self, n):
        op, i = n['op'], n['id']
        what = 'node %d (%s)' % (i, op)
        if op in LATE_COND and not self.holds(n.get('cond')):
            return
        if op == 'rec':
            e = self.take(i, ('rec',), what)
            self.check(e, what)
            self.down_seen = e['down']
        elif op == 'emit':
            e = self.take(i, ('emit', 'emit_skip'), what)
            if e['op'] == 'emit':
                self.enqueue(('ev', e['ev'], e['typ']))
        elif op == 'emit_static':
            self.enqueue(('ev', 's%d' % i, n['type']))
        elif op == 'reg':
            self.register(('H', n['h']), n['append'])
        elif op == 'unreg':
            e = self.take(i, ('unreg', 'unreg_skip'), what)
            if e['op'] == 'unreg':
                self.unregister(n['h'])
        elif op in ('locals', 'globals'):
            e = self.take(i, (op,), what)
            (self.frame if op == 'locals' else self.globals)[n['key']] = e['val']
            if op == 'locals':
                self.loose.pop(n['key'], None)
        elif op == 'raise':
            self.take(i, ('raise',), what)
            raise ModelError('boom%d' % i)
        elif op == 'badret':
            self.take(i, ('badret',), what)
            raise ModelError(None)
        elif op == 'tact':
            self.take(i, ('tact',), what)
            self.complete(n)
            if n['boom']:
                raise ModelError('boom%d' % i)
        elif op == 'group':
            if self.holds(n['cond']):
                self.complete(n)
                if not n['scoped']:
                    self.set_all(n['cfgs'])
                    self.visit_all(n['kids'])
                    return
                cfg, env = dict(self.cfg), dict(self.env)
                try:
                    if n['fwd']:
                        self.set_all(n['cfgs'])
                    else:
                        self.env = dict(self.base_env)
                        new = {a: self.value_outer(b) for a, b in n['cfgs']}
                        self.cfg = new
                    self.visit_all(n['kids'])
                finally:
                    self.cfg, self.env = cfg, env
        elif op in ('ld', 'func'):
            self.visit_all(n['kids'])
        elif op == 'include':
            if self.holds(n['cond']):
                need = [x['key'] for x in n['kids'] if x['op'] == 'declare' and x['dflt'] is None]
                self.complete(n)
                if n.get('bad'):
                    raise ModelError(None)
                if any(x not in [a for a, _ in n['args']] for x in need):
                    raise ModelError('required argument')
                before, unsure = self.frame.get('file'), self.loose.pop('file', None)
                if self.files:
                    here = self.frame['file'] = {
                        'text': '<string> <string>', 'missing': 'inc.py inc.py'}.get(
                            n['where'], ' '.join(reversed(file_name(n).split('/'))))
                self.set_all(n['args'])
                if n.get('old'):
                    e = self.take(-4, ('log',), 'the warning about %s' % here)
                    if file_name(n) not in e['text'] or n['old'] not in e['text']:
                        raise Mismatch(['C30'], 'deprecated', '%r is logged for %s, which says %r' % (
                            e['text'], file_name(n), n['old']))
                self.visit_all(n['kids'])
                if self.files:
                    self.frame['file'] = before
                    self.loose.pop('file', None)
                    if before is None or unsure:
                        # outside of any file
                        self.loose['file'] = (unsure or set()) | {None, here}
        elif op == 'setcfg':
            if self.holds(n['cond']):
                self.cfg[n['key']] = self.value(n['val'])
        elif op == 'unsetcfg':
            self.cfg.pop(n['key'], None)
        elif op == 'declare':
            if n['key'] not in self.cfg:
                if n['dflt'] is None:
                    raise ModelError('was not provided')
                self.cfg[n['key']] = self.value(n['dflt'])
            if n['choices'] and self.cfg[n['key']] not in n['choices']:
                raise ModelError('is not valid')
        elif op == 'setenv':
            if self.holds(n['cond']):
                self.env[n['key']] = self.value(n['val'])
        elif op == 'appendenv':
            if self.holds(n['cond']):
                v, old = self.value(n['val']), self.env.get(n['key'])
                sep = ':' if n['sep'] is None else n['sep']
                if old is not None:
                    v = v + sep + old if n['pre'] else old + sep + v
                self.env[n['key']] = v
        elif op == 'unsetenv':
            self.env.pop(n['key'], None)
        elif op == 'resetenv':
            self.env = dict(self.base_env)
        elif op == 'resetcfg':
            self.cfg = {a: self.value(b) for a, b in n['cfgs'] or ()}
        elif op == 'log':
            want = self.value(n['val'])
            e = self.take(-3, ('log',), what)
            if e['text'] != want:
                raise Mismatch(['C16'], 'logged', '%s: %r is logged, expected %r' % (
                    what, e['text'], want))
        elif op == 'shutdown' and n.get('native'):
            if self.holds(n['cond']):
                self.enqueue(('sd', 'sim#%d' % i))
        elif op == 'shutdown':
            e = self.take(i, ('shutdown', 'shutdown_skip'), what)
            if e['op'] == 'shutdown':
                self.enqueue(('sd', 'sim#%d' % i))
        elif op == 'cancel':
            self.take(i, ('cancel',), what)
            self.cancel(n['timer'])
        elif op == 'timer':
            self.start_timer(n)
        elif op == 'coro':
            e = self.coro_n[i] = self.coro_n.get(i, 0) + 1
            x = dict(n=n, e=e, t0=self.t, started=None, ended=None, cancel=None, clean=None,
                     sd=None, reg=len(self.shut), during=self.during_sd)
            x['done'] = self.complete(n, True)
            self.coros.append(x)
            self.handlers.insert(0, ('C', x))
        elif op == 'future':
            e = self.take(i, ('future',), what)
            self.futures.append(dict(n=n, e=e['e'], t0=self.t, ended=None))
        elif op == 'proc':
            self.start_proc(n)
        else:
            raise AssertionError(op)

    def value_outer(self, expr):
        # evaluated in the environment as reset, with the outer configurations
        return self.value(expr)

    def set_all(self, pairs):
        for a, b in pairs:
            self.cfg[a] = self.value(b)

    def register(self, entry, append):
        if append:
            self.handlers.append(entry)
        else:
            self.handlers.insert(0, entry)

    def gone(self, h):
        if h['kind'] == 'done':
            # nobody may be there when it completes
            for x in self.timers + self.coros + self.procs:
                if x['n']['id'] == h['target']:
                    x['unsure'] = True

    def unregister(self, h):
        self.gone(self.h(h))
        for j, x in enumerate(self.handlers):
            if x[0] == 'H' and x[1] == h:
                del self.handlers[j]
                return
        raise ModelError(None)

    def cancel(self, tid):
        self.cancelled.add(tid)
        for x in self.timers:
            if x['n']['id'] == tid and x['cancel'] is None:
                x['cancel'] = self.t

    def start_timer(self, n):
        # globals: what was captured, or what they are when the timer fires
        glob = {a: {v} for a, v in self.globals.items() if a not in self.frame}
        for a, v in self.loose.items():
            glob.setdefault(a, set()).update(v)
        x = dict(n=n, t0=self.t, due=self.t + n['ms'] * MS, cancel=None, loc=dict(self.frame),
                 glob=glob, tok=self.curtok, fired=None, idx=self.pos, done=False,
                 maybe=False)
        if n['id'] in self.cancelled:
            # cancelled before it was started
            x['cancel'] = self.t
            x['pre'] = True
        x['done'] = self.complete(n, True)
        self.timers.append(x)
        if not x.get('pre') and ('TG',) not in self.handlers:
            self.handlers.insert(0, ('TG',))
        if not n['optout']:
            self.handlers.insert(0, ('T', x))
            if self.during_sd:
                x['maybe'] = True

    def start_proc(self, n):
        """The rec node right before it has told whether shutdown had begun."""
        again = [x for x in self.procs if x['n'] is n]
        if again:
            # the completion of the first execution is reported once more
            again[0]['done'] += self.complete(n, True)
            raise ModelError('executed more than once')
        x = dict(n=n, t0=self.t, started=not self.down_seen, done=0)
        try:
            cmd = ['/opt/sim/simq%d' % n['p']] + [self.value(y) for y in n['args']]
            apply = n['prefix'] is not None or re.match(
                self.cfg.get('launch-prefix-filter', ''), 'simq%d' % n['p'])
            if apply:
                cmd = shlex.split(self.cfg.get('launch-prefix', '') if n['prefix'] is None
                                  else self.value(n['prefix'])) + cmd
            x['cmd'] = cmd
            x['name'] = os.path.basename(cmd[0]) if n['name'] is None else self.value(n['name'])
            x['cwd'] = None if n['cwd'] is None else self.value(n['cwd'])
            if n['env'] == 'own':
                env = {n['addkey']: self.value(n['addval']), 'SIM_OWN': 'own'}
            elif n['env'] == 'empty':
                env = {}
            else:
                env = dict(self.env)
                if n['env'] == 'add':
                    for a, b in [(n['addkey'], n['addval'])] + n['more']:
                        env[a] = self.value(b)
        except ModelError:
            self.complete(n)
            raise
        x['env'] = env
        self.procs.append(x)
        if x['started']:
            x['done'] += self.complete(n, True)
        else:
            self.complete(n)

    # -- events
    def process(self, item):
        """Handle one event: run every matching handler of the snapshot."""
        kind = item[0]
        self.during_sd = kind == 'sd'
        name = self.name(item)
        errs = []
        for entry in list(self.handlers):
            self.curtok = name
            self.frame = {}
            self.loose = {}
            cfg, env = dict(self.cfg), dict(self.env)
            try:
                if entry[0] == 'H':
                    self.handle(entry[1], item)
                elif entry[0] == 'service':
                    if kind == 'inc':
                        self.visit_all(self.included(item[1]))
                elif entry[0] == 'tap' and kind != 'done':
                    e = self.take(-2, ('tap',), 'the observer of all events')
                    if e['ev'] != name:
                        raise Mismatch(['C10', 'C08'], 'event', 'the observer of %s sees %s' % (
                            name, e['ev']))
                elif entry[0] == 'TG' and kind == 'timer':
                    x = item[1]
                    self.frame = dict(x['loc'])
                    self.loose = {a: set(v) for a, v in x['glob'].items()}
                    self.curtok = x['tok']
                    self.visit_all(x['n']['kids'])
                elif entry[0] == 'W' and kind == 'sd':
                    e = self.take(0, ('rec',), 'the shutdown observer')
                    self.check(e, 'the shutdown observer')
                elif entry[0] == 'T' and kind == 'sd':
                    if entry[1]['cancel'] is None:
                        entry[1]['cancel'] = self.t
                    self.cancelled.add(entry[1]['n']['id'])
                elif entry[0] == 'C' and kind == 'sd':
                    if entry[1]['sd'] is None:
                        entry[1]['sd'] = self.t
            except ModelError as x:
                errs.append(x.args[0])
        if kind == 'sd':
            self.shut.append(self.t)
        self.during_sd = False
        for x in errs:
            self.errors.append((x, self.t))
        self.frame = None

    def name(self, item):
        return {'ev': lambda: item[1], 'sd': lambda: item[1], 'done': lambda: 'done:%s' % item[1],
                'inc': lambda: 'inc:%s' % item[1],
                'timer': lambda: 'timer:%d' % item[1]['n']['id']}[item[0]]()

    def included(self, i):
        if i:
            return self.ext[i]['kids']
        return None

    def matches(self, i, item):
        h = self.h(i)
        if h['kind'] in ('eh', 'custom', 'named'):
            return item[0] == 'ev' and item[2] in h['types']
        if h['kind'] == 'sd':
            return item[0] == 'sd'
        return item[0] == 'done' and item[1] == h['target']

    def handle(self, i, item):
        h = self.h(i)
        if not self.matches(i, item):
            return
        if h['once'] and not any(x[0] == 'H' and x[1] == i for x in self.handlers):
            # unregistered by another handler of this event
            return
        what = 'handler %d' % i
        if h['kind'] == 'custom':
            if h['boom'] == 'match':
                e = self.take(h['id'], ('match_boom',), what)
                raise ModelError('boom%d' % h['id'])
            if h['boom'] == 'pre':
                e = self.take(h['id'], ('handle_boom',), what)
                raise ModelError('boom%d' % h['id'])
        if h['once']:
            self.gone(h)
            for j, x in enumerate(self.handlers):
                if x[0] == 'H' and x[1] == i:
                    del self.handlers[j]
                    break
        if h['kind'] == 'custom':
            e = self.take(h['id'], ('handle',), what)
            self.check(e, what)
            if h['ext']:
                e = self.take(h['id'], ('locals',), what)
                self.frame['x'] = e['val']
            if h['boom'] == 'post':
                self.take(h['id'], ('handle_boom',), what)
                raise ModelError('boom%d' % h['id'])
        self.visit_all(h['kids'])

    def fire(self, e):
        """The first child of a timer was executed."""
        n = self.owner[e['node']]
        cand = [x for x in self.timers if x['n'] is n and x['fired'] is None]
        who = 'timer %d (%d ms)' % (n['id'], n['ms'])
        if not cand:
            raise Mismatch(['C12'], 'twice', '%s ran its actions at %s more often than it was '
                           'started' % (who, T(e['t'])))
        ok = [x for x in cand if x['due'] - 2000 <= e['t']]
        if not ok:
            raise Mismatch(['C12'], 'early', '%s started at %s ran its actions at %s' % (
                who, T(cand[0]['t0']), T(e['t'])))
        live = [x for x in ok if x['cancel'] is None or x['cancel'] >= x['due'] - 2000 or x['maybe']]
        if not live:
            raise Mismatch(['C12'], 'cancelled', '%s was cancelled at %s and ran its actions at %s'
                           % (who, T(ok[0]['cancel']), T(e['t'])))
        # several executions of one action: take the one whose captured values fit
        fit = [x for x in live if x['tok'] == e['ev']] or live
        x = fit[0]
        if len(fit) > 1:
            def fits(y):
                want = dict(self.globals)
                want.update(y['loc'])
                return all(e['loc'].get(a) == want.get(a) or e['loc'].get(a) in y['glob'].get(a, ())
                           for a in set(want) | set(e['loc']))
            fit2 = [y for y in fit if fits(y)]
            # as captured, rather than as it is now
            fit3 = [y for y in fit2 if all(e['loc'].get(a) in v for a, v in y['glob'].items())]
            x = (fit3 or fit2 or fit)[0]
        x['fired'] = e['t']
        # the wait begins in the next turn of the loop
        late = self.k.latest(x['t0'], SLACK) + x['due'] - x['t0']
        late = self.k.latest(self.k.latest(late, SLACK), SLACK)
        if e['t'] > late:
            raise Mismatch(['C12'], 'late', '%s started at %s ran its actions at %s' % (
                who, T(x['t0']), T(e['t'])))
        for q in self.queue:
            if self.qtime[q[1]] < x['due'] - 2000 and self.interested(q):
                raise Mismatch(['C08', 'C12'], 'event_order', 'event %s was emitted at %s, but %s '
                               'due %s was handled before it at %s' % (
                                   q[1], T(self.qtime[q[1]]), who, T(x['due']), T(e['t'])))
        self.pass_by()
        self.t = e['t']
        self.process(('timer', x))

    during_sd = False
    loose = {}
    order_props = ['C08', 'C16']

    # -- the walk
    def run(self):
        # the description given before the run
        self.handlers = [('service',)]
        self.during_sd = False
        self.curtok = 'inc:0'
        self.frame = {}
        self.loose = {}
        try:
            self.register(('tap',), False)
            self.register(('W',), False)
            for h, app in self.s['prog']['pre']:
                self.register(('H', h), app)
            e = self.take(-1, ('rec',), 'the start of the description')
            self.check(e, 'the start of the description')
            self.visit_all(self.s['prog']['top'])
            self.visit_all(self.s['prog']['top2'])
        except ModelError as x:
            self.errors.append((x.args[0], self.t))
        self.frame = None
        while True:
            e = self.peek()
            if e is None:
                break
            if e['k'] == 'returned':
                self.pos += 1
                self.ret = e
                break
            if e['k'] == 'A':
                self.pos += 1
                self.external(e)
                continue
            if e['op'] == 'emit' and (e['node'] in self.ext or self.nodes.get(
                    e['node'], {}).get('op') == 'coro'):
                self.pos += 1
                self.t = e['t']
                self.enqueue(('ev', e['ev'], e['typ']))
                continue
            if e['op'] == 'rec' and e['node'] in self.owner:
                self.fire(e)
                continue
            if e['op'] == 'tap' and e['ev'].startswith('timer'):
                raise Mismatch(['C12', 'C08'], 'no_actions', '%s fired at %s, its actions were '
                               'not executed' % (e['ev'], T(e['t'])))
            self.next_event(e)
        # what is left in the queue has no handlers, or came too late
        while self.queue and not self.interested(self.queue[0]):
            self.queue.pop(0)
        self.finish()

    def interested(self, item):
        """Would handling this event leave a record?"""
        if item[0] != 'done':
            return True
        return item not in self.optional and any(x[0] == 'H' and self.matches(x[1], item) for x in self.handlers)

    def pass_by(self):
        """An event is handled whose place in the queue is not known."""
        for q in self.queue:
            if q[0] == 'done' and not self.interested(q):
                # maybe it was before, and nobody was interested
                self.optional.add(q)

    def next_event(self, e):
        tok = e.get('ev')
        if e['op'] in ('emit', 'emit_skip', 'tact', 'cancel', 'raise', 'badret', 'future', 'unreg', 'shutdown',
                       'unreg_skip', 'locals', 'globals', 'log'):
            raise Mismatch(['C08', 'C16'], 'stray', '%s of node %s at %s belongs to no event' % (
                e['op'], e['node'], T(e['t'])))
        if tok == 'sd*':
            # a shutdown by the service itself: it may come between any two others
            self.t = e['t']
            self.pass_by()
            self.service_shutdown(e)
            self.process(('sd', 'sd*'))
            return
        if tok and tok.startswith('done:'):
            i = int(tok[5:])
            if not any(q == ('done', i) for q in self.queue[:1]):
                n = self.nodes[i]
                if n['op'] in ('timer', 'coro', 'proc'):
                    if self.async_done(n, e):
                        self.t = e['t']
                        self.pass_by()
                        self.process(('done', i))
                        return
        while self.queue:
            item = self.queue.pop(0)
            name = self.name(item)
            if item in self.optional and name == tok:
                self.optional.discard(item)
            if not self.interested(item):
                continue
            if name != tok:
                raise Mismatch(['C08'] + (['C13'] if item[0] == 'done' else []), 'event_order',
                               'event %s is next, but %s was handled at %s' % (
                                   name, tok, T(e['t'])))
            self.t = e['t']
            self.process(item)
            return
        raise Mismatch(['C08'] + (['C13'] if str(tok).startswith('done') else []), 'ghost_event',
                       'event %s was handled at %s, but was not emitted or is over' % (
                           tok, T(e['t'])))

    def async_done(self, n, e):
        """A completion event of an asynchronous action: is its work done?"""
        if n['op'] == 'timer':
            # a timer completes when it fires or is cancelled
            for x in self.timers:
                if x['n'] is n and x['done'] and (x['cancel'] is not None or
                                                  e['t'] >= x['due'] - 2000):
                    x['done'] = False
                    return True
        elif n['op'] == 'coro':
            for x in self.coros:
                if x['n'] is n and x['done'] and x['ended'] is not None:
                    x['done'] = False
                    return True
        else:
            for x in self.procs:
                if x['n'] is n and x['done']:
                    x['done'] -= 1
                    mine = [p for p in self.k.procs.values() if p.tag == 'simq%d' % n['p']]
                    if all(p.exit_t is not None and p.exit_t <= e['t'] for p in mine):
                        return True
        if any(q == ('done', n['id']) for q in self.queue):
            return False
        raise Mismatch(['C13'], 'early_done', 'completion of node %d (%s) at %s: its work is not '
                       'done, or it was reported before' % (n['id'], n['op'], T(e['t'])))

    def external(self, e):
        op = e['op']
        self.t = e['t']
        if op in ('sigint', 'api'):
            self.asked = True
            return
        if op[0] == 'x':
            x = self.ext[e['node']]
            if op == 'x_reg':
                self.pass_by()
                self.register(('H', x['h']), x['append'])
            elif op == 'x_unreg':
                self.unregister(x['h'])
            elif op == 'x_cancel':
                self.cancel(x['timer'])
            elif op == 'x_globals':
                self.globals[x['key']] = e['val']
            elif op == 'x_include':
                self.enqueue(('inc', x['id']))
            self.last_busy = max(self.last_busy, self.t)
            return
        if op == 'f_end':
            x = next(y for y in self.futures if y['n']['id'] == e['node'] and y['e'] == e['e'])
            x['ended'] = self.t
            self.last_busy = max(self.last_busy, self.t)
            if e['boom']:
                self.errors.append(('boom%d' % e['node'], self.t))
            return
        cand = [y for y in self.coros if y['n']['id'] == e['node'] and y['e'] == e['e']]
        if not cand:
            raise Mismatch(['C13'], 'ghost_coro', 'coroutine of node %d ran more often than its '
                           'action was executed' % e['node'])
        x = cand[0]
        n = x['n']
        self.last_busy = max(self.last_busy, self.t)
        if op == 'c_start':
            x['started'] = self.t
            want = list(range(n['args']))
            kw = {'key': n['id']} if n['args'] else {}
            if n['args'] != 1:
                want.insert(0, 'LaunchContext')
            if e['args'] != want or e['kw'] != kw:
                raise Mismatch(['C13'], 'coro_args', 'coroutine of node %d got %r %r' % (
                    n['id'], e['args'], e['kw']))
            if self.t > self.k.latest(x['t0'], SLACK):
                raise Mismatch(['C13'], 'coro_late', 'coroutine of node %d started %s, executed %s'
                               % (n['id'], T(self.t), T(x['t0'])))
        elif op == 'c_cancel':
            x['cancel'] = self.t
            if x['sd'] is None:
                raise Mismatch(['C13'], 'coro_cancelled', 'coroutine of node %d was cancelled at '
                               '%s without a shutdown' % (n['id'], T(self.t)))
        elif op == 'c_clean':
            x['clean'] = x['ended'] = self.t
        elif op == 'c_end':
            x['ended'] = self.t
            if e['boom']:
                self.errors.append(('boom%d' % n['id'], self.t))
        if op in ('c_end',) and x['sd'] is not None and x['cancel'] is None and \
                self.t > self.k.latest(x['sd'], SLACK):
            raise Mismatch(['C13'], 'coro_not_cancelled', 'coroutine of node %d went on until %s '
                           'after the shutdown at %s' % (n['id'], T(self.t), T(x['sd'])))

    asked = False
    ret = None

    def pending(self, t):
        out = []
        for x in self.timers:
            if x['fired'] is None and x['cancel'] is None and not x['maybe']:
                out.append(('C12', 'timer %d due %s' % (x['n']['id'], T(x['due']))))
        for x in self.coros:
            if x['ended'] is None and not (x['sd'] is not None and x['started'] is None):
                out.append(('C13', 'coroutine of node %d' % x['n']['id']))
        for x in self.futures:
            if x['ended'] is None:
                out.append(('C13', 'future of node %d' % x['n']['id']))
        for x in self.procs:
            if not x['started']:
                continue
            mine = [p for p in self.k.procs.values() if p.tag == 'simq%d' % x['n']['p']]
            if not mine or any(p.spawn_t <= t and (p.exit_t is None or p.exit_t > t) for p in mine):
                out.append(('C07', 'process of node %d' % x['n']['id']))
            elif not self.shut and any(p.spawn_t > t for p in mine):
                out.append(('C07', 'respawn of node %d' % x['n']['id']))
        for q in self.queue:
            # it may have been emitted when the service had just decided
            if self.interested(q) and self.k.latest(self.qtime.get(q[1], 0), SLACK) < t:
                out.append(('C08', 'event %s' % (q[1],)))
        return out

    def service_shutdown(self, e):
        """The service shut down by itself: was there a reason?"""
        self.nsd += 1
        if self.asked or self.errors or self.shut or any(
                t <= e['t'] for t in self.on_exit_times()):
            return
        if not self.s['idle']:
            raise Mismatch(['C07'], 'keepalive', 'shutdown at %s although told to keep running'
                           % T(e['t']))
        p = self.pending(e['t'])
        if p:
            raise Mismatch(['C07'] + sorted({x for x, _ in p}), 'premature',
                           'the service shut down by itself at %s, pending: %s' % (
                               T(e['t']), '; '.join(y for _, y in p)))

    def on_exit_times(self):
        """When processes ended whose end is to end everything."""
        for x in self.procs:
            for p in self.k.procs.values():
                if x['n']['onexit'] and p.tag == 'simq%d' % x['n']['p'] and p.exit_t is not None:
                    yield p.exit_t

    def finish(self):
        k = self.k
        ret = self.ret
        if ret is None:
            return
        rt = ret['t']
        if self.pos < len(self.H):
            e = self.H[self.pos]
            raise Mismatch(['C13', 'C01'], 'after_return', '%s of node %s at %s, after the run '
                           'returned' % (e.get('op'), e.get('node'), T(e['t'])))
        p = self.pending(rt)
        late = [(a, b) for a, b in p if not b.startswith('event')]
        if late:
            raise Mismatch(sorted({a for a, _ in late}), 'unfinished',
                           'the run returned at %s, pending: %s' % (
                               T(rt), '; '.join(b for _, b in late)))
        for q in self.queue:
            if self.interested(q):
                # an event emitted while the loop was already stopping stays queued
                if k.latest(self.qtime[q[1]], SLACK) < rt or not self.shut:
                    raise Mismatch(['C08', 'C07'], 'lost', 'event %s was never handled' % (q[1],))
                break
        for x in self.coros:
            if x['done'] and 'unsure' not in x and x['ended'] is not None and any(
                    h[0] == 'H' and self.matches(h[1], ('done', x['n']['id']))
                    for h in self.handlers):
                raise Mismatch(['C13'], 'no_done', 'the completion of the coroutine of node %d '
                               'was not reported' % x['n']['id'])
        for x in self.timers:
            if x['done'] and 'unsure' not in x and any(
                    h[0] == 'H' and self.matches(h[1], ('done', x['n']['id']))
                                 for h in self.handlers):
                raise Mismatch(['C13'], 'no_done', 'the completion of timer %d was not reported'
                               % x['n']['id'])
        if bool(self.errors) != bool(ret['rc']):
            raise Mismatch(['C09'], 'rc', 'return code %r, errors: %r' % (
                ret['rc'], self.errors[:3]))
        if not self.shut:
            raise Mismatch(['C09', 'C07', 'C01'], 'no_shutdown', 'the run ended without a Shutdown event')
        for t in self.on_exit_times():
            if not self.shut or self.shut[0] > k.latest(t, SLACK):
                raise Mismatch(['C03', 'C09', 'C30'], 'on_exit', 'no shutdown follows the end of a process '
                               'at %s' % T(t))
        log = re.split(r'\n(?=\[)', self.ctx.log)
        for msg, t in self.errors:
            if msg and not any('[ERROR]' in ln and (re.search(
                    re.escape(msg) + r'(\s|$)', ln) or not msg.startswith('boom') and msg in ln)
                    for ln in log):
                raise Mismatch(['C09'], 'unlogged', 'error %r of %s was not logged' % (msg, T(t)))
        if self.errors:
            t = self.errors[0][1]
            sd = [x for x in self.shut if x >= t] or self.shut
            if sd[0] > k.latest(k.latest(t, SLACK), SLACK) and self.shut[0] > t:
                raise Mismatch(['C09'], 'slow_shutdown', 'an error at %s, Shutdown only at %s' % (
                    T(t), T(sd[0])))
        if self.ctx.final_cfg != self.cfg:
            raise Mismatch(['C16'], 'final_cfg', 'launch configurations in the end: %r, expected '
                           '%r' % (self.ctx.final_cfg, self.cfg))
        if self.ctx.final_env != self.env:
            raise Mismatch(['C17'], 'final_env', 'environment in the end: %r, expected %r' % (
                self.ctx.final_env, self.env))
        loc = {a: b for a, b in self.ctx.final_loc.items() if a in LOC or a == 'event'}
        if loc != self.globals:
            raise Mismatch(['C10'], 'final_locals', 'locals outside of handlers: %r, expected %r'
                           % (loc, self.globals))
        # promptness
        last = self.last_busy
        for x in self.procs:
            for pr in k.procs.values():
                if pr.tag == 'simq%d' % x['n']['p'] and pr.exit_t:
                    last = max(last, pr.exit_t)
        for x in self.timers:
            if x['n']['optout'] and x['cancel'] is None or x['maybe']:
                last = max(last, x['due'])
        if self.shut:
            last = max(last, self.shut[-1])
            if rt > k.latest(k.latest(last, SLACK), SLACK):
                raise Mismatch(['C07', 'C12', 'C13', 'C01'], 'not_prompt',
                               'nothing was left to do at %s, the run returned at %s' % (
                                   T(last), T(rt)))


def T(t):
    return '%.6fs' % ((t - 1000 * NS) / NS) if t is not None else 'never'


def judge(ctx):
    s = getattr(ctx, 's', None)
    if s is None:
        return
    k, V = ctx.k, ctx.violation
    m = Model(ctx)
    ctx.nontrivial = sum(1 for e in m.H if e['k'] == 'P') >= 6
    if ctx.aborted and ctx.aborted[0] == 'too_long':
        ctx.nontrivial = False
        return
    if ctx.aborted:
        V(['C01', 'C07', 'C09', 'C12', 'C13'], 'hang', 'the run did not end: %s: %s' % tuple(
            ctx.aborted))
        return
    try:
        m.run()
    except Mismatch as x:
        own = [PROP_OF[ctx.profile]] if ctx.profile in PROP_OF else []
        V(x.props + [y for y in own if y not in x.props], x.key, x.msg)
    ctx.model = m
    for name in ('timers', 'coros', 'futures', 'procs', 'errors'):
        if getattr(m, name):
            ctx.state_marks.add(name)
    if any(x['cancel'] is not None for x in m.timers):
        ctx.state_marks.add('timer_cancelled')
    if len(m.shut) > 1:
        ctx.state_marks.add('several_shutdowns')
    judge_env(ctx, m)
    judge_cmd(ctx, m)
    judge_signals(ctx, m)


def judge_signals(ctx, m):
    """C02: the signals that processes got which do not stop when asked to."""
    k, V = ctx.k, ctx.violation
    for x in m.procs:
        n = x['n']
        if not n['stub'] or not m.shut:
            continue
        t1, t2 = [5000 if y is None else y for y in n['tt']]
        for p in k.procs.values():
            if p.tag != 'simq%d' % n['p'] or p.exit_t is not None and p.exit_t < m.shut[0]:
                continue
            for sig, dt in ((signal.SIGTERM, t1), (signal.SIGKILL, t1 + t2)):
                at = [y['t'] for y in p.signals if y['sig'] == sig]
                # those that start when the shutdown is under way are told later
                due = dt * MS + k.latest(max(m.shut[0], p.spawn_t), SLACK)
                last = k.latest(due, SLACK)
                if any(y < m.shut[0] + dt * MS - MS // 10 for y in at) or at and at[0] > last or \
                        not at and (p.exit_t is None or p.exit_t > last):
                    V(['C02', 'C30'], 'escalation', 'process of node %d: %s is due at %s, was '
                      'sent at %s' % (n['id'], sig.name, T(due), [T(y) for y in at]))
                    return
                if at:
                    ctx.state_marks.add(sig.name)


def judge_cmd(ctx, m):
    """C29: how each process was started and announced."""
    k, V = ctx.k, ctx.violation
    for x in m.procs:
        n = x['n']
        cmd = ' '.join(x['cmd']) if n['shell'] else x['cmd']
        for y in k.os.spawns:
            if y['name'] != 'simq%d' % n['p']:
                continue
            for what, got, want in (('command line', y['argv'], cmd),
                                    ('working directory', y['cwd'], x['cwd']),
                                    ('use of a shell', bool(y['shell']), n['shell'])):
                if got != want:
                    V(['C29', 'C30'], 'started_as', 'process of node %d (start %d): its %s is %r, '
                      'expected %r' % (n['id'], y['inst'], what, got, want))
                    return
        for e in hist(ctx, 'pstart') + hist(ctx, 'pexit'):
            if e['node'] == n['id'] and (e['cmd'], e['cwd'], e['base'], e['env']) != (
                    x['cmd'], x['cwd'], x['name'], x['env']):
                V(['C29', 'C03'], 'announced_as', 'process of node %d is announced by %s as %r, '
                  'expected %r' % (n['id'], e['k'], (e['cmd'], e['cwd'], e['base'], e['env']), (
                      x['cmd'], x['cwd'], x['name'], x['env'])))
                return


def judge_env(ctx, m):
    """C17: the environment each process was started with."""
    k, V = ctx.k, ctx.violation
    for x in m.procs:
        n = x['n']
        sp = [y for y in k.os.spawns if y['name'] == 'simq%d' % n['p']]
        if sp and not x['started']:
            V(['C06'], 'started_after', 'process of node %d was started after shutdown' % n['id'])
        for y in sp:
            got = {a: b for a, b in y['env'].items() if a.startswith('SIM_')}
            if got != x['env']:
                V(['C17', 'C30'], 'proc_env', 'process of node %d (start %d) has environment %r, expected '
                  '%r' % (n['id'], y['inst'], got, x['env']))
            if n['env'] in ('own', 'empty') and set(y['env']) - set(x['env']):
                V(['C17'], 'proc_env_extra', 'process of node %d was given variables it should '
                  'not have: %r' % (n['id'], sorted(set(y['env']) - set(x['env']))[:5]))
