"""XML and YAML launch files for the programs of fam_prog.

An expression is a list of parts: ('t', text), ('lc', name, default), ('env', name, default) or
('s', substitution name, [argument expressions]).
"""
import errno
import math
import os
import shlex
from xml.etree import ElementTree as ET

from .procs import MS, Plan

NATIVE = ('group', 'timer', 'include', 'setcfg', 'declare', 'setenv', 'appendenv', 'unsetenv',
          'resetenv', 'resetcfg', 'proc', 'log', 'shutdown')
TRUE = ('true', 'True', '1', 'on', 'yes', 'TRUE')
FALSE = ('false', 'False', '0', 'off', 'no')
EXT = {'xml': ('launch.xml', 'xml', 'launch'), 'yaml': ('launch.yaml', 'yml', 'launch'),
       'py': ('launch.py',)}
# the contents tell
OTHER_EXT = ('', 'txt', 'launch', 'v2', 'XML')
BAD = ('tag', 'attr', 'noattr', 'syntax', 'nofile', 'ifunless')
CONTENT = 'what the file says'


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# expressions as text
# ---------------------------------------------------------------------------------------------
def merged(expr):
    out = []
    for e in expr:
        if e[0] == 't' and out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + e[1])
        else:
            out.append(e)
    return [e for e in out if e[0] != 't' or e[1]]


def as_sub(e):
    if e[0] in ('lc', 'env'):
        return ('var' if e[0] == 'lc' else 'env',
                [[('t', e[1])]] + ([] if e[2] is None else [[('t', e[2])]]))
    return e[1], e[2]


def escape(text, special):
    out = ''
    for j, c in enumerate(text):
        if c == '\\' or c in special or c == '$' and text[j + 1:j + 2] == '(':
            out += '\\'
        out += c
    return out


def string(expr, pick, quote=''):
    """Text of an expression outside of quotes, or inside of them."""
    out = ''
    for e in merged(expr):
        out += escape(e[1], quote) if e[0] == 't' else sub(e, pick, quote)
    return out


def possible(expr):
    """Quotes cannot be nested: is there a way to write this expression?"""
    try:
        string(expr, lambda x: x[0])
        return True
    except Infeasible:
        return False


def sub(e, pick, quote):
    name, args = as_sub(e)
    return '$(%s)' % ' '.join([name] + [argument(a, pick, quote) for a in args])


def argument(expr, pick, quote):
    expr = merged(expr)
    styles = ['bare'] + ([] if quote else ["'", '"'])
    while styles:
        s = pick(styles)
        styles.remove(s)
        try:
            if s != 'bare':
                return s + string(expr, pick, s) + s
            if not expr or any(e[0] == 't' and ' ' in e[1] for e in expr):
                raise Infeasible
            out = ''
            for e in expr:
                if e[0] != 't':
                    out += sub(e, pick, quote)
                elif quote:
                    if any(c in e[1] for c in '\'"'):
                        raise Infeasible
                    out += escape(e[1], '()')
                else:
                    out += escape(e[1], '()\'"')
            return out
        except Infeasible:
            pass
    raise Infeasible


# ---------------------------------------------------------------------------------------------
# what substitutions mean
# ---------------------------------------------------------------------------------------------
class Undefined(Exception):
    """The substitution fails."""


def boolean(v):
    if v in TRUE:
        return True
    if v in FALSE:
        return False
    raise Undefined('%r is no boolean' % v)


def equal(a, b):
    if a.lower() in ('true', 'false', '1', '0') and b.lower() in ('true', 'false', '1', '0'):
        return (a.lower() in ('true', '1')) == (b.lower() in ('true', '1'))
    try:
        return math.isclose(float(a), float(b))
    except ValueError:
        return a == b


# commands: time, stdout and stderr in the order in which they are written, return code
COMMANDS = {
    'simcecho': (5, ((1, None),), 0), 'simcnl': (0, ((1, 'line\n'),), 0),
    'simccr': (1, ((1, 'a\r\nb\rc\n'),), 0), 'simcnone': (3, (), 0),
    'simcslow': (300, ((1, 'sl'), (1, 'ow')), 0), 'simcutf': (0, ((1, 'ü€'),), 0),
    'simcerr': (2, ((1, 'out'), (2, 'oops'), (1, 'put')), 0),
    'simcenv': (1, ((1, 'SIM_A'),), 0),
    'simcrc': (1, ((1, 'x'),), 3), 'simcrcerr': (1, ((2, 'x'),), 1), 'simcdie': (40, ((1, 'x'),), -9)}
ON_STDERR = ('fail', 'ignore', 'warn', 'capture')
FAILING = ('simcrc', 'simcrcerr', 'simcdie', 'simcperm', 'simcmissing')


def command_programs(osim):
    for name, (ms, out, rc) in COMMANDS.items():
        steps = [(ms * MS, 'out', fd, (lambda p: '|'.join(p.argv[1:]).encode()) if text is None
                  else (lambda p: p.env.get('SIM_A', 'unset').encode()) if text == 'SIM_A'
                  else text.encode()) for fd, text in out]
        osim.program(name, [Plan(steps + [
            (MS, 'die', -rc) if rc < 0 else (MS, 'exit', rc)])])
    osim.program('simcperm', [Plan(spawn=errno.EACCES)])


def command(text, on_stderr, env):
    try:
        words = shlex.split(text)
    except ValueError:
        raise Undefined('command %r' % text)
    prog = COMMANDS.get(os.path.basename(words[0]) if words else None)
    if on_stderr not in ON_STDERR or prog is None or prog[2]:
        raise Undefined('command %r' % text)
    err = any(fd == 2 for fd, _ in prog[1])
    if err and on_stderr == 'fail':
        raise Undefined('stderr of %r' % text)
    out = ''.join('|'.join(words[1:]) if t is None else env.get('SIM_A', 'unset') if t == 'SIM_A'
                  else t for fd, t in prog[1] if fd == 1 or on_stderr == 'capture')
    return out.replace('\r\n', '\n').replace('\r', '\n')


def meaning(name, args, value, model):
    """The value of one substitution; value evaluates an argument."""
    if name in ('var', 'env'):
        d = model.cfg if name == 'var' else model.env
        key = value(args[0])
        if key in d:
            return d[key]
        if len(args) > 1:
            return value(args[1])
        raise Undefined("'%s' does not exist" % key)
    if name == 'if':
        c = boolean(value(args[0]))
        return value(args[1]) if c else value(args[2]) if len(args) > 2 else ''
    if name in ('equals', 'not-equals'):
        r = equal(value(args[0]), value(args[1])) == (name == 'equals')
    elif name == 'eval':
        ns = dict(vars(math))
        ns['math'] = math
        if len(args) > 1:
            ns = {m.strip(): __import__(m.strip()) for m in value(args[1]).split(',')}
            if 'math' in ns:
                ns.update(vars(math))
        text = value(args[0])
        try:
            return str(eval(text, {}, ns))
        except Exception:
            raise Undefined('eval of %r' % text)
    elif name == 'file-content':
        # the only file there is
        return CONTENT
    elif name == 'command':
        return command(value(args[0]), value(args[1]) if len(args) > 1 else 'fail', model.env)
    elif name == 'anon':
        return 'anon_' + value(args[0])
    elif name == 'find-exec':
        name = value(args[0])
        if name != 'sh':
            raise Undefined('no executable %r' % name)
        return '/bin/sh'
    elif name in ('log_dir', 'launch_log_dir'):
        return '/log'
    elif name == 'dirname' or name == 'filename':
        raise AssertionError(name)
    else:
        vals = [boolean(value(a)) for a in args]
        r = {'not': lambda: not vals[0], 'and': lambda: all(vals), 'or': lambda: any(vals),
             'any': lambda: any(vals), 'all': lambda: all(vals)}[name]()
    return str(r).lower()


def build_sub(name, args, subst):
    """The same substitution, built in Python."""
    from launch import substitutions as S
    a = [subst(x) for x in args]
    if name in ('var', 'env'):
        if name == 'var':
            return S.LaunchConfiguration(a[0], **({'default': a[1]} if len(a) > 1 else {}))
        return S.EnvironmentVariable(a[0], **({'default_value': a[1]} if len(a) > 1 else {}))
    if name == 'eval':
        if len(a) > 1:
            return S.PythonExpression(a[0], [x.strip() for x in args[1][0][1].split(',')])
        return S.PythonExpression(a[0])
    if name == 'command':
        return S.Command(a[0], **({'on_stderr': a[1]} if len(a) > 1 else {}))
    if name == 'find-exec':
        return S.FindExecutable(name=a[0])
    return {'anon': S.AnonName, 'log_dir': S.LaunchLogDir, 'launch_log_dir': S.LaunchLogDir,
            'if': S.IfElseSubstitution, 'not': S.NotSubstitution, 'and': S.AndSubstitution,
            'or': S.OrSubstitution, 'any': S.AnySubstitution, 'all': S.AllSubstitution,
            'equals': S.EqualsSubstitution, 'not-equals': S.NotEqualsSubstitution,
            'file-content': S.FileContent}[name](*a)


# ---------------------------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------------------------
NODES = {}                    # what the tag sim_node stands for


def parse_sim_node(entity, parser):
    i = int(entity.get_attr('id', data_type=int))
    return (lambda node: NODES[node]), {'node': i}


def register():
    from launch.frontend import expose_action
    expose_action('sim_node')(parse_sim_node)


class Tag:
    """An element of a launch file: attributes, lists of attributes (env, keep, ...), children."""

    def __init__(self, name, attrs=(), lists=(), kids=None):
        self.name, self.attrs, self.lists, self.kids = name, dict(attrs), dict(lists), kids


class Typed:
    """A value that YAML writes as a number or a boolean."""

    def __init__(self, v):
        self.v = v


def tag(n, pick, path_of, build):
    """The element of a node."""
    def st(expr):
        return string(expr, pick)
    attrs, lists, kids = {}, {}, None
    op = n['op']
    if op not in NATIVE or not n.get('native'):
        NODES[n['id']] = build(n)
        return Tag('sim_node', {'id': Typed(n['id'])})
    c = n.get('cond')
    if c is not None:
        attrs[c[0]] = st(c[1])
    if 'kids' in n and op != 'include':
        kids = [tag(x, pick, path_of, build) for x in n['kids']]
    if op == 'group':
        name = 'group'
        if not n['scoped'] or pick((False, True)):
            attrs['scoped'] = Typed(n['scoped'])
        if not n['fwd'] or pick((False, True)):
            attrs['forwarding'] = Typed(n['fwd'])
        if n['cfgs']:
            lists['keep'] = [{'name': a, 'value': st(b)} for a, b in n['cfgs']]
    elif op == 'resetcfg':
        name = 'reset'
        if n['cfgs'] is not None:
            lists['keep'] = [{'name': a, 'value': st(b)} for a, b in n['cfgs']]
    elif op == 'timer':
        name = 'timer'
        attrs['period'] = Typed(n['ms'] / 1000) if n['src'] == 'float' else pick((
            '%r' % (n['ms'] / 1000), "$(eval '%d / 1000')" % n['ms'], '$(var nothing %r)' % (
                n['ms'] / 1000)))
        if n['optout'] or pick((False, True)):
            v = not n['optout']
            attrs['cancel_on_shutdown'] = pick((Typed(v), '$(not %s)' % str(not v).lower()))
    elif op == 'include':
        name = 'include'
        attrs['file'] = path_of(n)
        if n['args']:
            lists['arg'] = [{'name': a, 'value': st(b)} for a, b in n['args']]
    elif op == 'setcfg':
        name, attrs['name'], attrs['value'] = 'let', n['key'], st(n['val'])
    elif op == 'declare':
        name, attrs['name'] = 'arg', n['key']
        if n['dflt'] is not None:
            attrs['default'] = st(n['dflt'])
        if pick((False, True)):
            attrs['description'] = 'about ' + n['key']
        if n['choices']:
            lists['choice'] = [{'value': escape(x, '')} for x in n['choices']]
    elif op in ('setenv', 'appendenv'):
        name = 'set_env' if op == 'setenv' else 'append_env'
        attrs['name'], attrs['value'] = n['key'], st(n['val'])
        if op == 'appendenv':
            if n['pre'] or pick((False, True)):
                attrs['prepend'] = pick((Typed(n['pre']), '$(not %s)' % str(not n['pre']).lower()))
            if n['sep'] is not None:
                attrs['separator'] = n['sep']
    elif op == 'unsetenv':
        name, attrs['name'] = 'unset_env', n['key']
    elif op == 'resetenv':
        name = 'reset_env'
    elif op == 'shutdown':
        name, attrs['reason'] = 'shutdown', pick(('sim#%d', '$(if true sim)#%d', 'sim#$(eval %d)')) % n['id']
    elif op == 'log':
        name, attrs['message'] = 'log', st(n['val'])
    elif op == 'proc':
        name = 'executable'
        sp = pick((' ', ' ', '  '))
        exe = '/opt/sim/simq%d' % n['p']
        exe = pick((exe, exe, '$(if true %s)' % exe, "$(var nowhere '%s')" % exe,
                    '/opt/$(if true sim)/simq%d' % n['p']))
        attrs['cmd'] = pick(('', '', ' ', '\t ')) + sp.join(
            [exe] + [st(quoted(a)) for a in n['args']]) + pick(('', ' '))
        for key, to in (('prefix', 'launch-prefix'), ('name', 'name'), ('cwd', 'cwd')):
            if n[key] is not None:
                attrs[to] = st(n[key])
        if n['env'] == 'add':
            lists['env'] = [{'name': a, 'value': st(b)} for a, b in [
                (n['addkey'], n['addval'])] + n['more']]
        if n['onexit']:
            attrs['on_exit'] = 'shutdown'
        for key, ms in zip(('sigterm_timeout', 'sigkill_timeout'), n['tt']):
            if ms is not None:
                attrs[key] = Typed(ms / 1000)
        if n['shell']:
            attrs['shell'] = Typed(True)
        if n['respawn']:
            attrs['respawn'] = pick(('true', '$(not false)'))
            attrs['respawn_max_retries'] = Typed(n['respawn'])
            attrs['respawn_delay'] = Typed(n['delay'] / 1000)
    else:
        raise AssertionError(op)
    return Tag(name, attrs, lists, kids)


def quoted(expr):
    """An argument of a command line: blanks need quotes."""
    return [('t', "'%s'" % e[1]) if e[0] == 't' and ' ' in e[1] else e for e in expr]


def spoil(tags, bad, pick):
    if bad == 'tag':
        tags.insert(pick(range(len(tags) + 1)), Tag('no_such_tag', {'name': 'x'}))
    elif bad == 'attr':
        tags.insert(pick(range(len(tags) + 1)), Tag('let', {'name': 'a', 'value': 'bad', 'no': '1'}))
    elif bad == 'noattr':
        tags.insert(pick(range(len(tags) + 1)), Tag('let', {'name': 'a'}))
    elif bad == 'ifunless':
        tags.insert(pick(range(len(tags) + 1)), Tag(
            'let', {'name': 'a', 'value': 'bad', 'if': 'true', 'unless': 'false'}))


def xml(attrs, tags, bad, pick):
    def element(t):
        e = ET.Element(t.name)
        for a, v in t.attrs.items():
            if isinstance(v, Typed):
                v = str(v.v).lower() if isinstance(v.v, bool) and pick((0, 1)) else str(v.v)
            e.set(a, v)
        kids = [element(x) for x in t.kids or ()]
        for name, items in t.lists.items():
            for item in items:
                # anywhere, but in this order
                e.append(ET.Element(name, item))
        kids and e.extend(kids)
        if pick((0, 0, 1)):
            e.insert(0, ET.Comment('a comment'))
        return e
    root = element(Tag('launch', attrs, kids=tags))
    if pick((0, 1)):
        ET.indent(root)
    out = ET.tostring(root, encoding='unicode')
    if bad == 'syntax':
        out = out[:-3]
    return pick(('', '<?xml version="1.0"?>\n')) + out


def yaml(attrs, tags, bad, pick):
    import yaml as y

    def body(t):
        d = {a: v.v if isinstance(v, Typed) else v for a, v in t.attrs.items()}
        for name, items in t.lists.items():
            d[name] = [dict(x) for x in items]
        if t.kids is None:
            return d
        kids = [{x.name: body(x)} for x in t.kids]
        if not d and pick((0, 1)):
            return kids
        d['children'] = kids
        return d
    root = {'launch': body(Tag('launch', attrs, kids=tags))}
    out = y.safe_dump(root, sort_keys=False, allow_unicode=pick((False, True)),
                      default_flow_style=pick((False, False, None, True)),
                      default_style=pick((None, None, "'", '"')), width=pick((80, 10000)))
    if bad == 'syntax':
        out += '\n"]'
    return pick(('', '---\n', '# a comment\n')) + out


def write(full, n, pick, path_of, build):
    os.makedirs(os.path.dirname(full), exist_ok=True)
    tags = [tag(x, pick, path_of, build) for x in n['kids']]
    if n['bad'] == 'nofile':
        return
    spoil(tags, n['bad'], pick)
    text = (xml if n['fmt'] == 'xml' else yaml)(
        {'deprecated': n['old']} if n['old'] else {}, tags, n['bad'], pick)
    with open(full, 'w', encoding='utf-8') as f:
        f.write(text)
