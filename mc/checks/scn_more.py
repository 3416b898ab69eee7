"""Scenarios for engines (C05), failures (C07) and maintenance options (C08)."""
import itertools

from ..hist import Mismatch, Scenario
from .scn_cache import C, CC, F, Fixed, HEAD, TAIL, Versions


# -- C05 ------------------------------------------------------------------------

class InProcess(Fixed):
    """Edits between the calls of one build, with all three engines."""
    name = 'within-one-build'
    engines = ('pickle', 'sqlite', 'cache')
    depth = 2
    files0 = {'a': 'A0', 'b': 'B0', 'h': 'H0'}
    body = '''
@caches
def g(ctx, src:SRC):
    T.run('g', src)
    return ['g', T.read(src)]

@caches
def f(ctx, src:SRC, *more, k=0):
    T.run('f', src, more, k)
    return {'f': g(ctx, src), 'k': k, 'more': more}

@caches
def w(ctx, src:SRC, dst:DST) -> DST:
    T.run('w', src, dst)
    T.write(dst, 'w' + T.read(src))
    T.write(dst + '2', 'w2')
    T.ext(ctx, srcs=['h'], dsts=[dst + '2'])
    return dst

@caches
def r(ctx, srcs:SRCS):
    T.run('r', srcs)
    return [T.read(s) for s in srcs]
'''
    parts = (
        [F("f.call(ctx,'a')"), F("g.call(ctx,'a')")],
        [F("w.call(ctx,'a','build/o')"), F("r.call(ctx,['build/o','b'])")],
        [F("f.call(ctx,'b',1,2,k=1)"), F("f.call(ctx,'a')")],
    )
    mids = (('edit', 'a', 'A1'), ('edit', 'b', 'B1'), ('edit', 'h', 'H1'), ('touch', 'a'), ('rm', 'build/o'),
            ('rm', 'build/o2'))
    edits = (('none',), ('edit', 'a', 'A2'), ('edit_back', 'a', 'A0'))

    @property
    def plans(self):
        for p, m, q in itertools.product(self.parts, self.mids, self.parts):
            yield p + [m] + q

    def first_steps(self):
        return [dict(plan=p) for p in self.plans]

    def next_steps(self, history):
        tail = [p for part in self.parts for p in part]
        return [dict(edit=e, plan=tail) for e in self.edits]


class Switching(Fixed):
    """Builds that use one engine or the other, in the same build directory."""
    name = 'alternating-engines'
    engines = ('both',)
    depth = 3
    files0 = {'a': 'A0', 'h': 'H0'}
    body = InProcess.body
    plans = (
        [F("f.call(ctx,'a')"), F("w.call(ctx,'a','build/o')")],
        [F("w.call(ctx,'a','build/o')"), F("r.call(ctx,['build/o'])"), F("g.call(ctx,'a')")],
    )
    edits = (('none',), ('edit', 'a', 'A1'), ('edit', 'h', 'H1'), ('edit', 'a', 'A0'), ('rm', 'build/o'))

    def first_steps(self):
        return [dict(plan=p, engine=e) for p in self.plans for e in ('pickle', 'sqlite')]

    def next_steps(self, history):
        return [dict(edit=d, plan=p, engine=e) for d in self.edits for p in self.plans
                for e in ('pickle', 'sqlite', 'cache')]


VALUES = [
    'None', 'True', 'False', '0', '1', '-1', '2**70', '1.5', '0.0', 'float("inf")', "''", "'a'", "'A'", "'a '", "'\\u00e9'",
    "'a\\0b'", "b''", "b'a'", '()', '(1,)', "('a',)", '((1,),)', '[]', '[1]', '[[1]]', '[1, 2]', '[2, 1]', "['a']", '{}', '{1: 2}',
    '{2: 1}', "{'a': [1]}", "{'a': 1, 'b': 2}", "{'b': 2, 'a': 1}", 'set()', '{1}', '{1, 2}', 'frozenset()', 'frozenset({1})',
    "Path('a')", "[Path('a'), 'b']", 'P(1)', 'P(2)', '[P(1)]', 'N(1, 2)', 'N(2, 1)', '{N(1, 2): P(1)}', '1j', 'range(3)',
]

class Values(Scenario):
    """Arguments and results of many types, and all pairs of them."""
    name = 'values'
    engines = ('pickle', 'sqlite', 'cache')
    depth = 2
    body = HEAD + '''
from fbuild.path import Path
from mc.vals import N, P

@caches
def v(ctx, x):
    T.run('v', x)
    return x

@caches
def p(ctx, *a, **kw):
    T.run('p', a, kw)
    return [a, kw]

@caches
def n(ctx, i):
    T.run('n', i)
    return VALUES[i]

@caches
def o(ctx, x, y=None, *, z=()):
    T.run('o', x, y, z)
    return {'x': x, 'y': [y], 'z': (z, z)}
VALUES = [@VALUES@]
'''.replace('@VALUES@', ', '.join(VALUES)) + TAIL

    def texts(self, step):
        return {'fbuildroot': self.body}

    def first_steps(self):
        vs = [C('v(ctx, %s)' % x) for x in VALUES]
        ns = [C('n(ctx, %d)' % i) for i in range(len(VALUES))]
        ps = [C('p(ctx, %s)' % x) for x in VALUES] + [C('p(ctx, a=%s)' % x) for x in VALUES]
        os = [C('o(ctx, %s, %s)' % (x, y)) for x, y in zip(VALUES, VALUES[1:])] + \
             [C('o(ctx, %s, z=%s)' % (x, y)) for x, y in zip(VALUES, VALUES[1:])]
        return [dict(plan=p) for q in (vs, ns, ps, os) for p in (q, q[::-1], q + q)]

    def next_steps(self, history):
        return self.first_steps()


class Mutating(Scenario):
    """Build scripts that modify what they passed or got."""
    name = 'modified-values'
    engines = ('pickle', 'sqlite', 'cache')
    depth = 3
    body = HEAD + '''
@caches
def f(ctx, flags, opt={}):
    T.run('f', flags, opt)
    return list(flags) + [sorted(opt.items())]

@caches
def d(ctx):
    T.run('d')
    return {'l': [1]}

def grow(ctx):
    flags = []
    out = [f(ctx, flags)]
    flags.append('-O')
    out.append(f(ctx, flags))
    del flags[:]
    out.append(f(ctx, flags))
    return out

def options(ctx):
    opt = {'a': 1}
    out = [f(ctx, (), opt)]
    opt['a'] = 2
    out.append(f(ctx, (), opt=opt))
    return out

def result(ctx):
    r = d(ctx)
    r['l'].append(2)
    r['x'] = 1
    s = f(ctx, ['-g'])
    s.append('more')
    return [r, s, d(ctx), f(ctx, ['-g'])]
''' + TAIL

    def texts(self, step):
        return {'fbuildroot': self.body}

    def first_steps(self):
        cs = [C('grow(ctx)'), C('options(ctx)'), C('result(ctx)'), C("f(ctx, ['-O'])"), C('d(ctx)')]
        return [dict(plan=list(p)) for p in itertools.permutations(cs, 2)]

    def next_steps(self, history):
        return self.first_steps()


class Falsy(Fixed):
    """Results that are nothing at all, for some contents."""
    name = 'empty-results'
    engines = ('pickle', 'sqlite')
    depth = 3
    files0 = {'a': 'None'}
    body = '''
@caches
def f(ctx, src:SRC):
    T.run('f', src)
    return eval(T.read(src))

@caches
def o(ctx, src:SRC):
    T.run('o', src)
    return [f(ctx, src)]
'''
    plans = ([F("f.call(ctx,'a')")], [C("o(ctx,'a')"), C("f(ctx,'a')")])
    edits = (('none',),) + tuple(('edit', 'a', t) for t in ('None', '0', "''", '()', 'False', '[]', '1', '{}'))


# -- C07 ------------------------------------------------------------------------

class Failing(Fixed):
    """Sources with contents that make the function fail."""
    name = 'failing-calls'
    depth = 3
    files0 = {'a': 'ok', 'b': 'ok'}
    body = '''
class Odd(Exception):
    pass

def check(src):
    text = T.read(src)
    if text == 'bad':
        raise T.Error('bad ' + src)
    if text == 'odd':
        raise Odd(src)
    return text

@caches
def g(ctx, src:SRC):
    T.run('g', src)
    return ('g', check(src))

@caches
def w(ctx, src:SRC, dst:DST):
    T.run('w', src, dst)
    T.write(dst, 'w')
    T.ext(ctx, srcs=['b'])
    return ('w', check(src))

@caches
def f(ctx, src:SRC):
    T.run('f', src)
    return ('f', g(ctx, src), g(ctx, 'b'))

@caches
def h(ctx, src:SRC):
    T.run('h', src)
    try:
        return ('h', f(ctx, src))
    except T.Error as e:
        return ('h', str(e))
'''
    plans = (
        [C("f(ctx,'a')"), C("g(ctx,'b')")],
        [CC("g(ctx,'a')"), C("g(ctx,'b')"), CC("w(ctx,'a','build/o')")],
        [C("h(ctx,'a')"), C("w(ctx,'b','build/o')")],
        [C("g(ctx,'b')"), C("h(ctx,'b')"), ('raise', 'stop'), C("g(ctx,'a')")],
    )
    edits = (('none',), ('edit', 'a', 'bad'), ('edit', 'b', 'bad'), ('edit', 'a', 'ok'), ('edit', 'b', 'ok'),
             ('edit', 'a', 'odd'), ('rm', 'a'))


class FailingKinds(Fixed):
    """Errors of every kind, after calls that finished."""
    name = 'failing-kinds'
    depth = 3
    files0 = {'a': 'ok', 'b': 'ok'}
    kinds = ('KeyError', 'IndexError', 'OSError', 'FileNotFoundError', 'PermissionError', 'AssertionError', 'ImportError', 'AttributeError',
             'TypeError', 'ValueError', 'RuntimeError', 'RecursionError', 'StopIteration', 'MemoryError', 'EOFError', 'ZeroDivisionError',
             'SyntaxError', 'NotImplementedError', 'UserWarning', 'Own')
    body = '''
import builtins

class Own(Exception):
    def __init__(self, one, *, two):
        super().__init__(one)
        self.two = two

@caches
def g(ctx, src:SRC):
    T.run('g', src)
    return ('g', T.read(src))

@caches
def bad(ctx, src:SRC):
    T.run('bad', src)
    text = T.read(src)
    if text == 'Own':
        raise Own('own', two=2)
    if text != 'ok':
        raise getattr(builtins, text)('no')
    return text

@caches
def f(ctx, src:SRC):
    T.run('f', src)
    return ('f', g(ctx, 'a'), bad(ctx, src))

@caches
def h(ctx, src:SRC):
    T.run('h', src)
    try:
        return ('h', f(ctx, src))
    except Exception as e:
        return ('h', type(e).__name__, str(e), getattr(e, 'two', None))
'''
    plans = (
        [C("g(ctx,'b')"), C("f(ctx,'b')")],
        [C("h(ctx,'b')"), CC("bad(ctx,'b')"), C("g(ctx,'a')")],
    )
    edits = (('none',), ('edit', 'b', 'ok')) + tuple(('edit', 'b', k) for k in kinds)


class FailingOutputs(Fixed):
    """Functions that fail after they have written an output."""
    name = 'failing-after-writing'
    depth = 3
    files0 = {'a': 'ok'}
    body = '''
@caches
def g(ctx, src:SRC):
    T.run('g', src)
    return ('g', T.read(src))

@caches
def w(ctx, src:SRC, dst:DST, opt=1):
    T.run('w', src, dst, opt)
    T.write(dst, 'w%s' % opt + T.read(src))
    if T.read(src) == 'bad' or opt == 'bad':
        raise T.Error('bad')
    return 'done'

@caches
def x(ctx, src:SRC, opt):
    T.run('x', src, opt)
    T.ext(ctx, dsts=['build/x'])
    T.write('build/x', 'x%s' % opt + T.read(src))
    if T.read(src) == 'bad' or opt == 'bad':
        raise T.Error('bad')
    return opt

@caches
def outer(ctx, src, opt):
    T.run('outer', src, opt)
    return x(ctx, src, opt)

@caches
def both(ctx, src):
    T.run('both', src)
    try:
        w(ctx, src, 'build/b', 'bad')
    except T.Error as e:
        return (w(ctx, src, 'build/b', 1), str(e))

@caches
def cat(ctx, srcs:SRCS):
    T.run('cat', srcs)
    return '+'.join(T.read(s) for s in srcs)
'''
    plans = (
        [CC("g(ctx,'a')"), CC("w(ctx,'a','build/o')"), CC("cat(ctx,['build/o'])")],
        [CC("w(ctx,'a','build/o','bad')"), CC("w(ctx,'a','build/o2')")],
        [CC("g(ctx,'a')"), CC("outer(ctx,'a',1)"), CC("cat(ctx,['build/x'])")],
        [CC("x(ctx,'a','bad')"), CC("x(ctx,'a',2)")],
        [CC("both(ctx,'a')"), CC("cat(ctx,['build/b'])")],
    )
    edits = (('none',), ('edit', 'a', 'bad'), ('edit', 'a', 'ok'))


class FailingCode(Versions):
    """Functions whose code fails in some versions."""
    name = 'failing-code'
    vers = {'g': 0, 'f': 0}
    depth = 4
    body = '''
@caches
def g(ctx, x):
    T.run('g', x)
    if <g> % 2 and x != 'never':
        raise T.Error('g<g>')
    return ('g', <g>)

@caches
def f(ctx, x):
    T.run('f', x)
    return ('f', <f>, g(ctx, x))
'''
    plans = (
        [C("f(ctx,1)")],
        [CC("f(ctx,1)"), CC("g(ctx,2)")],
        [CC("g(ctx,1)"), CC("f(ctx,2)"), C("g(ctx,'never')")],
    )
    bumps = (('g',), ('f',))


# -- C08 ------------------------------------------------------------------------

class Maintenance(Versions):
    """--delete-function, --delete-file, --rebuild, --do-not-save-database, --clean."""
    name = 'maintenance-options'
    depth = 4
    vers = {'f': 0, 'g': 0}
    files0 = {'a': 'A0', 'b': 'B0', 'h': 'H0'}
    body = '''
@caches
def g(ctx, src:SRC):
    T.run('g', src)
    return ('g', <g>, T.read(src))

@caches
def f(ctx, src:SRC):
    T.run('f', src)
    return ('f', <f>, g(ctx, src))

@caches
def e(ctx, src):
    T.run('e', src)
    return ('e', f(ctx, src))

@caches
def x(ctx, src:SRC):
    T.run('x', src)
    T.write('build/x', 'x')
    T.ext(ctx, srcs=['h'], dsts=['build/x'])
    return ('x', T.read(src), T.read('h'))
'''
    plan = [C("e(ctx,'a')"), C("g(ctx,'b')"), C("x(ctx,'b')")]
    changes = (
        dict(edit=('none',)), dict(edit=('edit', 'a', 'A1')), dict(edit=('edit', 'h', 'H1')), dict(bump='g'),
    )
    options = (
        ['--delete-function', 'fbuildroot.f'], ['--delete-function', 'fbuildroot.g'], ['--delete-function', 'fbuildroot.no'],
        ['--delete-file', 'a'], ['--delete-file', 'h'], ['--delete-file', 'nowhere'], ['--rebuild'], ['--configure'],
        ['--do-not-save-database'], ['--clean'],
    )

    def first_steps(self):
        v = dict(self.vers)
        return [dict(script=v, plan=self.plan), dict(script=v, plan=[], argv=['--clean']),
                dict(script=v, plan=[], argv=['--delete-function', 'fbuildroot.f']),
                dict(script=v, plan=self.plan, argv=['--do-not-save-database']),
                dict(script=v, plan=self.plan, argv=['--rebuild'])]

    def next_steps(self, history):
        v = history[-1]['script']
        out = []
        for c in self.changes:
            nv = dict(v)
            if 'bump' in c:
                nv[c['bump']] += 1
            out.append(dict(script=nv, plan=self.plan, edit=c.get('edit')))
            out.append(dict(script=nv, plan=self.plan, edit=c.get('edit'), argv=['--do-not-save-database']))
        for o in self.options:
            build = o[0] in ('--rebuild', '--configure', '--do-not-save-database')
            out.append(dict(script=v, plan=self.plan if build else [], argv=o))
        return out

    def judge(self, model, step, texts, res, wd):
        import os
        argv = step.get('argv') or ['']
        if argv[0] == '--clean':
            if res['status'][0] != 'ok' or res['events']:
                raise Mismatch('clean', '--clean ended with %r' % (res['status'],))
            if os.path.exists(os.path.join(wd, 'build')):
                raise Mismatch('clean', '--clean left the build directory')
            for p in [p for p in model.files if p.startswith('build/')]:
                del model.files[p]
            model.wipe()
            model.stores.clear()
        elif argv[0] in ('--delete-function', '--delete-file'):
            if res['events']:
                raise Mismatch('ran', '%s ran the build' % argv[0])
            known = self.known(model, argv)
            ok = res['status'][0] == 'ok' and res['status'][1] in (0, None)
            if not ok and list(res['status']) != ['exit', 1]:
                raise Mismatch('status', '%s ended with %r' % (argv, res['status']))
            if known is not None and ok != known:
                raise Mismatch('status', '%s %s: %r' % (argv, 'did not find it' if known else 'found it', res['status']))
            if argv[0] == '--delete-function':
                model.delete_function(argv[1])
            else:
                model.delete_file(argv[1])
        else:
            if argv[0] in ('--rebuild', '--configure'):
                model.wipe()
            before = model.clone() if argv[0] == '--do-not-save-database' else None
            model.build(texts, step['plan'], res)
            if before is not None:
                # the results are not stored, but what the build wrote is there
                before.files = model.files
                # the old results may be checked against the new state of things
                for rs in before.recs.values():
                    for r in rs:
                        if before.stale(r):
                            r.tainted = True
                model.recs, model.fgraph, model.digests, model.failed = \
                    before.recs, before.fgraph, before.digests, before.failed
        # nothing but the build directory may change
        for p, text in model.files.items():
            if not p.startswith('build/'):
                with open(os.path.join(wd, p)) as f:
                    if f.read() != text:
                        raise Mismatch('damage', '%s changed' % p)

    def known(self, model, argv):
        """Whether the database has it: True, False, or None if it is free to."""
        what = argv[1]
        if argv[0] == '--delete-function':
            rs = model.recs.get(what, ())
            if not rs:
                return False
            return True if any(not r.tainted for r in rs) else None
        using = [r for rs in model.recs.values() for r in rs if what in r.srcs or what in r.ext]
        if any(not r.tainted for r in using):
            return True
        return None if what in model.files else False
