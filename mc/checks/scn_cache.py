"""Scenarios for the cache properties (C01-C05, C07, C08)."""
import itertools

from ..hist import Scenario

HEAD = '''
import T
from T import caches, SRC, SRCS, DST, DSTS, OPTIONAL_SRC, OPTIONAL_DST
'''
TAIL = '''
def build(ctx):
    T.drive(ctx, globals())
'''


class Fixed(Scenario):
    """One unchanging script; steps = edits x plans."""
    body = ''
    plans = ()
    edits = (('none',),)

    def texts(self, step):
        return {'fbuildroot': HEAD + self.body + TAIL}

    def first_steps(self):
        return [dict(plan=p) for p in self.plans]

    def next_steps(self, history):
        return [dict(edit=e, plan=p) for e in self.edits for p in self.plans]


def C(x): return ('call', x)
def F(x): return ('full', x)
def CC(x): return ('call', x, 'catch')


class Shared(Fixed):
    """Calls of several functions sharing source files."""
    name = 'shared-sources'
    files0 = {'a': 'A0', 'b': 'B0'}
    far = ('b',)
    body = '''
@caches
def f(ctx, src:SRC, k=0):
    T.run('f', src, k)
    return ('f', k, T.read(src))

@caches
def g(ctx, srcs:SRCS, tag='t'):
    T.run('g', srcs, tag)
    return ['g', tag] + [T.read(s) for s in srcs]

@caches
def o(ctx, src:OPTIONAL_SRC=None):
    T.run('o', src)
    return None if src is None else T.read(src)
'''
    plans = (
        [CC("f(ctx,'a')"), CC("f(ctx,'b')"), CC("o(ctx)")],
        [CC("f(ctx,'a')"), CC("g(ctx,['a','b'])"), CC("f(ctx,'a')")],
        [CC("g(ctx,['a','b'])"), CC("f(ctx,'b',1)")],
        [CC("o(ctx,'a')"), CC("f(ctx,'a',k=1)"), CC("g(ctx,['b'],tag='u')")],
    )
    edits = (('none',), ('edit', 'a', 'A1'), ('edit_back', 'a', 'A0'), ('touch', 'a'), ('edit_frac', 'a', 'A2'),
             ('edit_same', 'b', 'B1'), ('edit', 'b', 'B0'), ('rm', 'a'))


class Outputs(Fixed):
    """Declared and returned outputs, and a call that reads another's output."""
    name = 'outputs'
    files0 = {'a': 'A0'}
    body = '''
@caches
def w(ctx, src:SRC, dst:DST):
    T.run('w', src, dst)
    T.write(dst, 'w' + T.read(src))
    return 'done'

@caches
def r(ctx, src:SRC, name) -> DST:
    T.run('r', src, name)
    T.write(name, 'r' + T.read(src))
    return name

@caches
def rs(ctx, src:SRC, dsts:DSTS=('build/p', 'build/q')) -> DSTS:
    T.run('rs', src, dsts)
    out = list(dsts) + ['build/s']
    for d in out:
        T.write(d, d + T.read(src))
    return out

@caches
def od(ctx, dst:OPTIONAL_DST=None):
    T.run('od', dst)
    if dst is not None:
        T.write(dst, 'od')
    return 'od'

@caches
def cat(ctx, srcs:SRCS):
    T.run('cat', srcs)
    return '+'.join(T.read(s) for s in srcs)
'''
    plans = (
        [C("w(ctx,'a','build/o')"), C("cat(ctx,['build/o'])")],
        [C("r(ctx,'a','build/o')"), C("cat(ctx,[r(ctx,'a','build/r'),'a'])")],
        [C("rs(ctx,'a')"), C("od(ctx,'build/d')"), C("od(ctx)")],
        [C("w(ctx,'a','build/o')"), C("w(ctx,'a','build/o2')"), C("cat(ctx,rs(ctx,'a'))")],
    )
    edits = (('none',), ('edit', 'a', 'A1'), ('edit', 'a', 'A0'),
             ('rm', 'build/o'), ('rm', 'build/q'),
             ('multi', [('rm', 'build/s'), ('rm', 'build/d'), ('rm', 'build/r')]))


class Overwritten(Fixed):
    """Calls of one function with different arguments that write the same file."""
    name = 'overwritten-outputs'
    files0 = {'a': 'A0'}
    body = '''
@caches
def w(ctx, src:SRC, dst:DST, opt=1):
    T.run('w', src, dst, opt)
    T.write(dst, 'w%s' % opt + T.read(src))
    return 'done'

@caches
def r(ctx, name, opt) -> DST:
    T.run('r', name, opt)
    T.write(name, 'r%s' % opt)
    return name

@caches
def x(ctx, opt):
    T.run('x', opt)
    T.ext(ctx, dsts=['build/x'])
    T.write('build/x', 'x%s' % opt)
    return opt

@caches
def outer(ctx, name, opt, tag) -> DST:
    T.run('outer', name, opt, tag)
    return r(ctx, name, opt)

@caches
def group(ctx, opt, names) -> DSTS:
    T.run('group', opt, names)
    return [r(ctx, n, opt) for n in names]

@caches
def objects(ctx, opt, names):
    T.run('objects', opt, names)
    T.ext(ctx, dsts=names)
    return [r(ctx, n, opt) for n in names]

@caches
def cat(ctx, srcs:SRCS):
    T.run('cat', srcs)
    return '+'.join(T.read(s) for s in srcs)
'''
    plans = (
        [C("objects(ctx,1,['build/p','build/s'])"), C("cat(ctx,['build/s'])")],
        [C("cat(ctx,objects(ctx,2,['build/s']))")],
        [C("w(ctx,'a','build/o')"), C("cat(ctx,['build/o', r(ctx,'build/r',1)])")],
        [C("w(ctx,'a','build/o',2)"), C("w(ctx,'a','build/o2',1)"), C("cat(ctx,['build/o', outer(ctx,'build/r',2,'t')])")],
        [C("x(ctx,1)"), C("cat(ctx,['build/x'])"), C("group(ctx,1,['build/p','build/q'])"), C("group(ctx,1,['build/q'])")],
        [C("x(ctx,2)"), C("cat(ctx,['build/x'])"), C("cat(ctx,group(ctx,2,['build/q','build/r']))")],
        [C("r(ctx,'build/r',1)"), C("cat(ctx,['build/r'])"), C("r(ctx,'build/r',2)"), C("cat(ctx,['build/r'])")],
    )
    edits = (('none',), ('edit', 'a', 'A1'), ('rm', 'build/r'))


class Directories(Fixed):
    """Outputs that are directories, declared, returned or registered."""
    name = 'directories-as-outputs'
    files0 = {'a': 'A0'}
    body = '''
@caches
def w(ctx, src:SRC, dst:DST):
    T.run('w', src, dst)
    T.mkdir(dst)
    T.write(dst + '/in', 'w' + T.read(src))
    return 'done'

@caches
def r(ctx, names) -> DSTS:
    T.run('r', names)
    for n in names:
        T.mkdir(n)
    return names

@caches
def x(ctx, name):
    T.run('x', name)
    T.mkdir(name)
    T.ext(ctx, dsts=[name])
    return name

@caches
def outer(ctx, name):
    T.run('outer', name)
    return x(ctx, name)
'''
    plans = (
        [C("w(ctx,'a','build/o')"), C("r(ctx,['build/p','build/q/s'])")],
        [C("outer(ctx,'build/x')"), C("w(ctx,'a','build/o')"), C("x(ctx,'build/x')")],
    )
    edits = (('none',), ('edit', 'a', 'A1'), ('rm', 'build/o'), ('rm', 'build/q'), ('rm', 'build/x'))


class Single(Fixed):
    """One call, with contents and results of the same size."""
    name = 'same-size'
    files0 = {'a': 'A0'}
    depth = 4
    body = '''
@caches
def f(ctx, src:SRC):
    T.run('f', src)
    return T.read(src)
'''
    plans = ([C("f(ctx,'a')")],)
    edits = (('none',), ('edit', 'a', 'A0'), ('edit', 'a', 'A1'), ('edit', 'a', 'B0'), ('edit_back', 'a', 'A1'))


class Unrelated(Fixed):
    """Touches and changes of things a call does not depend on."""
    name = 'unrelated-changes'
    files0 = {'a': 'A0', 'b': 'B0', 'c': 'C0'}
    body = '''
@caches
def f(ctx, src:SRC, k=0):
    T.run('f', src, k)
    return ('f', k, T.read(src))

@caches
def w(ctx, dst:DST, *srcs):
    T.run('w', dst, srcs)
    T.write(dst, 'w')
    return srcs

@caches
def n(ctx, **opts):
    T.run('n', opts)
    return sorted(opts.items())
'''
    plans = (
        [C("f(ctx,'a')"), C("f(ctx,'b')"), C("w(ctx,'build/o',1)")],
        [C("f(ctx,'b')"), C("f(ctx,'b',2)"), C("n(ctx,x=1,y=2)"), C("n(ctx,y=2,x=1)")],
        [C("w(ctx,'build/o',2)"), C("w(ctx,'build/o',1)"), C("n(ctx)"), C("f(ctx,'c')")],
    )
    edits = (('none',), ('touch', 'a'), ('multi', [('touch', 'a'), ('touch', 'b')]), ('edit', 'a', 'A1'),
             ('edit', 'b', 'B1'), ('multi', [('edit', 'a', 'A2'), ('edit', 'c', 'C1')]), ('edit_back', 'c', 'C0'),
             ('rm', 'build/o'))


# --------------------------------------------------------------------------
# function code

class CallGraph(Scenario):
    """f, g, h with a given call graph, versions edited between builds."""
    depth = 3
    files0 = {'a': 'A0'}
    edges = ()
    orders = (('f',), ('g', 'f'), ('h', 'f'), ('h', 'g', 'f'), ('f', 'h'), ('g', 'h'))

    def __init__(self, edges, orders=None, last=None):
        self.edges = tuple(edges)
        self.name = 'callgraph-' + ('_'.join(a + b for a, b in edges) or 'none')
        if orders:
            self.orders = orders
        self.last = last

    def texts(self, step):
        v = step['script']
        out = HEAD
        for n in 'hgf':
            calls = ['%s(ctx)' % b for a, b in self.edges if a == n]
            out += '\n@caches\ndef %s(ctx):\n    T.run(%r)\n    return (%r, %d%s)\n' % (
                n, n, n, v[n], ''.join(', ' + c for c in calls))
        return {'fbuildroot': out + TAIL}

    def plan(self, order):
        return [C('%s(ctx)' % n) for n in order]

    def first_steps(self):
        return [dict(script={'f': 0, 'g': 0, 'h': 0}, plan=self.plan(o)) for o in self.orders]

    def next_steps(self, history):
        v = history[-1]['script']
        out = []
        for ch in ((), ('f',), ('g',), ('h',)):
            nv = {n: v[n] + (n in ch) for n in v}
            for o in self.orders:
                out.append(dict(script=nv, plan=self.plan(o)))
        return out


def callgraphs():
    poss = [('f', 'g'), ('f', 'h'), ('g', 'h')]
    for r in range(4):
        for es in itertools.combinations(poss, r):
            yield es


class Versions(Scenario):
    """A hand written script with version numbers to bump."""
    vers = {}
    body = ''
    plans = ()
    bumps = ()          # tuples of names bumped together
    edits = (('none',),)

    def script_text(self, v):
        text = self.body
        for k, n in v.items():
            text = text.replace('<%s>' % k, str(n))
        return text

    def texts(self, step):
        return {'fbuildroot': HEAD + self.script_text(step['script']) + TAIL}

    def first_steps(self):
        return [dict(script=dict(self.vers), plan=p) for p in self.plans]

    def next_steps(self, history):
        v = history[-1]['script']
        out = []
        for e in self.edits:
            for b in ((),) + tuple(self.bumps):
                nv = {n: v[n] + (n in b) for n in v}
                for p in self.plans:
                    out.append(dict(script=nv, plan=p, edit=e))
        return out


class ConditionalCalls(Versions):
    """Which functions are called depends on the arguments."""
    name = 'conditional-calls'
    vers = {'g': 0, 'h': 0, 'f': 0}
    body = '''
@caches
def h(ctx):
    T.run('h')
    return ('h', <h>)

@caches
def g(ctx):
    T.run('g')
    return ('g', <g>)

@caches
def f(ctx, which):
    T.run('f', which)
    return ('f', <f>) + tuple(globals()[n](ctx) for n in which)
'''
    plans = (
        [C("f(ctx,'')"), C("f(ctx,'g')")],
        [C("f(ctx,'g')"), C("f(ctx,'h')")],
        [C("f(ctx,'h')"), C("f(ctx,'')")],
        [C("g(ctx)"), C("f(ctx,'gh')"), C("f(ctx,'g')")],
    )
    bumps = (('g',), ('h',), ('f',))


class SourceAndCode(Versions):
    """Dependencies first reached when a source file changes."""
    name = 'source-picks-callee'
    vers = {'g': 0, 'h': 0}
    files0 = {'a': 'g'}
    body = '''
@caches
def h(ctx):
    T.run('h')
    return ('h', <h>)

@caches
def g(ctx):
    T.run('g')
    return ('g', <g>)

@caches
def f(ctx, src:SRC):
    T.run('f', src)
    return ('f',) + tuple(globals()[n](ctx) for n in T.read(src))
'''
    plans = ([C("f(ctx,'a')")], [C("h(ctx)"), C("f(ctx,'a')")])
    bumps = (('g',), ('h',))
    edits = (('none',), ('edit', 'a', 'h'), ('edit', 'a', 'g'), ('edit', 'a', ''))


class Recursion(Versions):
    name = 'recursion'
    vers = {'f': 0, 'p': 0, 'q': 0}
    body = '''
@caches
def f(ctx, n):
    T.run('f', n)
    return ('f', <f>, n) + (f(ctx, n - 1) if n else ())

@caches
def p(ctx, n):
    T.run('p', n)
    return ('p', <p>, n) + (q(ctx, n - 1) if n else ())

@caches
def q(ctx, n):
    T.run('q', n)
    return ('q', <q>, n) + (p(ctx, n - 1) if n else ())
'''
    plans = (
        [C("f(ctx,2)"), C("p(ctx,2)")],
        [C("f(ctx,1)"), C("f(ctx,2)"), C("q(ctx,1)")],
        [C("p(ctx,3)"), C("q(ctx,2)"), C("f(ctx,0)")],
    )
    bumps = (('f',), ('p',), ('q',))


class CaughtErrors(Versions):
    """A caller handles the failure of a cached function."""
    name = 'handled-failures'
    vers = {'g': 0, 'h': 0, 'f': 0}
    files0 = {'a': 'ok'}
    body = '''
@caches
def h(ctx):
    T.run('h')
    return ('h', <h>)

@caches
def g(ctx, src:SRC):
    T.run('g', src)
    v = ('g', <g>, h(ctx))
    if T.read(src) != 'ok':
        raise T.Error('bad')
    return v

@caches
def f(ctx, src:SRC):
    T.run('f', src)
    try:
        v = g(ctx, src)
    except T.Error as e:
        v = str(e)
    return ('f', <f>, v, h(ctx))

@caches
def k(ctx, src:SRC):
    T.run('k', src)
    return ('k', f(ctx, src))
'''
    plans = (
        [C("f(ctx,'a')")],
        [C("k(ctx,'a')"), CC("g(ctx,'a')")],
        [CC("g(ctx,'a')"), C("h(ctx)"), C("f(ctx,'a')")],
    )
    bumps = (('g',), ('h',), ('f',))
    edits = (('none',), ('edit', 'a', 'bad'), ('edit', 'a', 'ok'))


class OtherModule(Scenario):
    """A helper in another module, imported early, late, or not at all any more."""
    name = 'other-module'
    depth = 3

    def texts(self, step):
        v = step['script']
        mods = {}
        mods['mchelper'] = HEAD + '''
@caches
def help(ctx):
    T.run('help')
    return ('help', %d)
''' % v['help']
        imp = {'early': ('import mchelper\n', ''), 'late': ('', '    import mchelper\n'), 'gone': ('', '')}[v['how']]
        call = 'None' if v['how'] == 'gone' else 'mchelper.help(ctx)'
        mods['fbuildroot'] = HEAD + imp[0] + '''
@caches
def f(ctx):
    T.run('f')
%s    return ('f', %d, %s)

@caches
def k(ctx):
    T.run('k')
    return ('k', f(ctx))
''' % (imp[1], v['f'], call) + TAIL
        return mods

    plans = ([C('f(ctx)')], [C('k(ctx)'), C('f(ctx)')])

    def first_steps(self):
        return [dict(script={'f': 0, 'help': 0, 'how': how}, plan=p)
                for how in ('early', 'late') for p in self.plans]

    def next_steps(self, history):
        v = history[-1]['script']
        out = []
        for nv in (v, dict(v, help=v['help'] + 1), dict(v, f=v['f'] + 1), dict(v, how='gone'), dict(v, how='early')):
            for p in self.plans:
                out.append(dict(script=nv, plan=p))
        return out


# --------------------------------------------------------------------------
# registered dependencies

class External(Fixed):
    """Sources list the files they include; the includes are registered."""
    name = 'registered-files'
    files0 = {'a': 'h1', 'b': 'h1 h2', 'h1': 'H1', 'h2': 'H2'}
    body = '''
@caches
def x(ctx, src:SRC, both=False):
    T.run('x', src, both)
    hs = [h for h in T.read(src).split() if T.exists(h)]
    T.ext(ctx, srcs=hs + ([src] if both else []))
    return (src, [T.read(h) for h in hs])

@caches
def y(ctx, k, out):
    T.run('y', k, out)
    T.write(out, 'y')
    T.ext(ctx, srcs=['h1'], dsts=[out])
    return (k, T.read('h1'))
'''
    plans = (
        [F("x.call(ctx,'a')"), F("x.call(ctx,'b')")],
        [F("x.call(ctx,'b',True)"), F("y.call(ctx,1,'build/o')")],
        [F("y.call(ctx,1,'build/o')"), F("y.call(ctx,2,'build/o2')"), F("x.call(ctx,'a')")],
    )
    edits = (('none',), ('edit', 'h1', 'H1b'), ('edit', 'h2', 'H2b'), ('touch', 'h1'),
             ('edit', 'a', 'h2'), ('edit', 'b', 'h1'), ('rm', 'h2'), ('rm', 'build/o'))


class NestedExternal(Fixed):
    """Registrations made by an inner cached call."""
    name = 'nested-registered-files'
    files0 = {'a': 'h1', 'h1': 'H1', 'h2': 'H2'}
    body = '''
@caches
def inner(ctx, src:SRC):
    T.run('inner', src)
    hs = T.read(src).split()
    T.write('build/i', 'i')
    T.ext(ctx, srcs=hs, dsts=['build/i'])
    return [T.read(h) for h in hs]

@caches
def outer(ctx, src:SRC, top:SRC='h2'):
    T.run('outer', src, top)
    return ('outer', T.read(top), inner(ctx, src))

@caches
def outest(ctx, src:SRC):
    T.run('outest', src)
    T.ext(ctx, srcs=['h2'])
    return ('outest', outer(ctx, src))
'''
    plans = (
        [F("outer.call(ctx,'a')")],
        [F("inner.call(ctx,'a')"), F("outer.call(ctx,'a')")],
        [F("outest.call(ctx,'a')"), F("inner.call(ctx,'a')")],
    )
    edits = (('none',), ('edit', 'h1', 'H1b'), ('edit', 'h2', 'H2b'), ('edit', 'a', 'h1 h2'), ('edit', 'a', 'h2'),
             ('rm', 'build/i'))


# --------------------------------------------------------------------------
# what may change in a file, and in a function

BIG = 'x' * 70000
HUGE = 'y' * 200000

class Contents(Fixed):
    """All pairs of contents that are easy to take for one another."""
    name = 'contents'
    texts_ = ('', 'a', 'A', 'a\n', '\na', 'a ', 'aa', 'a\0', 'b', 'ab\ncd\n', 'cd\nab\n', 'ab\n\ncd\n', 'ab\r\ncd\n',
              BIG + 'a', BIG + 'b', 'a' + BIG, BIG, BIG + 'aa', HUGE + 'a' + HUGE, HUGE + 'b' + HUGE, 'b' + HUGE + HUGE)
    body = '''
@caches
def f(ctx, *srcs:SRCS, last:OPTIONAL_SRC=None):
    T.run('f', srcs, last)
    return [(len(t), sum(i * ord(c) for i, c in enumerate(t)))
            for t in [T.read(s) for s in srcs] + ([T.read(last)] if last else [])]
'''
    depth = 2
    files0 = {'sub/dir/a': '', 'a': 'same'}

    def __init__(self, way, depth=2):
        self.depth = depth
        self.way = way
        self.name = 'contents-' + way
        self.far = ('sub/dir/a',) if way == 'edit_same' else ()
        self.edits = [(way, 'sub/dir/a', t) for t in self.texts_]

    plans = ([C("f(ctx,'a','sub/dir/a')"), C("f(ctx,last='sub/dir/a')"), C("f(ctx,'a')")],)

    def first_steps(self):
        return self.next_steps([])


class CodeEdits(Scenario):
    """All pairs of versions of a function that are easy to take for one another."""
    name = 'code-edits'
    depth = 2
    bodies = (
        # parameters, body
        ('n=2', 't = 0\nfor i in range(3):\n    t += 1\nt += n\nreturn t'),
        ('n=2', 't = 0\nfor i in range(3):\n    t += 1\n    t += n\nreturn t'),
        ('n=2', 't = 0\nfor i in range(3):\n    t += 1\nt += n\nreturn +t + 0.5'),
        ('n=3', 't = 0\nfor i in range(3):\n    t += 1\nt += n\nreturn t'),
        ('n=2', 't = 0\nfor i in range(3):\n    t += 1\nt += n\n\nreturn -t'),
        ('n=2', 't = "a b"\nreturn t'),
        ('n=2', 't = "a  b"\nreturn t'),
        ('n=2', 't = "a B"\nreturn t'),
        ('n=2', "t = 'a # b'\nreturn t"),
        ('n=2', "t = 'a # c'\nreturn t"),
        ('n=2', 't = """\n  a\n"""\nreturn t'),
        ('n=2', 't = """\n    a\n"""\nreturn t'),
        ('n=2', 't = 1\n# done\nreturn t'),
        ('n=2', 't = 1\n# done\n\n\n# really\nt = 2\nreturn t'),
        ('n=2', 'def u():\n    return 1\nreturn u()'),
        ('n=2', 'def u():\n    return 2\nreturn u()'),
        ('n=2', 'u = lambda: 1\nreturn u()'),
        ('n=2', 'u = lambda: 2\nreturn u()'),
        ('n=2', 'return (1,\n    2)'),
        ('n=2', 'return (1,\n    3)'),
        ('n=2', 'return "\\\n# x"'),
        ('n=2', 'return "\\\n# y"'),
        ('n=2', 'return g(ctx)'),
        ('n=2', 'return (g(ctx), h(ctx))'),
        ('n=2', 'return h(ctx)'),
    ) + tuple(('n=2', '\n'.join('t%d = %d' % (i, i) for i in range(200)) + '\nreturn %s' % r) for r in ('t1', 't2'))

    def texts(self, step):
        params, body = self.bodies[step['script']]
        return {'fbuildroot': HEAD + '''
@caches
def h(ctx):
    T.run('h')
    return 'h'

@caches
def g(ctx):
    T.run('g')
    return ('g', h(ctx))

@caches
def f(ctx, %s):
    T.run('f', n)
    %s

@caches
def k(ctx):
    T.run('k')
    return ['k', f(ctx)]
''' % (params, body.replace('\n', '\n    ')) + TAIL}

    def first_steps(self):
        return [dict(script=i, plan=[C('k(ctx)'), C('f(ctx)'), C('g(ctx)')]) for i in range(len(self.bodies))]

    def next_steps(self, history):
        out = []
        for i in range(len(self.bodies)):
            out.append(dict(script=i, plan=[C('k(ctx)')]))
        return out
