"""C10: persistent objects, cached methods and properties, against the ideal cache."""
import itertools

from .. import hist, util
from ..hist import Scenario
from .cache import ASSUME
from .scn_cache import C, CC, F, TAIL

HEAD = '''
import T
from T import caches, cachemethod, cacheproperty, PersistentObject, SRC, SRCS, DST, DSTS, OPTIONAL_SRC
'''

BASE = '''
class Base(PersistentObject):
    def __init__(self, ctx, a, b=0, *, k=None):
        T.run(type(self).__name__, a, b, k)@I@
        super().__init__(ctx)
        self.a = a
        self.bs = [b, k]
        self._own = [type(self).__name__]
        self.__x = self._own * 2

    @cachemethod
    def m(self, x=0, *y):
        T.run('m', self, x, y)@M@
        return ['m', self.a, self.bs, self._own, self.__x, x, y]

    @cachemethod
    def same(self, x=0):
        T.run('same', self, x)
        return ['same', type(self).__name__, x]

    @cacheproperty
    def p(self):
        T.run('p', self)@P@
        return {'p': self.a}
'''

SUB = '''
class Sub(Base):
    def extra(self):
        return 'extra'

    @cachemethod
    def same(self, x=0):
        T.run('same', self, x)
        return ['sub', x]

class Own(Base):
    def __init__(self, ctx, a):
        T.run('Own', a)@OI@
        PersistentObject.__init__(self, ctx)
        self.a = a
        self.bs = [0, None]
        self._own = 'own'
        self._Base__x = Base(ctx, a, 'private')
        self.own = Base(ctx, a, 'inner')
'''

OTHER = '''
class Other(PersistentObject):
    def __init__(self, ctx, a, b=0, *, k=None):
        T.run('Other', a, b, k)
        self.ctx = ctx
        self.a = a
        self.bs = [b, k]

    @cachemethod
    def m(self, x=0, *y):
        T.run('m', self, x, y)
        return ['other', x, y]

    @cacheproperty
    def p(self):
        T.run('p', self)
        return 'other'
'''

FUNCS = '''
class Holder(PersistentObject):
    def __init__(self, ctx, *objs):
        T.run('Holder', objs)
        super().__init__(ctx)
        self.objs = list(objs)
        self.n = len(objs)

    @cachemethod
    def all(self, x):
        T.run('all', self, x)
        return [o.m(x) for o in self.objs]

@caches
def make(ctx, a):
    T.run('make', a)
    return Base(ctx, a)

@caches
def use(ctx, o, x=0):
    T.run('use', o, x)
    return [o.m(x), o.p]

@caches
def wrap(ctx, *objs):
    T.run('wrap', objs)
    return {'objs': objs, 'n': len(objs)}

def changed(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o

def twice(o):
    return [o, o]
'''


class Objects(Scenario):
    """Objects that differ in class, state or only in how they were made."""
    name = 'objects'
    engines = ('pickle', 'sqlite', 'cache')
    depth = 2
    body = HEAD + BASE.replace('@I@', '').replace('@M@', '').replace('@P@', '') + SUB.replace('@OI@', '') + OTHER + FUNCS + TAIL
    objs = ['Base(ctx, 1)', 'Base(ctx, b=0, a=1)', 'Base(ctx, 1, k=[])', 'Base(ctx, 2)', 'Sub(ctx, 1)', 'Own(ctx, 1)', 'Other(ctx, 1)',
            "Base(ctx, '1')", 'make(ctx, 1)', 'changed(Base(ctx, 1), a=2)', 'changed(Base(ctx, 1), z=1)',
            'changed(Base(ctx, 2), a=1)', 'Base(ctx, (1,))', 'Base(ctx, [1])', 'changed(Sub(ctx, 2), a=1)', 'Base(ctx, Other(ctx, 1))',
            'Base(ctx, Base(ctx, 1))', 'changed(Base(ctx, 3), a=1, bs=[0, None])']
    uses = ['%s', '%s.m(5)', '%s.m.call(5, 6)', '%s.p', 'use(ctx, %s)', 'Holder(ctx, %s).all(1)', '%s.same(x=2)', 'wrap(ctx, %s)']

    def texts(self, step):
        return {'fbuildroot': self.body}

    def plan(self, pairs):
        return [C(u % o) for o, u in pairs]

    def first_steps(self):
        objs = self.objs
        uses = [u for u in self.uses]
        out = []
        # every use of every object after every use of every other: the pairs
        # occur in one order or in both builds
        for i, u in enumerate(uses):
            us = [(o, u) for o in objs if not ('same' in u and 'Other(ctx, 1)' == o)]
            out += [us, us[::-1]]
        for o in objs:
            us = [(o, u) for u in uses if not ('same' in u and 'Other(ctx, 1)' == o)]
            out += [us, us[::-1]]
        return [dict(plan=self.plan(p)) for p in out]

    def next_steps(self, history):
        return self.first_steps()[:2 * len(self.uses):2] + self.first_steps()[2 * len(self.uses)::6]


class Aliases(Scenario):
    """The same state with shared and with equal parts."""
    name = 'aliases'
    engines = ('pickle', 'sqlite', 'cache')
    depth = 3
    body = Objects.body
    calls = ['wrap(ctx, *twice(Base(ctx, 1)))', 'wrap(ctx, Base(ctx, 1), Base(ctx, 1))', 'Holder(ctx, *twice(Base(ctx, 1)))',
             'Holder(ctx, Base(ctx, 1), make(ctx, 1)).all(2)', 'Holder(ctx, Base(ctx, 1), Sub(ctx, 1)).all(2)',
             'Holder(ctx, *twice(Base(ctx, 1))).all(2)', 'Holder(ctx, Holder(ctx, Base(ctx, 1)), Base(ctx, 1)).n',
             'Holder(ctx, Base(ctx, 1), Holder(ctx, Base(ctx, 1))).n', 'wrap(ctx, Holder(ctx, Base(ctx, 1)), Base(ctx, 1))']

    def texts(self, step):
        return {'fbuildroot': self.body}

    def first_steps(self):
        return [dict(plan=[C(a), C(b)]) for a, b in itertools.permutations(self.calls, 2)]

    def next_steps(self, history):
        return [dict(plan=[C(c) for c in self.calls])]


class Sources(Scenario):
    """Constructors and methods with declared and registered files."""
    name = 'object-files'
    engines = ('pickle', 'sqlite')
    depth = 3
    files0 = {'a': 'A0', 'b': 'B0', 'h': 'H0'}
    body = HEAD + '''
class Src(PersistentObject):
    def __init__(self, ctx, src:SRC, k=0):
        T.run(type(self).__name__, src, k)
        super().__init__(ctx)
        self.text = T.read(src)[:1]
        self.src = src
        self.db = None

    @cachemethod
    def out(self, dst:DST, src:OPTIONAL_SRC=None) -> DST:
        T.run('out', self, dst, src)
        T.write(dst, self.text + (T.read(src) if src else ''))
        return dst

    @cachemethod
    def ext(self, x):
        T.run('ext', self, x)
        T.ext(self.ctx, srcs=['h'])
        return T.read('h')

    @cacheproperty
    def prop(self) -> DSTS:
        T.run('prop', self)
        T.write('build/prop', self.text)
        T.write('build/prop2', self.text)
        return ['build/prop', 'build/prop2']

class Kid(Src):
    @cacheproperty
    def prop(self):
        T.run('prop', self)
        return [T.read(x) for x in Src(self.ctx, self.src).prop]

@caches
def top(ctx, src:SRC):
    T.run('top', src)
    o = Src(ctx, src, 7)
    return [o, o.out('build/top', 'b'), o.ext(1)]
''' + TAIL
    plans = (
        [C("Src(ctx, 'a')"), C("Src(ctx, src='b')"), F("Src(ctx, 'a').out.call('build/o', 'b')")],
        [F("Src(ctx, 'a').ext.call(1)"), C("Src(ctx, 'b').ext(1)"), C("Src(ctx, 'a').prop")],
        [C("Kid(ctx, 'a').prop"), C("Kid(ctx, 'a', 1).out('build/k')"), C("Src(ctx, 'a').out('build/o')")],
        [F("top.call(ctx, 'a')"), C("Src(ctx, 'a', 7).ext(1)")],
        [C("Src(ctx, 'a', 7).ext(1)"), F("top.call(ctx, 'a')"), C("Src(ctx, 'b').prop")],
    )
    full = False
    edits = (('none',), ('edit', 'a', 'A1'), ('edit', 'a', 'Z'), ('edit_back', 'b', 'B1'), ('edit', 'h', 'H1'), ('rm', 'build/o'),
             ('rm', 'build/prop2'), ('rm', 'build/top'), ('touch', 'a'))

    def texts(self, step):
        return {'fbuildroot': self.body}

    def first_steps(self):
        return [dict(plan=p) for p in self.plans]

    def next_steps(self, history):
        if len(history) == 2 and not self.full:
            return [dict(edit=e, plan=p) for e in self.edits[::3] for p in self.plans]
        return [dict(edit=e, plan=p) for e in self.edits for p in self.plans]


class Classes(Scenario):
    """Edits of constructors, base constructors, methods; classes that come and go."""
    name = 'class-edits'
    engines = ('pickle', 'sqlite')
    depth = 3
    full = False
    versions = {
        '0': {}, 'init': {'I': "\n        b = [b, 'new']"}, 'method': {'M': "\n        x = [x, 'new']"},
        'prop': {'P': "\n        self = Sub(self.ctx, 9)"}, 'own': {'OI': "\n        a = (a, 'new')"}, 'noother': {'other': None},
        'moved': {'moved': True}, 'cinit': {'I': "\n        self.made = 1 # \\"}, 'abstract': {'own_init': True},
    }
    plans = (
        [C('Base(ctx, 1)'), C('Base(ctx, 1).m(2)'), C('Base(ctx, 1).p')],
        [C('Sub(ctx, 1)'), C('Sub(ctx, 1).m(2)'), C('Sub(ctx, 1).same(1)'), C('Base(ctx, 1).same(1)')],
        [C('Own(ctx, 1)'), C('Own(ctx, 1).own.m(2)'), C('Own(ctx, 1).p')],
        [C('use(ctx, Base(ctx, 1))'), C('Holder(ctx, Sub(ctx, 1), Own(ctx, 1)).all(3)'), C('make(ctx, 1).same()')],
    )
    other = [C('Other(ctx, 1)'), C('Other(ctx, 1).m(1)'), C('use(ctx, Other(ctx, 1))'), C('wrap(ctx, Other(ctx, 2))')]

    def texts(self, step):
        v = self.versions[step['script']]
        t = BASE + SUB
        if v.get('own_init'):
            t = t.replace("    def extra(self):", "    def __init__(self, ctx, a):\n        T.run('Sub', a)\n"
                          "        super().__init__(ctx, a, 'from sub')\n\n    def extra(self):")
        for k in ('I', 'M', 'P', 'OI'):
            t = t.replace('@%s@' % k, v.get(k, ''))
        other = '' if 'other' in v else OTHER
        return {'fbuildroot': HEAD + (other + t if 'moved' in v else t + other) + FUNCS + TAIL}

    def steps(self):
        for s in self.versions:
            for p in self.plans:
                yield dict(script=s, plan=p)
            if s != 'noother':
                yield dict(script=s, plan=self.other)

    def first_steps(self):
        return [s for s in self.steps() if s['script'] == '0' or s['script'] in ('init', 'abstract') and s['plan'] in self.plans[1::2]]

    def next_steps(self, history):
        if len(history) == 1:
            return list(self.steps())
        return [dict(script=history[-1]['script'], plan=p) for p in (self.plans if self.full else self.plans[:2])] + \
               [dict(script='0', plan=p) for p in self.plans + (self.other,)]


def c10(tier):
    rep = util.Report('C10', 'model_checking', ASSUME + [
        'objects are identified by class name and state; objects that contain themselves are not covered',
        'a class is edited in its constructors and cached members; other members are not followed'])
    Sources.full = Classes.full = tier == 'thorough'
    hist.explore(rep, [Objects(), Aliases(), Sources(), Classes()])
    rep.coverage['exhaustive'] = not rep.coverage.get('stopped_early')
    return rep.finish()
