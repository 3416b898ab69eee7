"""B05: which platform options apply, and what they make of the arguments."""
import copy
import itertools

from .. import sweep, util
from ..sweep import Bad

FEATURES = ('p', 'q', 'r')
KINDS = {
    'str': (str, '', 'ab', 'bc', 'cab'),
    'list': (list, [], ['a', 'b'], ['b', 'c'], ['c', 'a', 'a']),
    'tuple': (tuple, (), ('a', 'b'), ('b', 'c'), ('c', 'a', 'a')),
    'set': (set, set(), {'a', 'b'}, {'b', 'c'}, {'a'}),
}


def matches(platform, matcher):
    return all((m[1:] not in platform) if m[0] == '!' else (m in platform) for m in matcher)


def model(platform, decls, kw):
    kw = copy.deepcopy(kw)
    for matcher, opts in decls:
        if not matches(platform, matcher):
            continue
        for k, mod in opts.items():
            if k[-1] not in '+-':
                kw[k] = copy.deepcopy(mod)
                continue
            op, k = k[-1], k[:-1]
            old = kw.get(k)
            if old is None:
                old = type(mod)()
            if isinstance(old, set):
                new = old | mod if op == '+' else old - mod
            elif op == '+':
                new = old + mod
            else:
                left = [x for x in old if x not in list(mod)]
                new = ''.join(left) if isinstance(old, str) else type(old)(left)
            kw[k] = new
    return kw


def same(a, b):
    """Equal, and of the same types all the way down."""
    return repr(norm(a)) == repr(norm(b))


def norm(x):
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(x))
    if isinstance(x, dict):
        return [(k, norm(v)) for k, v in sorted(x.items())]
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [norm(v) for v in x])
    return x


def meddle(kw):
    """What a builder may do to the values it was given."""
    for v in kw.values():
        if isinstance(v, list):
            v.append('meddled')
        elif isinstance(v, set):
            v.add('meddled')
        elif isinstance(v, dict):
            v['meddled'] = 1


class Ctx:
    """Stands in for the context; only its type is looked at."""


def shapes():
    """The ways options reach a function: (label, call(decls, platform, kw) -> (kw received, result))"""
    import fbuild.builders.platform as P
    import fbuild.context

    class C(fbuild.context.Context):
        def __init__(self):
            pass
    ctx = C()
    seen = {}

    def receive(*args, **kw):
        seen['args'], seen['kw'] = args, copy.deepcopy(kw)
        meddle(kw)
        return seen

    @P.auto_platform_options()
    def plain(ctx, *args, **kw):
        return receive(*args, **kw)

    @P.auto_platform_options(pass_platform=True)
    def passing(ctx, *args, **kw):
        return receive(*args, **kw)

    class Obj:
        def __init__(self):
            self.ctx = ctx

        @P.auto_platform_options()
        def method(self, *args, **kw):
            return receive(*args, **kw)

        @P.auto_platform_options()
        def outer(self, *args, **kw):
            return self.method(*args, **kw)

    class Bare:
        @P.auto_platform_options()
        def method(self, ctx, *args, **kw):
            return receive(*args, **kw)
    o, b = Obj(), Bare()

    def parse(*args, platform=None, platform_options=(), **kw):
        assert args == ('x',)
        # a list passed directly is updated in place
        kw = copy.deepcopy(kw)
        P.parse_platform_options(ctx, platform, platform_options, kw)
        return receive(*args, **kw)
    return {
        'parse': parse,
        'function': lambda *a, **k: plain(ctx, *a, **k),
        'passing': lambda *a, **k: passing(ctx, *a, **k),
        'method': o.method, 'nested': o.outer,
        'bare': lambda *a, **k: b.method(ctx, *a, **k),
    }


def one(block, wd):
    import fbuild.builders.platform as P
    shape, given, cs = block
    call = shapes()[shape]
    states, n = set(), 0
    for platform, decls, kw in cs:
        P.guess_platform = lambda ctx, arch=None: frozenset(platform)
        want = model(set(platform), decls, kw)
        if shape == 'passing' and given:
            want['platform'] = frozenset(platform)
        keep = copy.deepcopy((decls, kw))
        for rnd in (1, 2):
            args = dict(kw, platform_options=decls)
            if given:
                args['platform'] = frozenset(platform)
            try:
                got = call('x', **args)
            except Exception as e:
                raise Bad('raised', '%s: %s(%r) on %s with options %r raised %s: %s' % (
                    shape, 'x', kw, sorted(platform), decls, type(e).__name__, e))
            n += 1
            if got['args'] != ('x',) or not same(got['kw'], want):
                raise Bad('options', '%s on %s with options %r: %r became %r instead of %r (call %d)' % (
                    shape, sorted(platform), keep[0], keep[1], got['kw'], want, rnd))
            if not same(decls, keep[0]):
                raise Bad('declarations', '%s on %s: the declared options %r are now %r' % (shape, sorted(platform), keep[0], decls))
            # a list that was not touched is the caller's own
            touched = {k.rstrip('+-') for m, o in decls if matches(set(platform), m) for k in o}
            for k in touched & set(kw):
                if not same(kw[k], keep[1][k]):
                    raise Bad('shared', '%s on %s with options %r: the value %r of the caller is now %r' % (
                        shape, sorted(platform), keep[0], keep[1][k], kw[k]))
            kw = copy.deepcopy(keep[1])
        states.add((shape, given, repr((sorted(platform), norm(want)))))
    return states, n, {'shape': shape, 'platform_given': given, 'platform': cs[0][0], 'options': repr(cs[0][1]), 'arguments': repr(cs[0][2])}


def cases(deep):
    platforms = [frozenset(c) for r in range(3) for c in itertools.combinations(FEATURES, r)]
    lits = ('p', '!p', 'q', '!q')
    matchers = [set(c) for r in range(5) for c in itertools.combinations(lits, r)]

    def inits(kind):
        t, empty, a, b, c = KINDS[kind]
        return [{}, {'k': None}, {'k': empty}, {'k': a}, {'k': b}, {'k': c, 'other': a}]

    def ops(kind):
        t, empty, a, b, c = KINDS[kind]
        return [{k: copy.deepcopy(v)} for k in ('k', 'k+', 'k-') for v in (a, b)]
    # which apply
    for pf in platforms:
        for ms in itertools.product(matchers, repeat=2):
            yield pf, [(ms[0], {'k+': ['1']}), (ms[1], {'k+': ['2']})], {'k': ['0']}
        for m in matchers:
            for mt in (tuple(sorted(m)), frozenset(m), sorted(m)):
                yield pf, [(mt, {'k': 'x', 'n+': ('1',), 'm-': {'2'}})], {'m': {'2', '3'}}
    # what they do
    for kind in KINDS:
        for n in range(1, 4 if deep else 3):
            for os in itertools.product(ops(kind), repeat=n):
                for on in itertools.product((True, False), repeat=n):
                    for i in inits(kind):
                        yield frozenset('p'), [({'p'} if on_ else {'!p'}, o) for o, on_ in zip(os, on)], i
        if not deep:
            for os in itertools.product(ops(kind), repeat=3):
                for i in inits(kind)[::3]:
                    yield frozenset('p'), [(set(), o) for o in os], i
        # several keys in one declaration, and one declaration listed twice
        for a, b in itertools.product(ops(kind), repeat=2):
            k1, k2 = list(a)[0], list(b)[0]
            for i in inits(kind):
                j = {x.replace('k', 'j'): v for x, v in i.items()}
                yield frozenset('p'), [({'p'}, {k1: a[k1], k2.replace('k', 'j'): b[k2]})], dict(i, **copy.deepcopy(j))
                if k1 != k2:
                    yield frozenset('p'), [({'p'}, {k1: a[k1], k2: b[k2]})], i
                yield frozenset('p'), [({'p'}, a)] * 2 + [({'p'}, b)] * 2, i
    for v in (5, {'x': 1}, len):
        for i in ({}, {'k': None}, {'k': 7}, {'k': {'y': 2}}):
            yield frozenset('p'), [({'p'}, {'k': v}), ({'q'}, {'k': 0})], i


def b05(tier):
    deep = tier == 'thorough'
    rep = util.Report('B05', 'model_checking', ['an option is added to, or removed from, a value of its own kind'])
    util.setup_path()
    import fbuild.builders.platform, fbuild.context     # noqa
    cs = list(cases(deep))
    blocks = []
    for shape in shapes():
        for given in ((True, False) if shape != 'parse' else (True,)):
            for i in range(0, len(cs), 300):
                blocks.append((shape, given, cs[i:i + 300]))
    sweep.run(rep, blocks, one, lambda c, kind: '%s/%s/%s' % (kind, c[0], 'given' if c[1] else 'guessed'), chunk=2, sample_every=40)
    rep.coverage['cases'] = len(cs)
    rep.coverage['exhaustive'] = True
    return rep.finish()
