"""C09: which calls are the same call.

For every signature and every shape of call within the bound, all the calls are made
in one session of the real cache, twice and in two orders, and compared with what
the undecorated function says to the same arguments.
"""
import itertools
import os
import shutil
import sys

from .. import hist, util

NAMES = 'abcd'


def signatures(most):
    """(text of the parameters after ctx, names usable as keywords, has `/`)"""
    for total in range(most + 1):
        for p in range(total + 1):
            for n in range(total - p + 1):
                k = total - p - n
                for var in (0, 1):
                    if k == 0 and var == 0:
                        bares = ('',)
                    else:
                        bares = ('*va',) if var else ('*',)
                    for bare in bares:
                        for kw in (0, 1):
                            for d in range(p + n + 1):
                                for kd in itertools.product((0, 1), repeat=k):
                                    yield make(p, n, k, bare, kw, d, kd)


def make(p, n, k, bare, kw, d, kd):
    names = list(NAMES[:p + n + k])
    out = []
    for i in range(p + n):
        out.append(names[i] + ('=1' if i >= p + n - d else ''))
        if i == p - 1:
            out.append('/')
    if bare:
        out.append(bare)
    for i in range(k):
        out.append(names[p + n + i] + ('=1' if kd[i] else ''))
    if kw:
        out.append('**vk')
    return ', '.join(out), tuple(names)


def shapes(names, most):
    keys = names + ('x',)
    for npos in range(most + 2):
        for r in range(0, min(len(keys), most + 1) + 1):
            for ks in itertools.combinations(keys, r):
                if npos + r <= most + 2:
                    yield npos, ks


def values(m, rich):
    """Assignments of values to m arguments."""
    if m == 0:
        return [()]
    out = [(1,) * m, (2,) * m]
    for i in range(m):
        out.append((1,) * i + (2,) + (1,) * (m - i - 1))
    if rich and m <= 2:
        out += itertools.product((1, 2, 'a', (1,), [1], None), repeat=m)
    seen, res = set(), []
    for v in out:
        if repr(v) not in seen:
            seen.add(repr(v))
            res.append(v)
    return res


SPECIAL = ['function', 'self', 'args', 'kwargs', 'kw', 'method', 'cls', 'name', 'ctx_', 'result', 'srcs', 'instance',
           'fun_name', 'outer_function', 'call']


class Fn:
    def __init__(self, i, kind, params, names, special=False):
        self.i = i
        self.kind = kind
        self.params = params
        self.names = names
        self.special = special

    @property
    def text(self):
        name = 'f%d' % self.i
        pars = ', '.join(x for x in ('%s', self.params) if x)
        if self.params.startswith('/'):
            raise AssertionError
        body = ('    T.seen = shown = T.show(%r, locals())\n    return shown\n' % name)
        if self.kind == 'function':
            return '@caches\ndef %s(%s):\n%s' % (name, pars % 'ctx', body)
        if self.kind == 'inner':         # defined inside another function
            return 'def make%d():\n    @caches\n    def f(%s):\n%s    return f\n%s = make%d()\n' % (
                self.i, pars % 'ctx', body.replace('    ', '        '), name, self.i)
        if self.kind == 'method':
            return ('class C%d(PersistentObject):\n    @cachemethod\n    def %s(%s):\n%s' % (
                self.i, name, pars % 'self', body.replace('    ', '        ')))
        if self.kind == 'keyword-only-ctx':
            return '@caches\ndef %s(%s):\n%s' % (name, pars % 'context', body)
        raise AssertionError

    def get(self, mod, ctx):
        """(callable that makes the call, plain function, its first argument)"""
        name = 'f%d' % self.i
        if self.kind == 'method':
            obj = getattr(mod, 'C%d' % self.i)(ctx)
            raw = type(obj).__dict__[name].method
            return getattr(obj, name), raw, (), obj
        f = getattr(mod, name)
        return f, f.function, (ctx,), ctx


def show(name, loc):
    out = []
    for k, v in sorted(loc.items()):
        if k in ('ctx', 'self', 'context') and type(v).__name__ not in ('int', 'str', 'tuple', 'list', 'NoneType', 'dict'):
            continue
        if isinstance(v, dict):
            v = sorted(v.items())
        out.append('%s=%r' % (k, v))
    return name + ':' + ' '.join(out)


def calls_of(fn, most):
    if fn.special:
        for name in fn.names:
            for npos in (0, 1):
                for v in (1, 2):
                    if npos:
                        yield (v,), {}
                    else:
                        yield (), {name: v}
                yield (v,), {name: 1}
        for a, b in itertools.combinations(fn.names, 2):
            yield (), {a: 1, b: 2}
        return
    for npos, ks in shapes(fn.names, most):
        for vs in values(npos + len(ks), len(fn.names) <= 1):
            yield vs[:npos], dict(zip(ks, vs[npos:]))


class Bad(Exception):
    pass


def one_call(mod, T, f, raw, first, implied, args, kwargs, known, again):
    # What Python does with it: the function without the cache.
    try:
        want = raw(*(first or (implied,)), *args, **kwargs)
    except TypeError:
        want = None
    T.seen = None
    try:
        got = f(*first, *args, **kwargs)
    except TypeError as e:
        got = e
    if want is None:
        if not isinstance(got, TypeError):
            raise Bad('Python rejects this call, it returned %r' % (got,))
        return 0
    if isinstance(got, Exception):
        raise Bad('Python accepts this call, it raised %r' % (got,))
    if got != want:
        raise Bad('it returned %r instead of %r' % (got, want))
    ran = T.seen is not None
    if ran and T.seen != want:
        raise Bad('the function was called with %r instead of %r' % (T.seen, want))
    if want in known:
        if ran:
            raise Bad('it ran although the same call had been made before')
    else:
        if not ran:
            raise Bad('it did not run although it had not been made before')
        known.add(want)
    return 1


def session(fns, most, engine, orders, rounds, wd):
    """Runs in a forked process of its own."""
    import types
    import fbuild.context
    import fbuild.db
    import fbuild.options
    os.makedirs(wd)
    os.chdir(wd)
    T = types.ModuleType('T')
    T.show = show
    T.seen = None
    sys.modules['T'] = T
    for n in ('caches', 'cachemethod', 'PersistentObject'):
        setattr(T, n, getattr(fbuild.db, n))
    name = 'binding_mod'
    with open(name + '.py', 'w') as f:
        f.write('import T\nfrom T import caches, cachemethod, PersistentObject\n' + '\n'.join(fn.text for fn in fns))
    sys.path.insert(0, wd)
    mod = __import__(name)
    made = accepted = 0
    bad = []
    known = {}

    def connect():
        parser = fbuild.options.make_parser()
        ctx = fbuild.context.Context(parser.parse_args(['--database-engine', engine]))
        ctx.create_buildroot()
        ctx.load_configuration()
        return ctx
    ctx = connect()
    for rnd in range(rounds):
        if rnd:
            ctx.save_configuration()
            ctx.db.shutdown()
            ctx = connect()
        for fn in fns:
            f, raw, first, implied = fn.get(mod, ctx)
            T.current = 'f%d' % fn.i
            seq = list(calls_of(fn, most))
            for order in orders:
                if order == 'reverse' and rnd == 0:
                    # from the start again
                    full = {'function': 'binding_mod.f%d', 'keyword-only-ctx': 'binding_mod.f%d',
                            'method': 'binding_mod.C%d.f%d', 'inner': 'binding_mod.make%d.<locals>.f'}[fn.kind]
                    full = full % ((fn.i,) * full.count('%'))
                    if not ctx.db.delete_function(full) and known.get(fn.i):
                        if fn.kind != 'inner':
                            bad.append((fn.kind, fn.params, 'delete', '', 'the function was not recorded as %s' % full))
                    else:
                        known[fn.i] = set()
                    seq.reverse()
                for args, kwargs in seq + seq:
                    made += 1
                    try:
                        accepted += one_call(mod, T, f, raw, first, implied, args, kwargs, known.setdefault(fn.i, set()), rnd)
                    except Bad as e:
                        if len(bad) < 40:
                            bad.append((fn.kind, fn.params, args, kwargs, str(e)))
    ctx.db.shutdown()
    ctx.scheduler.shutdown()
    return made, accepted, sum(map(len, known.values())), bad


def c09(tier):
    deep = tier == 'thorough'
    rep = util.Report('C09', 'model_checking', [
        'values are compared as Python compares them: 1, 1.0 and True are equal',
        'the context is passed by position, or by the name of the first parameter',
        'functions are told apart by module and qualified name',
    ])
    hist.warm(0)
    import fbuild.builders.platform     # noqa
    root = util.scratch_root()
    most = 4 if deep else 3
    jobs = []
    fns = [Fn(i, 'function', p, n) for i, (p, n) in enumerate(signatures(most))]
    meths = [Fn(i, 'method', p, n) for i, (p, n) in enumerate(signatures(most - 1))]
    small = [Fn(i, 'function', p, n) for i, (p, n) in enumerate(signatures(2))]
    inner = [Fn(i, 'inner', p, n) for i, (p, n) in enumerate(signatures(1))]
    named = []
    for s in SPECIAL:
        for form in ('%s', '%s=1', '*, %s=1'):
            named.append(Fn(len(named), 'function', form % s, (s,), special=True))
    named.append(Fn(len(named), 'function', '**vk', tuple(SPECIAL), special=True))
    named.append(Fn(len(named), 'keyword-only-ctx', '*va, **vk', tuple(SPECIAL) + ('ctx',), special=True))
    mspecial = [s for s in SPECIAL if s != 'self']
    mnamed = [Fn(i, 'method', f % s, (s,), special=True) for i, (s, f) in enumerate(
        itertools.product(mspecial, ('%s', '%s=1', '*, %s=1')))]
    mnamed.append(Fn(len(mnamed), 'method', '**vk', tuple(mspecial), special=True))

    def chunks(l, n):
        return [l[i:i + n] for i in range(0, len(l), n)]
    both = ('forward', 'reverse')
    for c in chunks(fns, 8):
        jobs.append((c, most, 'cache', both, 1))
    for c in chunks(meths, 12):
        jobs.append((c, most - 1, 'cache', both, 1))
    for e in ('pickle', 'sqlite'):
        for c in chunks(small, 12):
            jobs.append((c, 2, e, ('forward',), 2))
        for c in chunks([m for m in meths if len(m.names) < 2], 12):
            jobs.append((c, 1, e, ('forward',), 2))
        jobs.append((named, 1, e, ('forward',), 2))
        jobs.append((mnamed, 1, e, ('forward',), 2))
        jobs.append((inner, 1, e, ('forward',), 2))
    jobs.append((named, 1, 'cache', both, 1))
    jobs.append((mnamed, 1, 'cache', both, 1))
    jobs.append((inner, 1, 'cache', both, 1))

    def work(job):
        import pickle
        wd = os.path.join(root, 'b%d' % os.getpid())
        shutil.rmtree(wd, ignore_errors=True)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            st = 0
            try:
                os.close(r)
                try:
                    res = session(*job, wd=wd)
                except BaseException:
                    import traceback
                    res = ('__error__', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            finally:
                os._exit(st)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        shutil.rmtree(wd, ignore_errors=True)
        return pickle.loads(data) if data else ('__error__', 'the session died')

    nsig = len(fns) + len(meths) + len(named) + len(mnamed) + len(inner)
    for i, res in util.run_jobs(jobs, work):
        job = jobs[i]
        if res[0] == '__error__':
            rep.violation('%s/session' % job[2], 'a session with %s failed: %s' % (job[2], res[1][-600:]),
                          {'engine': job[2], 'functions': [(f.kind, f.params) for f in job[0]]})
            continue
        made, accepted, states, bad = res
        rep.add(states=states, transitions=made, traces_validated_against_impl=len(job[0]), calls_python_accepts=accepted)
        for kind, params, args, kwargs, text in bad:
            call = '(%s)' % ', '.join([repr(a) for a in args] + (['%s=%r' % kv for kv in kwargs.items()] if kwargs else []))
            rep.violation(('%s/%s/(%s)/%s' % (job[2], kind, params, text.split(' ')[0])).replace(' ', ''),
                          '%s (%s) called with %s, %s: %s' % (kind, params, call, job[2], text),
                          {'engine': job[2], 'kind': kind, 'parameters': params, 'args': args, 'kwargs': kwargs})
        if i in (3, 40):
            rep.sample({'engine': job[2], 'functions': [(f.kind, f.params) for f in job[0]][:4], 'calls': made, 'distinct': states})
    rep.coverage['signatures'] = nsig
    rep.coverage['exhaustive'] = True
    return rep.finish()
