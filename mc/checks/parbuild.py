"""Check S06: cached builds through the scheduler, under all schedules."""
import collections
import os
import pickle
import shutil
import signal
import sys
import traceback

from .. import util
from ..sched import driver, kernel, loader, shims
from ..sched.driver import Scenario, NullLogger

ASSUME = [
    'threads switch only between statements of fbuild.sched, fbuild.rpc and fbuild.db.database that touch shared state, at marked points of the '
    'build functions, and at the operations of threading and queue; what the database thread does for one request is one step',
    'all schedules with at most the stated number of deviations from the base policies, for the stated builds and edits',
    'source files do not change while a build runs',
]

PREFIX = '''
import fbuild.db
from mchooks import enter, ran, point, read, write

def called(f, *args):
    """Makes a cached call, on the record."""
    n = enter(f, args)
    try:
        return f(*args)
    finally:
        n()

@fbuild.db.caches
def leaf(ctx, x, src: fbuild.db.SRC):
    v = 'leaf0'
    ran('leaf', x)
    point()
    return v, x, read(src)

@fbuild.db.caches
def slow(ctx, x, src: fbuild.db.SRC):
    v = 'slow0'
    ran('slow', x)
    with ctx.scheduler.interruptible():
        point()
    return v, x, read(src)

@fbuild.db.caches
def top(ctx, x, ys):
    v = 'top0'
    ran('top', x)
    return v, x, ctx.pmap(lambda y: called(leaf, ctx, y, 's' + y), list(ys))

@fbuild.db.caches
def pair(ctx, x):
    v = 'pair0'
    ran('pair', x)
    return v, called(leaf, ctx, x, 's' + x), called(slow, ctx, x, 's' + x)

@fbuild.db.caches
def ext(ctx, x):
    v = 'ext0'
    ran('ext', x)
    ctx.db.add_external_dependencies_to_call(srcs=['s' + x], dsts=['o' + x])
    point()
    write('o' + x, v + read('s' + x))
    return v, x, read('s' + x)

@fbuild.db.caches
def exts(ctx, x, ys):
    v = 'exts0'
    ran('exts', x)
    return v, ctx.pmap(lambda y: called(ext, ctx, y), list(ys))

@fbuild.db.caches
def gen(ctx, x, src: fbuild.db.SRC) -> fbuild.db.DST:
    v = 'gen0'
    ran('gen', x)
    write('o' + x, v + read(src))
    point()
    return 'o' + x

@fbuild.db.caches
def use(ctx, x, src: fbuild.db.SRC):
    v = 'use0'
    ran('use', x)
    return v, read(src)

@fbuild.db.caches
def fails(ctx, x, src: fbuild.db.SRC):
    v = 'fails0'
    ran('fails', x)
    point()
    if read(src).startswith('bad'):
        raise ValueError(x)
    return v, x, read(src)

@fbuild.db.caches
def count(ctx, n):
    v = 'count0'
    ran('count', n)
    if n == 0:
        return [v, read('sa')] if False else [v]
    return [n] + ctx.pmap(lambda m: called(count, ctx, m), [n - 1])

@fbuild.db.caches
def either(ctx, x):
    v = 'either0'
    ran('either', x)
    return v, called(leaf if x == 'a' else slow, ctx, x, 's' + x)

def chain(ctx, x):
    return called(use, ctx, x, called(gen, ctx, x, 's' + x))

def handled(f, *args):
    try:
        return called(f, *args)
    except ValueError as e:
        return 'failed %s' % e
'''

# name: (program, sources, functions)
PROGRAMS = {
    'flat2': ("ctx.pmap(lambda y: called(leaf, ctx, y, 's' + y), ['a', 'b'])", 'ab', ['leaf']),
    'flat3': ("ctx.pmap(lambda y: called(leaf, ctx, y, 's' + y), ['a', 'b', 'c'])", 'abc', ['leaf']),
    'same': ("ctx.pmap(lambda y: called(leaf, ctx, y, 's' + y), ['a', 'a', 'b'])", 'ab', ['leaf']),
    'sameslow': ("ctx.pmap(lambda y: called(slow, ctx, y, 's' + y), ['a', 'a', 'b'])", 'ab', ['slow']),
    'twice': ("[ctx.pmap(lambda y: called(slow, ctx, y, 's' + y), ['a', 'b']), ctx.pmap(lambda y: called(slow, ctx, y, 's' + y), ['b', 'a'])]",
              'ab', ['slow']),
    'tops': ("ctx.pmap(lambda x: called(top, ctx, x, x), ['ab', 'b'])", 'ab', ['leaf', 'top']),
    'topflat': ("ctx.pmap(lambda f: f(), [lambda: called(top, ctx, 'a', 'ab'), lambda: called(leaf, ctx, 'b', 'sb')])", 'ab', ['leaf', 'top']),
    'pairs': ("ctx.pmap(lambda x: called(pair, ctx, x), ['a', 'b'])", 'ab', ['leaf', 'slow', 'pair']),
    'pairsame': ("ctx.pmap(lambda x: called(pair, ctx, x), ['a', 'a'])", 'a', ['leaf', 'slow', 'pair']),
    'exts': ("ctx.pmap(lambda f: f(), [lambda: called(exts, ctx, 'x', 'ab'), lambda: called(ext, ctx, 'b')])", 'ab', ['ext', 'exts']),
    'extsboth': ("ctx.pmap(lambda x: called(exts, ctx, x, x), ['a', 'ab'])", 'ab', ['ext', 'exts']),
    'chains': ("ctx.pmap(lambda x: chain(ctx, x), ['a', 'b'])", 'ab', ['gen', 'use']),
    'handled': ("ctx.pmap(lambda x: handled(fails, ctx, x, 's' + x), ['a', 'b', 'c'])", 'abc', ['fails']),
    'either': ("ctx.pmap(lambda x: called(either, ctx, x), ['a', 'b'])", 'ab', ['leaf', 'slow', 'either']),
    'recursive': ("ctx.pmap(lambda n: called(count, ctx, n), [2, 1])", '', ['count']),
    'main': ("[called(leaf, ctx, 'a', 'sa'), ctx.pmap(lambda y: called(leaf, ctx, y, 's' + y), ['a', 'b']), called(leaf, ctx, 'b', 'sb')]",
             'ab', ['leaf']),
}

OLD = 1600000000


class Hooks:
    """The module `mchooks` of the build functions."""
    def __init__(self):
        self.run = None

    def module(self):
        import types
        m = types.ModuleType('mchooks')
        h = self

        def enter(f, args):
            t = h.tick()
            name = getattr(f, '__name__', None) or f.__wrapped__.__name__
            rec = [name, args[1], t, None, False]
            h.calls.append(rec)

            def leave():
                rec[3] = h.tick()
                if sys.exc_info()[0] is not None:
                    rec[4] = True
            return leave

        def ran(name, x):
            h.ran.append((name, x, h.tick(), kernel.K.current))
        m.enter, m.ran, m.point, m.read, m.write = enter, ran, kernel.point, read, write
        return m

    def reset(self):
        self.calls, self.ran, self.n = [], [], 0

    def tick(self):
        self.n += 1
        return self.n


def read(name):
    with open(name) as f:
        return f.read()


def write(name, text, t=OLD):
    with open(name, 'w') as f:
        f.write(text)
    os.utime(name, (t, t))


hooks = Hooks()
_loaded = [None]

def load(variant, program):
    """A new process, as far as fbuild can tell, with the given version of the build functions."""
    if _loaded[0] == (variant, program):
        return
    for n in list(sys.modules):
        if n == 'fbuild' or n.startswith('fbuild.') or n in ('mcbuild', 'mchooks'):
            del sys.modules[n]
    text = PREFIX
    if variant:
        assert "'%s0'" % variant in text
        text = text.replace("'%s0'" % variant, "'%s1'" % variant)
    text += '\n\ndef build(ctx):\n    return %s\n' % PROGRAMS[program][0]
    d = os.path.join(util.scratch_root(), 'mods-%d-%d' % (os.getuid(), os.getpid()), '%s-%s' % (variant, program))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'mcbuild.py')
    with open(path, 'w') as f:
        f.write(text)
    import fbuild.context, fbuild.db, fbuild.db.database, fbuild.sched      # noqa
    sys.modules['mchooks'] = hooks.module()
    import importlib.util
    spec = importlib.util.spec_from_file_location('mcbuild', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['mcbuild'] = mod
    spec.loader.exec_module(mod)
    _loaded[0] = (variant, program)
    return True


class Options:
    do_not_save_database = False
    threadcount = 2


def build(engine, workers):
    """One build in the current directory, inside an execution.  workers=0: sequential."""
    import fbuild.context
    import fbuild.db.database
    import fbuild.sched
    import mcbuild
    ctx = type('Ctx', (fbuild.context.Context,), {'__init__': lambda self: None})()
    ctx.options = Options()
    ctx.logger = NullLogger()
    ctx.db = fbuild.db.database.Database(ctx, engine=engine)
    ctx.scheduler = fbuild.sched.Scheduler(workers, logger=ctx.logger)
    if workers:
        ctx.pmap = ctx.scheduler.map
    else:
        ctx.pmap = lambda f, xs: [f(x) for x in xs]
    ctx.db.connect('state')
    try:
        value = ('ok', mcbuild.build(ctx))
    except (ValueError, TypeError, OSError, AttributeError) as e:
        value = ('exc', type(e).__name__, str(e))
    files = sorted(ctx.db.active_files)
    ctx.scheduler.shutdown()
    ctx.db.close()
    ctx.db.shutdown()
    return value, files


def clear(d):
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))


def sources(program):
    for c in PROGRAMS[program][1]:
        write('s' + c, ('bad-' if program == 'handled' and c == 'b' else 'text-') + c)


def edits(program):
    """name -> (variant, action)"""
    _, srcs, funs = PROGRAMS[program]
    out = collections.OrderedDict()
    out['none'] = (None, lambda: None)
    for c in srcs:
        out['edit s' + c] = (None, lambda c=c: write('s' + c, 'changed-' + c, OLD + 7))
        out['touch s' + c] = (None, lambda c=c: os.utime('s' + c, (OLD + 9, OLD + 9)))
        if program in ('exts', 'extsboth', 'chains'):
            out['lose o' + c] = (None, lambda c=c: os.remove('o' + c))
    for f in funs:
        out['change ' + f] = (f, lambda: None)
    return out


def in_child(fn):
    """The value of fn(), computed in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(100)
            try:
                res = ('ok', fn())
            except BaseException:
                res = ('error', traceback.format_exc())
            data = pickle.dumps(res, 2)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return ('error', 'died')
    return pickle.loads(data)


def sequential(engine):
    """A sequential build here; what it gave and what it executed."""
    hooks.reset()
    k = kernel.Kernel('run', {}, 100000)
    out = []

    def main():
        out.append(build(engine, 0))
    o = k.run(main)
    if o != 'done' or not out:
        err = k.main.exc
        return ('stuck', o, repr(err)), (), []
    return out[0][0], tuple(sorted({(n, x) for n, x, t, who in hooks.ran}, key=repr)), out[0][1]


def snapshot(engine):
    """What the next build will find."""
    files = []
    for n in sorted(os.listdir('.')):
        if n == 'state' and engine == 'sqlite':
            import sqlite3
            c = sqlite3.connect('state')
            files.append((n, '\n'.join(c.iterdump())))
            c.close()
        else:
            with open(n, 'rb') as f:
                files.append((n, f.read()))
    return files


def restore(files):
    clear('.')
    for n, data in files.items():
        with open(n, 'wb') as f:
            f.write(data)
        os.utime(n, (OLD, OLD))


def raw():
    out = {}
    for n in os.listdir('.'):
        with open(n, 'rb') as f:
            out[n] = f.read()
    return out


class ParBuild(Scenario):
    max_steps = 30000
    whole = True

    def __init__(self, program, engine, workers, before=None, fresh=False):
        # fresh: fbuild is loaded anew for every execution, so it computes the digests of the functions in it
        self.program, self.engine, self.workers, self.before, self.fresh = program, engine, workers, before, fresh
        self.name = 'build(%s,%s,workers=%d%s%s)' % (program, engine, workers, ',after ' + before if before is not None else '',
                                                     ',fresh' if fresh else '')
        self.ready = None

    def prepare(self):
        if self.ready != os.getpid():
            self.ready = os.getpid()
            d = os.path.join(util.scratch_root(), 'w%d' % os.getpid())
            os.makedirs(d, exist_ok=True)
            self.dir = d
            self.seen = {}
            os.chdir(d)
            clear(d)
            self.variant = None
            if self.before is not None:
                self.variant = edits(self.program)[self.before][0]

            def first():
                load(None, self.program)
                sources(self.program)
                if self.before is None:
                    return raw(), None
                value, ran, files = sequential(self.engine)
                return raw(), ran
            kind, res = in_child(first)
            if kind != 'ok':
                raise kernel.HarnessError(res)
            self.template, self.all_calls = res

            # the same build, sequentially, and what happens after it
            def reference():
                os.chdir(d)
                self.setup()
                load(self.variant, self.program)
                res = sequential(self.engine)
                return res, self.follow(raw())
            kind, res = in_child(reference)
            if kind != 'ok':
                raise kernel.HarnessError(res)
            self.ref, self.after = res
            self.broken = None
            for name, res in [('', self.ref)] + [(', after that and ' + n, a) for n, a in self.after.items()]:
                if res[0][0] != 'ok':
                    self.broken = 'the sequential build%s fails: %r' % (name, res[0])
                    break
        os.chdir(self.dir)
        if self.fresh:
            _loaded[0] = None
        if load(self.variant, self.program) and not self.fresh:
            self.setup()
            sequential(self.engine)

    def setup(self):
        restore(self.template)
        if self.before is not None:
            edits(self.program)[self.before][1]()

    def follow(self, state):
        """Every edit, each followed by a sequential build, on this state."""
        def all_of_them():
            out = {}
            for name, (variant, action) in edits(self.program).items():
                restore(state)
                action()
                _loaded[0] = None
                load(variant or self.variant, self.program)
                out[name] = sequential(self.engine)
            return out
        kind, res = in_child(all_of_them)
        if kind != 'ok':
            raise kernel.HarnessError(res)
        return res

    def start(self, k):
        self.prepare()
        self.setup()
        hooks.reset()
        return driver.Run(self, k)

    def body(self, run):
        return build(self.engine, self.workers)

    def check(self, run):
        if run.result[0] != 'ok':
            return 'ended with %r' % (run.result[1],)
        if self.broken:
            return self.broken
        value, files = run.result[1]
        want, ran, reffiles = self.ref
        if value != want:
            return 'the build gave %r, sequentially %r' % (value, want)
        if files != reffiles:
            return 'the build reports the files %r, sequentially %r' % (files, reffiles)
        got = {(n, x) for n, x, t, who in hooks.ran}
        if (self.before or '').startswith('lose'):
            # which of the calls that depend on it finds the output missing depends on their order
            x = self.before[-1]
            may = {r for r in self.all_calls if r[0] in ('ext', 'gen') and r[1] == x or r[0] == 'exts' and (x in r[1] or r[1] == 'x')}
            if not got <= may or not any(r[0] != 'exts' for r in got):
                return 'executed %s, which is not what depends on the output' % sorted(got, key=repr)
        elif got != set(ran):
            return 'executed %s, a sequential build %s' % (sorted(got, key=repr), sorted(ran, key=repr))
        # a call is made again only while the first one is not answered yet
        for (n, x), c in collections.Counter((n, x) for n, x, t, who in hooks.ran).items():
            if c > 1:
                recs = [r for r in hooks.calls if r[:2] == [n, x]]
                good = [r[3] for r in recs if r[3] is not None and not r[4]]
                if good:
                    first = min(good)
                    late = [t for m, y, t, who in hooks.ran if (m, y) == (n, x) and t > first and
                            not any(r[2] < first and (r[3] is None or r[3] > t) for r in recs)]
                    if late:
                        return '%s(%s) was executed again after it had been answered' % (n, x)
        key = repr(snapshot(self.engine))
        if key not in self.seen:
            out = self.follow(raw())
            self.seen[key] = None
            for name in out:
                if out[name] != self.after[name]:
                    a, b = out[name], self.after[name]
                    what = 'gives %r instead of %r' % (a[0], b[0]) if a[0] != b[0] else \
                        'executes %s instead of %s' % (list(a[1]), list(b[1])) if a[1] != b[1] else \
                        'reports the files %r instead of %r' % (a[2], b[2])
                    self.seen[key] = 'after a parallel build, the next one (%s) %s' % (name, what)
                    break
        return self.seen[key]

    def key(self, run):
        return repr(collections.Counter((n, x) for n, x, t, who in hooks.ran))


def c_s06(tier):
    driver.load()
    rep = util.Report('S06', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []
    for n, p in enumerate(PROGRAMS):
        for w, pol in ((1, 'run'), (2, 'run'), (2, 'rr'), (3, 'new')):
            cfg.append((ParBuild(p, 'pickle', w), pol, 2 if deep and w == 2 and p in ('flat2', 'same', 'tops', 'pairsame', 'handled') else 1))
            if pol == 'run' and w == 2 and (deep or p in ('flat2', 'tops')):
                cfg.append((ParBuild(p, 'pickle', w, fresh=True), pol, 1))
        for m, e in enumerate(edits(p)):
            for pol in ('run', 'rr'):
                small = e == 'none' or e.startswith('touch')
                if deep or (pol == 'run') == ((n + m) % 2 == 0) or small:
                    cfg.append((ParBuild(p, 'pickle', 2, before=e), pol, 1 if deep or not small else 0))
        cfg.append((ParBuild(p, 'sqlite', 2), 'run', 1 if deep else 0))
    driver.explore(rep, cfg)
    return rep.finish()
