"""Checks S01-S04: the scheduler under all schedules."""
import collections
import itertools
import json
import subprocess

from .. import util
from ..sched import driver, kernel, shims
from ..sched.driver import Scenario, NullLogger

ASSUME = [
    'threads switch only between statements that touch shared state, between the reads and writes of augmented assignments, and at the '
    'operations of threading, queue and time, which are atomic',
    'all schedules with at most the stated number of deviations from the base policies (run until blocked, round robin at every step, '
    'youngest first), for the stated programs',
]


def scheduler(run, workers):
    import fbuild.sched
    s = fbuild.sched.Scheduler(workers, logger=NullLogger())
    run.keep.append(s)
    return s


class Boom(Exception):
    pass


# -- S01 --------------------------------------------------------------------------

class Flat(Scenario):
    def __init__(self, workers, items, times=1, wait=False, kind='list'):
        self.workers, self.items, self.times, self.wait, self.kind = workers, items, times, wait, kind
        self.name = 'flat(workers=%d,items=%r,times=%d%s%s)' % (
            workers, items, times, ',waits' if wait else '', '' if kind == 'list' else ',' + kind)

    def body(self, run):
        s = scheduler(run, self.workers)

        def f(x):
            run.calls.append(x)
            if self.wait:
                with s.interruptible():
                    run.point()
            run.point()
            return (x, 'r')
        out = []
        for i in range(self.times):
            items = list(self.items)
            if self.kind == 'iter':
                items = iter(items)
            elif self.kind == 'tuple':
                items = tuple(items)
            out.append(s.map(f, items))
        s.shutdown()
        return out

    def check(self, run):
        want = [[(x, 'r') for x in self.items]] * self.times
        if run.result != ('ok', want):
            return 'map returned %r, expected %r' % (run.result, want)
        got = collections.Counter(map(repr, run.calls))
        exp = collections.Counter(map(repr, list(self.items) * self.times))
        if got != exp:
            return 'called for %r, expected %r' % (run.calls, exp)


class Nested(Scenario):
    """shape: a tuple of shapes; every node maps over its children."""
    def __init__(self, workers, shape, again=False):
        self.workers, self.shape, self.again = workers, shape, again
        self.name = 'nested(workers=%d,shape=%r%s)' % (workers, shape, ',again' if again else '')

    def body(self, run):
        s = scheduler(run, self.workers)

        def node(arg):
            path, shape = arg
            run.calls.append(path)
            run.point()
            kids = [(path + (i,), c) for i, c in enumerate(shape)]
            r = s.map(node, kids) if shape else []
            if self.again and shape:
                r2 = s.map(node, kids)
                if r2 != r:
                    run.problem('two maps of the same differ: %r, %r' % (r, r2))
            return (path, r)
        out = s.map(node, [((i,), c) for i, c in enumerate(self.shape)])
        s.shutdown()
        return out

    def expected(self, path, shape):
        calls = []
        n = 1

        def go(path, shape, times):
            calls.extend([path] * times)
            return (path, [go(path + (i,), c, times * (2 if self.again else 1)) for i, c in enumerate(shape)])
        r = [go((i,), c, 1) for i, c in enumerate(shape)]
        return r, calls

    def check(self, run):
        r, calls = self.expected((), self.shape)
        if run.result != ('ok', r):
            return 'map returned %r, expected %r' % (run.result, r)
        if collections.Counter(run.calls) != collections.Counter(calls):
            return 'called for %r, expected %r' % (sorted(run.calls), sorted(calls))


class Concurrent(Scenario):
    """Several threads that are no workers map at the same time."""
    def __init__(self, workers, clients, items, nested=False):
        self.workers, self.clients, self.items, self.nested = workers, clients, items, nested
        self.name = 'concurrent(workers=%d,clients=%d,items=%d%s)' % (workers, clients, items, ',nested' if nested else '')

    def body(self, run):
        s = scheduler(run, self.workers)
        results = {}

        def f(x):
            run.calls.append(x)
            run.point()
            if self.nested and len(x) == 2:
                return (x, s.map(f, [x + (0,)]))
            return x

        def client(c):
            results[c] = s.map(f, [(c, i) for i in range(self.items)])
        ts = [shims.threading.Thread(target=client, args=(c,)) for c in range(1, self.clients)]
        for t in ts:
            t.start()
        client(0)
        for t in ts:
            t.join()
        s.shutdown()
        return sorted(results.items())

    def check(self, run):
        def f(x):
            return (x, [x + (0,)]) if self.nested else x
        want = [(c, [f((c, i)) for i in range(self.items)]) for c in range(self.clients)]
        if run.result != ('ok', want):
            return 'maps returned %r, expected %r' % (run.result, want)
        exp = [(c, i) for c in range(self.clients) for i in range(self.items)]
        if self.nested:
            exp += [x + (0,) for x in exp]
        if sorted(run.calls) != sorted(exp):
            return 'called for %r, expected %r' % (sorted(run.calls), sorted(exp))


L = ()

def c_s01(tier):
    driver.load()
    rep = util.Report('S01', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []
    for p in ('run', 'rr', 'new'):
        for n in (0, 1, 2, 3):
            for items in ((), (1,), (1, 2), (2, 2), (3, 1, 2), ([], {}, [])):
                if n != 2 and len(items) == 3 and not deep:
                    b = 1
                else:
                    b = 2 if n < 3 or deep else 1
                cfg.append((Flat(n, items), p, b + (1 if deep and n == 2 and len(items) < 3 else 0)))
        cfg.append((Flat(2, (1, 2, 3, 4)), p, 1 + deep))
        cfg.append((Flat(2, (1, 2), times=2), p, 1 + deep))
        cfg.append((Flat(2, (1, 2), wait=True), p, 1 + deep))
        cfg.append((Flat(3, (1, 2, 3), wait=True), p, 1 + deep))
        cfg.append((Flat(2, (1, 2), kind='iter'), p, 1))
        cfg.append((Flat(2, (1, 2), kind='tuple'), p, 1))
        for n in (1, 2, 3):
            for shape in ((L,), ((L,),), ((L, L),), ((L,), (L,)), ((L, L), (L, L)), (((L,),),), ((((L,),),),), (L, ((L, L), L))):
                cfg.append((Nested(n, shape), p, 1 + (deep or (n < 3 and len(repr(shape)) < 16))))
            cfg.append((Nested(n, ((L, L), L), again=True), p, 1))
            for clients in (2, 3):
                cfg.append((Concurrent(n, clients, 2), p, 1 + deep))
            cfg.append((Concurrent(n, 2, 1, nested=True), p, 1 + deep))
            cfg.append((Concurrent(n, 2, 2, nested=True), p, 1))
    driver.explore(rep, cfg)
    return rep.finish()


# -- S02 --------------------------------------------------------------------------

NAMES = ('n0', 'n1', 'n2', 'n3', 'n4')

class Graph(Scenario):
    """map_with_dependencies over a graph given as {item: dependencies}."""
    def __init__(self, workers, deps, srcs=None, nested=False, wait=False, kind='list'):
        self.workers, self.deps, self.nested, self.wait, self.kind = workers, deps, nested, wait, kind
        self.srcs = tuple(deps) if srcs is None else tuple(srcs)
        self.inputs = '%s%s%s' % (','.join('%s>%s' % (k, '+'.join(v)) for k, v in deps.items()),
                                  '' if srcs is None else '/' + ','.join(srcs), '/' + kind if kind != 'list' else '')
        self.name = 'graph(workers=%d,%s%s%s)' % (workers, self.inputs, ',nested' if nested else '', ',waits' if wait else '')

    def body(self, run):
        s = scheduler(run, self.workers)
        run.deps_calls = []

        def depends(x):
            run.deps_calls.append(x)
            run.point()
            return iter(self.deps[x]) if self.kind == 'iter' else list(self.deps[x])

        def f(x):
            run.calls.append(x)
            run.events.append(('start', x))
            if self.wait:
                with s.interruptible():
                    run.point()
            run.point()
            run.events.append(('end', x))
            return 'r' + x

        def go(_=None):
            return s.map_with_dependencies(depends, f, iter(self.srcs) if self.kind == 'iter' else list(self.srcs))
        try:
            return s.map(go, [1])[0] if self.nested else go()
        finally:
            s.shutdown()

    def check(self, run):
        items = set(self.srcs)
        deps = {x: [d for d in self.deps[x] if d in items] for x in items}
        reach = {}
        for x in items:
            seen, todo = set(), list(deps[x])
            while todo:
                d = todo.pop()
                if d not in seen:
                    seen.add(d)
                    todo += deps[d]
            reach[x] = seen
        loop = {x for x in items if x in reach[x]}
        done = set()
        for kind, x in run.events:
            if kind == 'start':
                for d in deps[x]:
                    if d not in done:
                        return '%s was processed before its dependency %s had finished' % (x, d)
            else:
                done.add(x)
        if len(run.calls) != len(set(run.calls)):
            return 'processed %r' % (run.calls,)
        kind, value = run.result
        if loop:
            import fbuild.sched
            if kind != 'exc' or not isinstance(value, fbuild.sched.DependencyLoop):
                return 'the loop through %s ended with %s %r' % (', '.join(sorted(loop)), kind, value)
            named = {n for n in NAMES if n in str(value)}
            if not named or not named <= loop:
                return 'the error for the loop through %s says %r' % (', '.join(sorted(loop)), str(value))
            return None
        if kind != 'ok':
            return 'ended with %r' % (value,)
        if sorted(value) != sorted('r' + x for x in items):
            return 'returned %r for %r' % (value, self.srcs)
        if set(run.calls) != items:
            return 'processed %r of %r' % (run.calls, self.srcs)
        at = {r: i for i, r in enumerate(value)}
        for x in items:
            for d in deps[x]:
                if at['r' + d] > at['r' + x]:
                    return 'in the results %r, %s comes before its dependency %s' % (value, x, d)


def graphs(n, loops):
    names = NAMES[:n]
    edges = [(a, b) for a in names for b in names if loops or a != b]
    for r in range(len(edges) + 1):
        for es in itertools.combinations(edges, r):
            yield {a: [b for x, b in es if x == a] for a in names}


def dags(n):
    """All acyclic graphs over n items, in every order of the items."""
    for g in graphs(n, False):
        seen = {}

        def visit(x):
            if seen.get(x) == 1:
                return False
            if x not in seen:
                seen[x] = 1
                if not all(visit(d) for d in g[x]):
                    return False
                seen[x] = 2
            return True
        if all(visit(x) for x in g):
            yield g


def c_s02(tier):
    driver.load()
    rep = util.Report('S02', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []
    for n in (1, 2):
        for g in graphs(n, True):
            for w in (1, 2, 3):
                for p in ('run', 'rr', 'new'):
                    cfg.append((Graph(w, g), p, 2 if w == 2 or deep else 1))
    for g in graphs(3, True):
        for w, p, b in ((1, 'run', 0), (2, 'run', 1 if deep else 0), (2, 'rr', 0), (3, 'new', 0)):
            cfg.append((Graph(w, g), p, b))
    for g in dags(3):
        cfg.append((Graph(2, g), 'run', 1 + deep))
        cfg.append((Graph(2, g), 'rr', 1))
        cfg.append((Graph(3, g), 'rr', 1))
    for g in (dags(4) if not deep else graphs(4, False)):
        cfg.append((Graph(2, g), 'rr', 1 if deep and len(repr(g)) < 60 else 0))
        cfg.append((Graph(3, g), 'new', 0))
    diamond = {'n0': ['n1', 'n2'], 'n1': ['n3'], 'n2': ['n3'], 'n3': []}
    fan = {'n0': [], 'n1': ['n0'], 'n2': ['n0'], 'n3': ['n0']}
    chain = {'n2': ['n1'], 'n1': ['n0'], 'n0': []}
    special = [
        Graph(2, diamond), Graph(3, diamond), Graph(2, fan), Graph(3, fan), Graph(2, chain), Graph(1, diamond),
        Graph(2, diamond, wait=True), Graph(3, fan, wait=True), Graph(2, diamond, nested=True), Graph(1, diamond, nested=True),
        Graph(2, chain, nested=True, wait=True),
        # dependencies that are not among the items, repeated ones, iterators
        Graph(2, {'n0': ['n1', 'x'], 'n1': ['y'], 'n2': ['x']}),
        Graph(2, diamond, srcs=('n0', 'n1', 'n3')), Graph(2, diamond, srcs=('n1', 'n2')),
        Graph(2, {'n0': ['n1', 'n1'], 'n1': []}), Graph(2, chain, srcs=('n2', 'n1', 'n2', 'n0', 'n0')),
        Graph(2, diamond, kind='iter'), Graph(2, {}),
    ]
    for g in special:
        for p in ('run', 'rr', 'new'):
            cfg.append((g, p, 1 + (deep or (g.workers == 2 and p == 'run'))))
    outcomes = driver.explore(rep, cfg)
    # the order depends on nothing but the inputs
    by = {}
    for i, outs in outcomes.items():
        for o in outs:
            by.setdefault(cfg[i][0].inputs, {}).setdefault(o, cfg[i][0].name)
    for inputs, outs in by.items():
        if len(outs) > 1 and not rep.violations:
            rep.violation('order/' + inputs, 'the results of %s depend on the schedule: %s' % (inputs, sorted(outs)), sorted(outs.items()))
    rep.coverage['inputs'] = len(by)
    # nor on the hashes of the items: CPython, where the order of sets depends on them
    if not rep.violations:
        try:
            p = subprocess.run(['/usr/bin/python3', '-W', 'ignore', '-m', 'mc.checks.hashorder', '4'],
                               cwd=util.VERIF, stdout=subprocess.PIPE, timeout=200)
        except subprocess.TimeoutExpired:
            raise RuntimeError('the runs with permuted hashes did not end')
        if p.returncode:
            raise RuntimeError('the runs with permuted hashes failed')
        res = json.loads(p.stdout.decode())
        rep.coverage['hash_orders'] = res['count']
        if res['wrong']:
            rep.violation('hash-order', res['wrong'], res)
    return rep.finish()


# -- S03 --------------------------------------------------------------------------

class Empty(Exception):
    """An exception that counts as false."""
    def __len__(self):
        return 0


RAISES = {'bad': Boom, 'exit': SystemExit, 'odd': GeneratorExit, 'empty': Empty, 'stop': StopIteration}


class Failures(Scenario):
    """shape: items are 'ok', what RAISES lists, or tuples of items (nested maps);
    ('catch', items...) handles the failure of the nested map and goes on."""
    def __init__(self, workers, shape, after=True, deps=False, wait=False):
        self.workers, self.shape, self.after, self.deps, self.wait = workers, shape, after, deps, wait
        self.name = 'failures(workers=%d,%r%s%s)' % (workers, shape, ',deps' if deps else '', ',waits' if wait else '')

    def body(self, run):
        s = scheduler(run, self.workers)
        out = {}

        def node(arg):
            path, what = arg
            run.calls.append(path)
            if self.wait:
                with s.interruptible():
                    run.point()
            run.point()
            if what in RAISES:
                raise RAISES[what](repr(path))
            if isinstance(what, tuple):
                if what and what[0] == 'catch':
                    try:
                        return run_map(path, what[1:])
                    except Boom:
                        # and the scheduler still works
                        return ['handled', s.map(lambda x: x + 1, [1, 2])]
                return run_map(path, what)
            return what

        def run_map(path, items):
            args = [(path + (i,), w) for i, w in enumerate(items)]
            if self.deps:
                return s.map_with_dependencies(lambda a: [args[0]] if a is not args[0] else [], node, args)
            return s.map(node, args)
        try:
            out['r'] = ('ok', run_map((), self.shape))
        except tuple(RAISES.values()) as e:
            out['r'] = ('exc', type(e).__name__, str(e))
        n = len(run.calls)
        if self.after:
            out['after'] = s.map(lambda x: (run.calls.append(('after', x)), x * 2)[1], [1, 2, 3])
        out['n'] = n
        s.shutdown()
        return out

    def possible(self, path, what):
        """The failures that can surface here; None stands for success."""
        if what in RAISES:
            return {(RAISES[what].__name__, repr(path))}
        if isinstance(what, tuple):
            items = what[1:] if what and what[0] == 'catch' else what
            fails = set()
            for i, w in enumerate(items):
                fails |= self.possible(path + (i,), w)
            if what and what[0] == 'catch':
                fails = {f for f in fails if f[0] != 'Boom'}
            return fails
        return set()

    def check(self, run):
        kind, out = run.result
        if kind != 'ok':
            return 'ended with %r' % (out,)
        fails = self.possible((), self.shape)
        r = out['r']
        must = any(f for f in fails)
        if r[0] == 'ok':
            if must:
                return 'the map returned %r although items failed' % (r[1],)
            want = self.value(self.shape)
            if r[1] != want and not self.deps:
                return 'returned %r, expected %r' % (r[1], want)
        elif (r[1], r[2]) not in fails:
            return 'raised %s(%s), the failures were %s' % (r[1], r[2], sorted(fails))
        if self.after and out['after'] != [2, 4, 6]:
            return 'the next map returned %r' % (out['after'],)
        c = collections.Counter(run.calls)
        if max(c.values()) > 1:
            return 'called more than once: %r' % [x for x in c if c[x] > 1]

    def value(self, what):
        if isinstance(what, tuple):
            if what and what[0] == 'catch':
                sub = what[1:]
                if any(f[0] == 'Boom' for f in self.possible((), sub)):
                    return ['handled', [2, 3]]
                return self.value(sub)
            return [self.value(w) for w in what]
        return what


class Shutdown(Scenario):
    """shutdown() by one thread while others are mapping, are in nested maps, ..."""
    def __init__(self, workers, shape, clients=1, when=0):
        self.workers, self.shape, self.clients, self.when = workers, shape, clients, when
        self.name = 'shutdown(workers=%d,%r,clients=%d,when=%d)' % (workers, shape, clients, when)

    def body(self, run):
        s = scheduler(run, self.workers)
        results = {}
        started = shims.threading.Semaphore(0)

        def node(arg):
            path, what = arg
            run.calls.append(path)
            started.release()
            run.point()
            if what == 'bad':
                raise Boom(path)
            if isinstance(what, tuple):
                return s.map(node, [(path + (i,), w) for i, w in enumerate(what)])
            return what

        def client(c):
            try:
                results[c] = ('ok', s.map(node, [((c, i), w) for i, w in enumerate(self.shape)]))
            except Boom as e:
                results[c] = ('exc', str(e))
        ts = [shims.threading.Thread(target=client, args=(c,)) for c in range(self.clients)]
        run.clients = [t.name for t in ts]
        for t in ts:
            t.start()
        # all of the clients' items are queued or running once each has one running
        for i in range(self.when):
            started.acquire()
        s.shutdown()
        s.shutdown()
        run.results = results
        run.shut = True
        return sorted(results.items())

    def may_stay(self, run, names):
        # Nobody takes up what is still queued after the shutdown, so the maps of
        # other threads may stay unanswered.  The workers must be gone.
        return set(names) <= set(run.clients)

    def check(self, run):
        def value(w):
            return [value(x) for x in w] if isinstance(w, tuple) else w
        for c, (kind, v) in run.results.items():
            if kind == 'ok' and v != [value(w) for w in self.shape]:
                return 'a map returned %r' % (v,)


class ShutdownAfterFailure(Scenario):
    """A map fails while other items still run or wait; shutdown follows at once."""
    def __init__(self, workers, shape):
        self.workers, self.shape = workers, shape
        self.name = 'shutdown-after-failure(workers=%d,%r)' % (workers, shape)

    def body(self, run):
        s = scheduler(run, self.workers)

        def node(what):
            run.calls.append(what)
            run.point()
            if what == 'wait':
                with s.interruptible():
                    run.point()
                    run.point()
            if what == 'bad':
                raise Boom(what)
            if isinstance(what, tuple):
                return s.map(node, what)
            return what
        try:
            s.map(node, self.shape)
        except Boom:
            run.failed = True
        s.shutdown()
        n = len(run.calls)
        run.point()
        return len(run.calls) - n

    def check(self, run):
        if run.result != ('ok', 0) or not run.failed:
            return 'ended with %r' % (run.result,)


def c_s03(tier):
    driver.load()
    rep = util.Report('S03', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []
    kinds = ('ok', 'bad', 'exit', 'empty')
    for w in (1, 2, 3):
        for p in ('run', 'rr', 'new'):
            for n in (1, 2):
                for shape in itertools.product(kinds, repeat=n):
                    if set(shape) != {'ok'} and (n == 1 or len(set(shape) & {'exit', 'empty'}) < 2):
                        cfg.append((Failures(w, shape), p, 2 if (w == 2 and p == 'run') or deep else 1))
            for shape in (('bad', 'ok', 'ok'), ('ok', 'ok', 'bad'), ('bad', 'bad', 'bad'), ('odd', 'ok'), ('stop', 'ok'), (('empty',), 'ok'),
                          (('bad',),), (('ok', 'bad'), 'ok'), (('bad', 'ok'), ('ok', 'bad')), ((('bad',),),),
                          (('catch', 'bad'),), (('catch', 'bad', 'ok'), 'ok'), (('catch', 'bad'), ('catch', 'ok', 'bad')),
                          (('catch', ('bad', 'ok')), ('ok',)), (('exit',), 'ok'), (('catch', 'exit'),), ('bad', ('ok', 'ok')),
                          ('ok', ('bad', ('ok', 'ok')))):
                cfg.append((Failures(w, shape), p, 1 + deep))
            for shape in (('bad', 'ok'), ('ok', 'bad'), (('bad',), 'ok')):
                cfg.append((Failures(w, shape, deps=True), p, 1 + deep))
                cfg.append((Failures(w, shape, wait=True), p, 1 + deep))
            cfg.append((Failures(w, ('empty', 'ok'), deps=True), p, 1))
            cfg.append((Failures(w, ('stop', 'ok'), deps=True, wait=True), p, 1))
            for shape in ((), ('ok',), (('ok',),), (('ok', 'ok'), 'ok'), (('ok',), ('ok',))):
                cfg.append((Shutdown(w, shape, 1, when=len(shape)), p, 1 + deep))
            cfg.append((Shutdown(w, ('ok', ('ok',)), 2, when=4), p, 1 + deep))
            cfg.append((Shutdown(w, ((('ok',),),), 1, when=1), p, 1 + deep))
            cfg.append((Shutdown(w, (('ok', 'ok'), ('ok', 'ok')), 1, when=2), p, 1 + deep))
            cfg.append((Shutdown(w, (('bad', 'ok'), ('ok', 'ok')), 1, when=2), p, 1 + deep))
            for shape in (('bad', 'wait'), ('bad', 'ok', 'ok', 'ok'), ('bad', ('ok', 'ok')), (('bad', 'ok'), ('ok', ('ok',)))):
                cfg.append((ShutdownAfterFailure(w, shape), p, 1 + deep))
    driver.explore(rep, cfg)
    return rep.finish()


# -- S04 --------------------------------------------------------------------------

class Exclusive(Scenario):
    """Who executes build code.  actions of a task: 'code', 'wait' (an interruptible
    section), 'fail' (an exception inside one), 'nest' (a section in a section),
    ('map', tasks...), ('boom',)."""
    def __init__(self, workers, tasks, main=(), wrap=False):
        self.workers, self.tasks, self.mainacts, self.wrap = workers, tasks, main, wrap
        self.name = 'exclusive(workers=%d,%r%s%s)' % (workers, tasks, ',main=%r' % (main,) if main else '', ',wrap' if wrap else '')

    def body(self, run):
        s = scheduler(run, self.workers)
        owner = [None]
        main = run.k.current

        def code():
            """A stretch of build code."""
            me = run.k.current
            if me is main:
                return
            for i in range(2):
                if owner[0] is not None and owner[0] is not me:
                    run.problem('%s executes build code while %s does' % (me.name, owner[0].name))
                owner[0] = me
                run.point()
                if owner[0] is not me:
                    run.problem('%s and another thread execute build code at the same time' % me.name)
            owner[0] = None

        def act(a):
            if a == 'code':
                code()
            elif a == 'wait':
                with s.interruptible() as interrupt:
                    run.overlap = getattr(run, 'overlap', 0) + 1
                    run.point()
                    interrupt()
            elif a == 'fail':
                try:
                    with s.interruptible():
                        run.point()
                        raise Boom()
                except Boom:
                    pass
            elif a == 'nest':
                with s.interruptible():
                    with s.interruptible():
                        run.point()
                    run.point()
            elif a[0] == 'map':
                s.map(task, a[1:])
            elif a[0] == 'boom':
                raise Boom()
            code()

        def task(acts):
            code()
            for a in acts:
                act(a)
            run.calls.append(1)
            code()
            return 1
        try:
            if self.wrap:
                with s.interruptible():
                    r = s.map(task, self.tasks)
            else:
                r = s.map(task, self.tasks)
        except Boom:
            r = 'boom'
        for a in self.mainacts:
            # the calling thread does this while workers may be busy
            act(a)
        t = None
        if self.mainacts:
            t = shims.threading.Thread(target=lambda: s.map(task, self.tasks))
            t.start()
            for a in self.mainacts:
                act(a)
            t.join()
        s.shutdown()
        return r

    def check(self, run):
        if run.result[0] != 'ok':
            return 'ended with %r' % (run.result,)


def c_s04(tier):
    driver.load()
    rep = util.Report('S04', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []
    one = (('code',), ('wait',), ('fail',), ('nest',), ('wait', 'wait'), (('map', ('code',)),),
           (('map', ('wait',), ('code',)), 'wait'), (('map', ('wait',), ('fail',)), 'nest'))
    for p in ('run', 'rr', 'new'):
        for a, b in itertools.combinations_with_replacement(one, 2):
            big = len(repr((a, b))) > 60
            cfg.append((Exclusive(2, (a, b)), p, (2 if not big and p == 'run' else 1) if not deep else (1 if big else 2)))
        for w in (1, 2, 3):
            for a in one:
                cfg.append((Exclusive(w, (a, ('wait',), ('code',))), p, 1 + (deep and w == 2)))
            for m in ('wait', 'nest', 'fail'):
                cfg.append((Exclusive(w, (('code',), ('wait', 'code')), main=(m,)), p, 1 + deep))
            cfg.append((Exclusive(w, (('code',), ('wait', 'code')), main=(('map', ('code',)), 'wait')), p, 1))
            cfg.append((Exclusive(w, (('code',), ('wait', ('boom',)), ('code',)), main=('wait',)), p, 1))
            cfg.append((Exclusive(w, (('code',), ('wait', 'code')), wrap=True), p, 1 + deep))
    driver.explore(rep, cfg)
    return rep.finish()
