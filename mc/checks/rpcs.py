"""Check S05: the service thread under all schedules."""
import collections
import itertools

from .. import util
from ..sched import driver, kernel, shims
from ..sched.driver import Scenario

ASSUME = [
    'threads switch only between statements that touch shared state and at the operations of threading and queue, which are atomic',
    'all schedules with at most the stated number of deviations from the base policies, for the stated clients',
    'KeyboardInterrupt reaches the main thread only at those points too, while it waits',
]


class Boom(Exception):
    pass


class Odd(Exception):
    def __len__(self):
        return 0


RAISES = {'e': Boom, 'o': Odd, 's': StopIteration, 'X': SystemExit, 'K': KeyboardInterrupt, 'G': GeneratorExit}
FATAL = 'XKG'


class Service(Scenario):
    """clients: one string of calls per thread.  v: a value, n: None, e/o/s: an exception, r: an
    exception as a value, X/K/G: the handler ends with SystemExit, KeyboardInterrupt, GeneratorExit.
    main: what the main thread does: calls, J (join), J2 (join in another thread too), T (wait for
    the clients), I (a thread that interrupts the main thread while it waits), S (start)."""

    def __init__(self, clients, main, early=False):
        self.clients, self.main, self.early = clients, tuple(main), early
        self.name = 'service(%s;main=%s%s)' % (','.join(clients), ' '.join(main), ',early' if early else '')

    def body(self, run):
        import fbuild.rpc
        run.notrunning = fbuild.rpc.RPCNotRunning
        run.handled = []          # (who, n) in the order of handling
        run.calls_ = []           # [who, n, kind, outcome, begun, ended]
        run.inside = [0]
        run.clock = itertools.count()
        run.marks = {}
        run.exceptions = {}
        run.armed = False

        def handler(who, n, kind, *, extra):
            if extra != (who, n):
                run.problem('the handler of %s.%d got the keyword arguments of %r' % (who, n, extra))
            if run.inside[0]:
                run.problem('two calls are handled at once')
            run.inside[0] += 1
            run.handled.append((who, n, next(run.clock)))
            run.point()
            run.inside[0] -= 1
            if kind in RAISES:
                if kind in FATAL:
                    run.marks.setdefault('fatal', next(run.clock))
                e = run.exceptions[who, n] = RAISES[kind]('%s.%d' % (who, n))
                raise e
            if kind == 'r':
                e = run.exceptions[who, n] = Boom('%s.%d' % (who, n))
                return e
            if kind == 'n':
                return None
            return ('value', who, n)

        rpc = fbuild.rpc.RPC(handler)
        rpc.daemon = True
        run.keep.append(rpc)

        def call(who, n, kind):
            rec = [who, n, kind, None, next(run.clock), None]
            run.calls_.append(rec)
            try:
                rec[3] = ('value', rpc.call(who, n, kind, extra=(who, n)))
            except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
                rec[3] = ('exc', e)
            rec[5] = next(run.clock)
            return rec

        def client(who, kinds):
            for n, kind in enumerate(kinds):
                call(who, n, kind)

        def interrupter():
            k = kernel.K
            k.block(lambda: run.armed and k.main.cond is not None or 'ended' in run.marks)
            if 'ended' not in run.marks:
                run.marks['interrupted'] = True
                shims.interrupt_main()
        ts = [shims.threading.Thread(target=client, args=('c%d' % i, c), name='client-%d' % i) for i, c in enumerate(self.clients)]

        def begin():
            for t in ts:
                t.start()

        def join(mark=True):
            if mark:
                run.marks.setdefault('join', next(run.clock))
            rpc.join()
            run.marks.setdefault('joined', next(run.clock))
            if run.inside[0]:
                run.problem('join returned while a call is handled')
        others = []
        done = set()

        def interrupts():
            return 'interrupted' in run.marks or 'fatal' in run.marks

        def again(fn):
            while True:
                try:
                    return fn()
                except KeyboardInterrupt:
                    if not interrupts():
                        raise
        if self.early:
            begin()
        try:
            n = 0
            for a in self.main:
                if a == 'S':
                    rpc.start()
                    run.marks['started'] = next(run.clock)
                    if not self.early:
                        begin()
                elif a == 'J':
                    run.armed = True
                    again(join)
                    run.armed = False
                elif a == 'J2':
                    run.marks.setdefault('join', next(run.clock))
                    t = shims.threading.Thread(target=join, name='joiner')
                    others.append(t)
                    t.start()
                elif a == 'T':
                    for t in ts:
                        if t not in done:
                            again(t.join)
                            done.add(t)
                elif a == 'I':
                    t = shims.threading.Thread(target=interrupter, name='interrupter')
                    others.append(t)
                    t.start()
                else:
                    try:
                        run.armed = True
                        call('main', n, a)
                        run.armed = False
                    except KeyboardInterrupt:
                        if not interrupts():
                            raise
                    n += 1
        finally:
            run.marks['ended'] = True
        for t in ts + others:
            if t not in done:
                again(t.join)
        return 'finished'

    def may_stay(self, run, names):
        # a service nobody has stopped
        return 'J' not in self.main and 'J2' not in self.main and len(names) == 1

    def key(self, run):
        return repr([(r[0], r[1], r[3][0] if r[3] else None,
                      type(r[3][1]).__name__ if r[3] and r[3][0] == 'exc' else '') for r in sorted(run.calls_, key=lambda r: r[:2])]
                    ) + repr([h[:2] for h in run.handled])

    def check(self, run):
        intr = 'interrupted' in run.marks or 'fatal' in run.marks and any('K' in c for c in self.clients + self.main)
        if run.result[0] != 'ok' and not (intr and isinstance(run.result[1], KeyboardInterrupt)):
            return 'the main thread ended with %r' % (run.result[1],)
        count = collections.Counter(h[:2] for h in run.handled)
        for k, c in count.items():
            if c > 1:
                return 'the call %s.%d was handled %d times' % (k + (c,))
        started, join, joined, fatal = (run.marks.get(x) for x in ('started', 'join', 'joined', 'fatal'))
        for who, n, kind, out, begun, ended in run.calls_:
            what = 'the call %s.%d (%s)' % (who, n, kind)
            if out is None:
                if not intr:
                    return what + ' never ended'
                continue
            mine = run.exceptions.get((who, n))
            if out[0] == 'exc' and isinstance(out[1], run.notrunning):
                if count[who, n]:
                    return what + ' was refused, but also handled'
                if not (started is None or begun < started or join is not None and ended > join or fatal is not None and ended > fatal):
                    return what + ' was refused while the service was running'
                continue
            if out[0] == 'exc' and isinstance(out[1], KeyboardInterrupt) and who == 'main' and out[1] is not mine:
                if not intr:
                    return what + ' was interrupted'
                if kind in FATAL:
                    continue
            elif kind in RAISES:
                if out[0] != 'exc' or out[1] is not mine:
                    return '%s gave %s %r instead of its own exception' % (what, out[0], out[1])
            else:
                want = {'n': None, 'r': mine}.get(kind, ('value', who, n))
                if out[0] != 'value' or (out[1] != want if kind != 'r' else out[1] is not mine):
                    return '%s gave %s %r instead of %r' % (what, out[0], out[1], want)
            if not count[who, n] and not intr:
                return what + ' was answered, but not handled'
            if joined is not None and begun > joined:
                return what + ' was accepted after the service had stopped'
        if joined is not None:
            late = [h for h in run.handled if h[2] > joined]
            if late:
                return 'the call %s.%d was handled after join had returned' % late[0][:2]
        for who in {h[0] for h in run.handled}:
            ns = [h[1] for h in run.handled if h[0] == who]
            if ns != sorted(ns):
                return 'the calls of %s were handled in the order %r' % (who, ns)


def c_s05(tier):
    driver.load()
    rep = util.Report('S05', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []

    def add(clients, main, bound, early=False):
        for p, less in (('run', 0), ('rr', 0), ('new', 1), ('old', 1)):
            cfg.append((Service(tuple(clients), main.split(), early), p, max(1, bound - less) + (1 if deep else 0)))
    # calls of every kind, one to three clients, stopped when they are done
    for a in 'vneors':
        add([a], 'S T J', 3)
        add([a + 'v'], 'S T J', 2)
        for b in 'vneo':
            add([a, b], 'S T J', 2)
            add([a, b], 'S J', 2)
    add(['vev', 'evn'], 'S v T J', 1)
    add(['vv', 'vv', 'vv'], 'S T J v', 1)
    add(['ve', 'rv', 'nv'], 'S v v J v', 1)
    # the main thread calls as soon as the service has been started; and before
    add([], 'S v J', 3)
    add([], 'S v v J v J', 3)
    add([], 'v S v J', 3)
    add(['vv'], 'S v J', 2, early=True)
    add(['v', 'e'], 'S v J', 2, early=True)
    add([], 'S J v', 3)
    add([], 'J v', 2)
    # stopping while calls are queued
    add(['v'], 'S J', 4)
    add(['v', 'v'], 'S J', 3)
    add(['vv', 'ev'], 'S J v', 2)
    add(['vvv', 'vvv'], 'S J', 2)
    add(['v', 'v', 'v'], 'S J', 2)
    add(['vv'], 'S J2 J v', 2)
    add(['v', 'v'], 'S J2 v J', 2)
    add(['v'], 'S J2 J2 J', 2)
    # the handler ends the service
    for f in FATAL:
        add([f], 'S T J', 3)
        add([f + 'v'], 'S T v J', 2)
        add([f, 'v'], 'S J', 2)
        add([f, 'vv'], 'S T J', 2)
        add(['v' + f, 'vv'], 'S v J v', 1)
        add([f, 'v', 'v'], 'S T J', 1)
        add([f, f], 'S T J', 2)
        add([], 'S %s v J' % f, 2)
    # interruptions of waiting main threads
    add([], 'S I v v J', 3)
    add([], 'S I v e v J', 2)
    add(['vv'], 'S I v v v T J', 2)
    add(['v', 'v'], 'S I v v J', 1)
    add([], 'S I I v v v v J', 2)
    # nobody stops it
    add(['vv', 've'], 'S T', 1)
    driver.explore(rep, cfg)
    return rep.finish()
