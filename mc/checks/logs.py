"""Check S07: the log under all schedules."""
import collections
import re
import sys

from .. import util
from ..sched import driver, kernel, shims
from ..sched.driver import Scenario

ASSUME = [
    'threads switch only between statements that touch shared state and at the operations of threading and queue, which are atomic; '
    'a write to the log file or the terminal is atomic',
    'all schedules with at most the stated number of deviations from the base policies, for the stated tasks',
    'every task ends its last line; the terminal line of check() without a result is left open by design and only judged in the log file',
]


class Sink:
    """A file that takes each write whole."""
    encoding = 'utf-8'

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return ''.join(self.parts)


class Boom(Exception):
    pass


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Logging(Scenario):
    """How tasks log.  Programs of tasks: l log, v log above the verbosity, V write above the
    verbosity in mid-line, w an unfinished write, n a finishing write, L several lines in one
    write, c check with a result, C check without one, p passed, u unbuffered, o an object that
    is not a string, e an empty line, i wait, x fail, (program, ...) a nested map."""

    def __init__(self, tasks, workers=None, main='', threadcount=None, verbose=0, show=False, times=1):
        self.tasks, self.workers, self.main, self.verbose, self.show, self.times = tuple(tasks), workers, main, verbose, show, times
        self.threadcount = threadcount or workers or len(tasks)
        self.name = 'logging(%s;%s%s%s%s%s)' % (
            self.tasks, 'workers=%d' % workers if workers else 'threads', ';main=' + main if main else '',
            ';verbose=%d' % verbose if verbose else '', ';threadcount=%d' % threadcount if threadcount else '',
            ';show' if show else '')
        self.openterm = 'C' in repr((tasks, main))

    def start(self, k):
        run = driver.Run(self, k)
        run.out = Sink()
        run.saved = sys.stdout
        sys.stdout = run.out
        close = run.close

        def restore():
            sys.stdout = run.saved
            close()
        run.close = restore
        return run

    def body(self, run):
        import fbuild.console
        run.file = Sink()
        log = fbuild.console.Log(run.file, threadcount=self.threadcount, verbose=self.verbose, nocolor=True, show_threads=self.show)
        run.written = collections.OrderedDict()    # task -> [(text, verbosity)]
        sched = None
        if self.workers:
            import fbuild.sched
            sched = fbuild.sched.Scheduler(self.workers, logger=log)
            run.keep.append(sched)

        def program(who, ops):
            mine = run.written[who] = []
            count = [0]

            def text(end=''):
                count[0] += 1
                return '<%s:%d>%s' % (who, count[0], end)
            for op in ops:
                if op == 'l':
                    t = text()
                    mine.append((t + '\n', 0))
                    log.log(t)
                elif op == 'v':
                    t = text()
                    mine.append((t + '\n', self.verbose + 1))
                    log.log(t, verbose=self.verbose + 1)
                elif op == 'V':
                    t = text()
                    mine.append((t, self.verbose + 1))
                    log.write(t, verbose=self.verbose + 1)
                elif op == 'w':
                    t = text()
                    mine.append((t, 0))
                    log.write(t)
                elif op == 'n':
                    t = text('\n')
                    mine.append((t, 0))
                    log.write(t)
                elif op == 'L':
                    t = text('\n') + text('\n')
                    mine.append((t, 0))
                    log.write(t)
                elif op == 'c':
                    a, b = text(), text()
                    mine.append((a, 0))
                    mine.append((b + '\n', 0))
                    log.check(a, b)
                elif op == 'C':
                    a = text()
                    mine.append((a, 0))
                    mine.append(('\n', self.verbose + 1))
                    log.check(a)
                elif op == 'p':
                    t = text()
                    mine.append((t + '\n', 0))
                    log.passed(t)
                elif op == 'u':
                    t = text('\n')
                    mine.append((t, 0))
                    log.write(t, buffer=False)
                elif op == 'o':
                    t = text()
                    mine.append((t + '\n', 0))
                    log.log(Obj(t), color='red')
                elif op == 'e':
                    mine.append(('\n', 0))
                    log.log('')
                elif op == 'i':
                    if sched is not None:
                        with sched.interruptible():
                            run.point()
                    else:
                        run.point()
                elif op == 'x':
                    raise Boom()
                elif isinstance(op, tuple):
                    try:
                        mapped(who, op)
                    except Boom:
                        pass
                else:
                    raise kernel.HarnessError(op)

        def mapped(who, progs):
            def task(arg):
                i, ops = arg
                program('%s%d' % (who, i), ops)
            n = getattr(run, 'maps', 0)
            run.maps = n + 1
            sched.map(task, [(n * 10 + i, ops) for i, ops in enumerate(progs)])

        if sched is not None:
            ts = []
            if self.main:
                ts = [shims.threading.Thread(target=lambda: program('main', self.main), name='client')]
                ts[0].start()
            for i in range(self.times):
                try:
                    mapped('t', self.tasks)
                except Boom:
                    pass
            for t in ts:
                t.join()
            sched.shutdown()
        else:
            def thread(i, ops):
                with log.log_from_thread():
                    try:
                        program('t%d' % i, ops)
                    except Boom:
                        pass
            ts = [shims.threading.Thread(target=thread, args=(i, ops), name='thread-%d' % i) for i, ops in enumerate(self.tasks)]
            for t in ts:
                t.start()
            program('main', self.main)
            for t in ts:
                t.join()

    def check(self, run):
        if run.result[0] != 'ok':
            return 'ended with %r' % (run.result[1],)
        for what, sink, level in (('log file', run.file, 1 << 30), ('terminal', run.out, self.verbose)):
            if what == 'terminal' and self.openterm:
                continue
            text = sink.getvalue()
            # alignment and thread names are no matter
            if self.show:
                text = re.sub(r'(?m)^(client|thread-\d+|Thread-\d+|MainThread) *: ', '', text)
            text = re.sub(r'> *: ', '>', text)
            want, ends = {}, []
            for who in run.written:
                t = ''.join(t for t, v in run.written[who] if v <= level)
                ls = t.split('\n')
                want[who] = [l + '\n' for l in ls[:-1]]
                if ls[-1]:
                    # never finished: what follows it does so on the same line
                    if text.count(ls[-1]) != 1:
                        return 'the %s has %d times %r: %r' % (what, text.count(ls[-1]), ls[-1], text)
                    text = text.replace(ls[-1], '\0%s\0' % who)
                    want[who].append('\0%s\0' % who)
            got, at, bad = [], 0, False
            while at < len(text):
                m = re.compile('\0[^\0]*\0' if text[at] == '\0' else '[^\n\0]*\n').match(text, at)
                if not m:
                    bad = True
                    break
                got.append(m.group())
                at = m.end()
            a = collections.Counter(got)
            b = collections.Counter(l for ls in want.values() for l in ls)
            if bad or a != b:
                return 'the %s is %r; missing: %r, unexpected: %r' % (what, text.replace('\0', '~'), list((b - a).elements()), list((a - b).elements()))
            for who, ls in want.items():
                mine = [l for l in got if l.startswith('<%s:' % who) or l == '\0%s\0' % who]
                if mine != [l for l in ls if l != '\n']:
                    return 'in the %s, the lines of %s come in the order %r' % (what, who, mine)

    def key(self, run):
        return repr(run.file.getvalue() if hasattr(run, 'file') else None)


def c_s07(tier):
    driver.load()
    import fbuild.console      # noqa
    rep = util.Report('S07', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []

    def add(bound, *args, **kw):
        for p in ('run', 'rr', 'new'):
            cfg.append((Logging(*args, **kw), p, bound + deep))
    one = ('l', 'wn', 'lwn', 'wnwn', 'c', 'cwn', 'nwn', 'L', 'wLn', 'u', 'wun', 'o', 'lVn', 'ww', 'lw', 'vl', 'wVn', 'e', 'Cp', 'lx', 'wx')
    for i, a in enumerate(one):
        for b in one[i:]:
            add(2 if len(a) + len(b) < 4 else 1, (a, b), verbose=(i % 2))
        add(1, (a, 'lwn'), workers=2)
        add(1, (a, 'wn', 'c'), workers=2)
        add(1, (a, 'lwn', 'wun'))
        add(1, (a, 'wn'), main='lcl' if 'w' not in a else 'lo')
    for w in (1, 2, 3):
        add(1, ('lwn', 'wn', 'lc'), workers=w, threadcount=max(2, w))
        add(1, (('w', ('wn', 'l'), 'n'), 'lwn'), workers=w, threadcount=max(2, w))
        add(1, (('l', 'w', ('l', 'wn'), 'n', 'l'),), workers=w, threadcount=max(2, w))
        add(1, (('w', ('l', ('w', ('l',), 'n')), 'n'),), workers=w, threadcount=max(2, w))
        add(1, (('w', ('lx', 'wn'), 'n'), 'win'), workers=w, threadcount=max(2, w))
        add(1, ('win', 'wi' 'n', 'liwn'), workers=w, threadcount=max(2, w))
        add(1, ('win', 'lwn'), workers=w, main='lcl', threadcount=max(2, w))
        add(1, ('wn', 'lwn'), workers=w, times=2, threadcount=max(2, w))
    add(2, ('ln', 'cl'), workers=2, show=True)
    add(2, ('ln', 'cl'), show=True, main='c')
    # one thread: nothing is held back
    add(2, ('lwn', 'cvl', 'Cp'), workers=1, threadcount=1)
    add(2, ('lwnux', 'wo'), workers=1, threadcount=1)
    add(1, (('l', ('wn', 'l'), 'n'),), workers=1, threadcount=1)
    add(1, ('wn',), threadcount=1)
    driver.explore(rep, cfg)
    return rep.finish()
