"""Check S08: a build that is interrupted, at every point of every schedule.

The real fbuild.main.main runs a build script under the controlled scheduler, with the
real scheduler, database thread and storage; the queues are those of Python's library on
the stand-in locks, because a signal can come in the middle of their operations.  A SIGINT
is one more alternative at every scheduling point: whatever main thread is doing or waiting
for, its handler runs there.
"""
import collections
import importlib.util
import os
import signal as _signal
import sys
import types

from .. import util
from ..sched import driver, kernel, loader, shims
from ..sched.driver import Scenario, NullLogger
from . import parbuild

ASSUME = [
    'a signal is handled, and threads switch, between statements of fbuild.main, fbuild.context, fbuild.sched, fbuild.rpc, fbuild.db.database and '
    'queue that touch shared state, at marked points of the build functions, and before the operations of locks and conditions, which are '
    'not interrupted half way (Python has gaps of its own there); what the database thread does for one request is one step',
    'all schedules with at most the stated number of signals and other deviations from the base policies, for the stated builds',
    'a signal that comes after the targets have run may cost what they recorded if it comes before the state is being saved',
    'sources are not put back to earlier contents after the interrupted build',
]

PROGRAMS = dict(parbuild.PROGRAMS)
PROGRAMS.update({
    # the main thread makes the calls itself
    'seq': ("[called(leaf, ctx, 'a', 'sa'), called(slow, ctx, 'b', 'sb'), called(gen, ctx, 'a', 'sa')]", 'ab', ['leaf', 'slow', 'gen']),
    'many': ("ctx.pmap(lambda y: called(slow, ctx, y, 's' + y), ['a', 'b', 'c', 'd', 'e', 'f'])", 'abcdef', ['slow']),
    'one': ("ctx.pmap(lambda y: called(slow, ctx, y, 's' + y), ['a'])", 'a', ['slow']),
    'mixed': ("[chain(ctx, 'a'), ctx.pmap(lambda x: called(pair, ctx, x), ['a', 'b']), called(top, ctx, 'x', 'ab')]", 'ab', ['gen']),
})


EXTRA = '''
@fbuild.db.caches
def stopped(ctx, x, src: fbuild.db.SRC):
    v = 'stopped0'
    ran('stopped', x)
    with ctx.scheduler.interruptible():
        point()
    if x == 'b' and not again():
        # what execute() does when the command was ended by SIGINT
        raise KeyboardInterrupt
    return v, x, read(src)
'''
PROGRAMS.update({
    'stopped': ("ctx.pmap(lambda y: called(stopped, ctx, y, 's' + y), ['a', 'b', 'c'])", 'abc', ['stopped']),
    'stoppedin': ("ctx.pmap(lambda f: f(), [lambda: ctx.pmap(lambda y: called(stopped, ctx, y, 's' + y), ['c', 'b']), lambda: called(slow, ctx, 'a', 'sa')])",
                  'abc', ['stopped', 'slow']),
})


class Signals(types.ModuleType):
    """Stands for the signal module."""

    def __init__(self):
        super().__init__('signal')
        self.__dict__.update({n: getattr(_signal, n) for n in dir(_signal) if n.startswith('SIG') or n in ('Signals', 'Handlers')})
        self.installed = None

    def default_int_handler(self, signum=None, frame=None):
        raise KeyboardInterrupt

    def reset(self, kind):
        self.installed = _signal.SIG_IGN if kind == 'ignored' else self.default_int_handler

    def getsignal(self, signum):
        return self.installed if signum == _signal.SIGINT else _signal.SIG_DFL

    def signal(self, signum, handler):
        kernel.point()
        old = self.getsignal(signum)
        if signum == _signal.SIGINT:
            self.installed = handler
        return old

    def siginterrupt(self, *args):
        pass

    def deliver(self):
        h = self.installed
        if h == _signal.SIG_IGN or h is None:
            return
        if h == _signal.SIG_DFL:
            raise Killed()
        h(int(_signal.SIGINT), None)


signals = Signals()


hooks_stop = [False]
saved = [None]


class Killed(BaseException):
    """SIGINT with its default action ends the process."""


class Log(NullLogger):
    file = None

    def __init__(self, *args, **kwargs):
        self.threadcount = kwargs.get('threadcount', 1)


def prepare():
    """fbuild, with the main program, for the controlled scheduler."""
    if 'signal' not in shims.MODULES:
        shims.MODULES['signal'] = signals
        # the real queues, on the stand-in locks
        import queue
        path = queue.__file__
        spec = importlib.util.spec_from_file_location('mc_queue', path, loader=loader.Loader('mc_queue', path))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)

        def polite(get):
            def wrapper(self, block=True, timeout=None):
                try:
                    return get(self, block, timeout)
                except m.Empty:
                    if not block and kernel.K is not None and not kernel.K.aborted:
                        kernel.K.yield_()
                    raise
            return wrapper
        m.Queue.get = polite(m.Queue.get)
        shims.MODULES['queue'] = m
    driver.load()


def load(program):
    """A new process, as far as fbuild can tell."""
    if parbuild._loaded[0] == ('main', program):
        return False
    for n in list(sys.modules):
        if n == 'fbuild' or n.startswith('fbuild.') or n in ('fbuildroot', 'mchooks'):
            del sys.modules[n]
    text = parbuild.PREFIX + EXTRA + '\n\ndef build(ctx):\n    ctx.pmap = ctx.scheduler.map\n    result = %s\n    finished(result)\n' % PROGRAMS[program][0]
    text = text.replace('from mchooks import ', 'from mchooks import finished, again, ')
    d = os.path.join(util.scratch_root(), 'mains-%d-%d' % (os.getuid(), os.getpid()), program)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'fbuildroot.py')
    if not os.path.exists(path):
        with open(path, 'w') as f:
            f.write(text)
    import fbuild.console
    fbuild.console.Log = Log
    import fbuild.db
    mod = parbuild.hooks.module()
    mod.finished = lambda r: parbuild.hooks.results.append(r)
    mod.again = lambda: not hooks_stop[0]
    sys.modules['mchooks'] = mod
    spec = importlib.util.spec_from_file_location('fbuildroot', path)
    root = importlib.util.module_from_spec(spec)
    sys.modules['fbuildroot'] = root
    spec.loader.exec_module(root)
    import fbuild.main
    import fbuild.db.database
    close = fbuild.db.database.Database.close

    def closing(self, *args, **kwargs):
        if saved[0] is not None and kernel.K is not None:
            saved[0].saving = kernel.K.step
        return close(self, *args, **kwargs)
    fbuild.db.database.Database.close = closing
    fbuild.context.print = fbuild.main.print = lambda *args, **kwargs: None
    parbuild._loaded[0] = ('main', program)
    return True


def main(engine, workers):
    import fbuild.main
    parbuild.hooks.reset()
    parbuild.hooks.results = []
    sys.argv = ['fbuild', '--no-warnings', '--database-engine', engine, '-j%d' % workers, '--buildroot', 'b', 'build']
    return fbuild.main.main(sys.argv)


def sequential(engine):
    """A build nobody interrupts: its result, what it executed."""
    k = kernel.Kernel('run', {}, 200000)
    k.handler = signals.deliver
    signals.reset('default')
    hooks_stop[0] = False
    saved[0] = None
    out = []

    def body():
        try:
            out.append(('ok', main(engine, 1)))
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            out.append(('exc', repr(e)))
    o = k.run(body)
    if o != 'done' or not out:
        return ('stuck', o, repr(k.main.exc)), ()
    return out[0] + (parbuild.hooks.results,), tuple(sorted({(n, x) for n, x, t, who in parbuild.hooks.ran}, key=repr))


def raw():
    out = {}
    for d, dirs, files in os.walk('.'):
        for n in files:
            p = os.path.join(d, n)
            if not p.startswith(('./b/.tmp', './b/fbuild.log')):
                with open(p, 'rb') as f:
                    out[p] = f.read()
    return out


def clear():
    import shutil
    for n in os.listdir('.'):
        if os.path.isdir(n):
            shutil.rmtree(n)
        else:
            os.remove(n)


def restore(files):
    clear()
    for n, data in files.items():
        os.makedirs(os.path.dirname(n), exist_ok=True)
        with open(n, 'wb') as f:
            f.write(data)
        os.utime(n, (parbuild.OLD, parbuild.OLD))


class Interrupted(Scenario):
    max_steps = 40000
    whole = True

    def __init__(self, program, engine, workers, number=1, kind='default', again=False):
        # again: the interrupted build comes after a complete one, and an edit of every source
        self.program, self.engine, self.workers, self.number, self.kind, self.again = program, engine, workers, number, kind, again
        self.name = 'interrupted(%s,%s,workers=%d%s%s%s)' % (
            program, engine, workers, ',signals=%d' % number if number != 1 else '', ',' + kind if kind != 'default' else '', ',again' if again else '')
        self.ready = None
        self.whole = number < 2
        self.eager = 6 if program == 'many' else None

    def prepare(self):
        if self.ready != os.getpid():
            self.ready = os.getpid()
            prepare()
            self.dir = os.path.join(util.scratch_root(), 'w%d' % os.getpid())
            os.makedirs(self.dir, exist_ok=True)
            os.chdir(self.dir)
            clear()
            self.seen = {}

            def reference():
                self.sources()
                load(self.program)
                if self.again:
                    res = sequential(self.engine)
                    self.sources('edited-')
                start = raw()
                return start, sequential(self.engine)
            kind, res = parbuild.in_child(reference)
            if kind != 'ok':
                raise kernel.HarnessError(res)
            self.template, self.ref = res
        os.chdir(self.dir)
        if load(self.program):
            # what is computed once per process
            restore(self.template)
            sequential(self.engine)

    def sources(self, text='text-'):
        for c in PROGRAMS[self.program][1]:
            parbuild.write('s' + c, ('bad-' if self.program == 'handled' and c == 'b' else text) + c)

    def start(self, k):
        self.prepare()
        restore(self.template)
        def deliver():
            if run.begun is None:
                run.begun = len(parbuild.hooks.ran)
            signals.deliver()
        k.handler = deliver
        signals.reset(self.kind)
        k.signals = self.number
        # nobody can rule out a signal in the gaps Python leaves; but Fbuild must not interrupt itself there
        k.gaps = not self.number
        hooks_stop[0] = True
        run = driver.Run(self, k)
        run.ended = run.begun = run.saving = run.state = None
        saved[0] = run
        return run

    def body(self, run):
        try:
            return main(self.engine, self.workers)
        finally:
            run.ended = parbuild.hooks.tick()
            run.results = list(parbuild.hooks.results)
            # the process ends here, whatever its other threads are doing
            run.state = raw()
            kernel.K.signals = 0

    def may_stay(self, run, names):
        # daemons end with the process; if they still do something after the main thread, check() finds it
        return bool(run.k.sent) and all(t.obj is not None and t.obj.daemon for t in run.k.threads if t.name in names)

    def check(self, run):
        h = parbuild.hooks
        if self.ref[0][0] != 'ok':
            return 'a build that is not interrupted ends with %r' % (self.ref[0],)
        sent = len(run.k.sent) + (self.program.startswith('stopped') and any(r[:2] == ['stopped', 'b'] for r in h.calls))
        kind, value = run.result
        late = h.ran and max(t for n, x, t, who in h.ran) > run.ended
        if late and sent < 2:
            return 'the build has ended, and still makes calls'
        if kind == 'ok' or self.kind == 'ignored':
            if kind != 'ok':
                return 'SIGINT is ignored, and the build ended with %r' % (value,)
            if run.results != self.ref[0][2]:
                return 'the build gave %r instead of %r' % (run.results, self.ref[0][2])
        elif not isinstance(value, KeyboardInterrupt):
            return 'ended with %r' % (value,)
        elif not sent:
            return 'ended with %r, and nobody interrupted it' % (value,)
        if self.eager is not None and len(run.k.deviations) == 1 and sent == 1 and kind == 'exc':
            begun = run.begun
            if begun is not None and begun <= 2 and len(h.ran) >= self.eager:
                return 'all of the tasks are run, although the build was interrupted when only %d of them had begun' % begun
        # calls that were answered before the targets were left
        answered = sorted({(n, x) for n, x, a, b, failed in h.calls if b is not None and not failed}, key=repr)
        state = run.state
        kept = sent < 2 and (not run.results or kind == 'ok' or run.saving is not None and run.k.sent and run.k.sent[0] > run.saving)
        key = (repr(answered), kept, repr(sorted(state.items())))
        if key not in self.seen:
            def resume():
                restore(state)
                parbuild._loaded[0] = None
                load(self.program)
                return sequential(self.engine)
            kind2, res = parbuild.in_child(resume)
            if kind2 != 'ok':
                raise kernel.HarnessError(res)
            self.seen[key] = None
            got, ran = res
            if got != self.ref[0]:
                self.seen[key] = 'after it, a build gives %r instead of %r' % (got, self.ref[0])
            elif kept:
                again = [c for c in answered if c in ran]
                if again:
                    self.seen[key] = 'the next build executes %s again' % again
        return self.seen[key]

    def key(self, run):
        r = run.result
        return repr((r and r[0], r and type(r[1]).__name__, sorted({(n, x) for n, x, t, who in parbuild.hooks.ran}, key=repr)))


# -- the same with real signals and commands ------------------------------------------

SCRIPT = """
import os
import fbuild.db
from fbuild.path import Path

def log(text):
    with open('LOG', 'a') as f:
        f.write(text + '\\n')

def command(ctx, n, text):
    # the command number n of the build is where it happens
    if os.environ.get('MC_AT') == str(n):
        # (what the shell starts has to be stopped as well as the shell)
        text = {'parent': 'sleep ' + os.environ.get('MC_WAIT', '0') + '; kill -INT $PPID; sh -c "sleep 0.4; %s; echo late >> LATE"; true',
                'self': 'kill -INT $$; sleep 5; %s'}[os.environ['MC_HOW']] % text
    ctx.execute(['sh', '-c', text], 'sh', text)

@fbuild.db.caches
def gen(ctx, dst) -> fbuild.db.DST:
    dst = Path(dst).addroot(ctx.buildroot)
    command(ctx, 0, 'echo gen > %s' % dst)
    log('gen')
    return dst

@fbuild.db.caches
def obj(ctx, n, src: fbuild.db.SRC) -> fbuild.db.DST:
    dst = Path(src).addroot(ctx.buildroot).replaceext('.o')
    command(ctx, n, 'cat %s > %s' % (src, dst))
    log('obj %d' % n)
    return dst

@fbuild.db.caches
def link(ctx, dst, srcs: fbuild.db.SRCS) -> fbuild.db.DST:
    dst = Path(dst).addroot(ctx.buildroot)
    command(ctx, 4, 'cat %s > %s' % (' '.join(srcs), dst))
    log('link')
    return dst

def build(ctx):
    g = gen(ctx, 'gen.h')
    objs = ctx.scheduler.map(lambda n: obj(ctx, n, 'abc'[n - 1] + '.c'), [1, 2, 3])
    link(ctx, 'prog', [g] + objs)
"""

def real(rep):
    """Every command of a real build, interrupted or interrupting the build."""
    import subprocess
    import time
    jobs = [(engine, j, n, how, ignored) for engine in ('pickle', 'sqlite') for j in (1, 2, 4) for n in range(5)
            for how, ignored in (('parent', False), ('self', False), ('parent', True)) if not ignored or j == 2]

    def one(job):
        # the signal may come before the command counts as started: give it more time
        for wait in (0.2, 2, 6):
            wrong = attempt(job, wait)
            if wrong != late or job[3] != 'parent':
                break
        return wrong
    late = 'the command of the main thread goes on after the build was interrupted'

    def attempt(job, wait):
        engine, j, n, how, ignored = job
        d = os.path.join(util.scratch_root(), 'real-%d-%s' % (os.getpid(), '-'.join(map(str, job + (wait,)))))
        os.makedirs(d)
        os.chdir(d)
        with open('fbuildroot.py', 'w') as f:
            f.write(SCRIPT)
        for c in 'abc':
            with open(c + '.c', 'w') as f:
                f.write(c + '\n')

        def build(**more):
            env = dict(os.environ, PYTHONPATH=os.path.join(util.REPO, 'lib'), **more)
            code = ('import signal, sys; signal.signal(signal.SIGINT, %s); import fbuild.main; '
                    'sys.argv = ["fbuild", "--database-engine", %r, "-j%d"]; sys.exit(fbuild.main.main())' % (
                        'signal.SIG_IGN' if ignored and more else 'signal.default_int_handler', engine, j))
            with open('OUT', 'w') as out:
                p = subprocess.Popen([sys.executable, '-c', code], env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT,
                                     start_new_session=True)
                try:
                    p.wait(60)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, _signal.SIGKILL)
                    p.wait()
                    return 'hangs', ''
            with open('OUT') as f:
                return p.returncode, f.read()

        def ran():
            try:
                with open('LOG') as f:
                    lines = f.read().split('\n')[:-1]
                os.remove('LOG')
                return lines
            except FileNotFoundError:
                return []
        every = {'gen', 'obj 1', 'obj 2', 'obj 3', 'link'}
        rc, out = build(MC_AT=str(n), MC_HOW=how, MC_WAIT=str(wait))
        first = ran()
        if ignored:
            # the command takes no notice of a signal to the build either
            if rc != 0 or set(first) != every:
                return 'SIGINT is ignored, and the build ended with %s after %s: %s' % (rc, first, out[-600:])
        elif rc == 'hangs':
            return 'the build does not end'
        elif rc == 0 or 'KeyboardInterrupt' not in out:
            return 'the build was interrupted, and ended with %s: %s' % (rc, out[-600:])
        elif how == 'self' or n in (0, 4):
            # the command did not get to its end
            time.sleep(0.6)
            if os.path.exists('LATE'):
                return late
            if {0: 'gen', 4: 'link'}.get(n, 'obj %d' % n) in first:
                return 'the call whose command was interrupted goes on: %s' % first
        rc, out = build()
        second = ran()
        if rc != 0:
            return 'after the interrupted build, the next one ends with %s: %s' % (rc, out[-600:])
        with open('build/prog') as f:
            prog = f.read()
        if prog != 'gen\na\nb\nc\n':
            return 'after the interrupted build, the next one makes %r' % prog
        if sorted(first + second) != sorted(every):
            return 'the interrupted build executed %s, the next one %s' % (first, second)
    for i, wrong in util.run_jobs(jobs, one):
        rep.add(traces_validated_against_impl=1, transitions=10, states=2)
        if isinstance(wrong, tuple):
            raise RuntimeError('harness error in %s:\n%s' % (jobs[i], wrong[1]))
        if wrong:
            rep.violation('real/%s/%s' % ('-'.join(map(str, jobs[i])), wrong[:60].replace(' ', '_')),
                          'command %d of the real build (%s, -j%d, %s%s): %s' % (
                              jobs[i][2], jobs[i][0], jobs[i][1], jobs[i][3], ', ignored' if jobs[i][4] else '', wrong), {'job': jobs[i]})


def c_s08(tier):
    prepare()
    rep = util.Report('S08', 'model_checking', ASSUME)
    deep = tier == 'thorough'
    cfg = []
    for p in ('seq', 'flat2', 'many', 'tops', 'pairsame', 'mixed', 'chains', 'handled', 'recursive', 'exts'):
        for w, pol in ((1, 'run'), (2, 'rr'), (2, 'run'), (3, 'new')):
            if deep or (w, pol) in ((1, 'run'), (2, 'rr')):
                cfg.append((Interrupted(p, 'pickle', w), pol, 1))
    for p in ('seq', 'flat2', 'mixed', 'chains'):
        cfg.append((Interrupted(p, 'sqlite', 2), 'run', 1))
        cfg.append((Interrupted(p, 'pickle', 2, again=True), 'run', 1))
    for p in ('seq', 'flat2'):
        cfg.append((Interrupted(p, 'pickle', 2, kind='ignored'), 'run', 1))
    for p in ('stopped', 'stoppedin'):
        for w, pol in ((1, 'run'), (2, 'rr'), (2, 'new'), (3, 'run')):
            cfg.append((Interrupted(p, 'pickle', w, number=0), pol, 1))
        cfg.append((Interrupted(p, 'sqlite', 2, number=0), 'run', 1))
    # two signals, or a signal and another deviation
    for p in ('one',) + (('seq', 'flat2') if deep else ()):
        for w, pol in ((1, 'run'), (2, 'rr'))[:1 + deep]:
            cfg.append((Interrupted(p, 'pickle', w, number=2), pol, 2))
    if os.environ.get('MC_DBG'):
        a, b = os.environ['MC_DBG'].split(':')
        cfg = cfg[int(a):int(b)]
    real(rep)
    driver.explore(rep, cfg)
    return rep.finish()
