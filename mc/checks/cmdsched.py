"""B03 under all schedules: the real Context.execute, killableprocess and scheduler on a
model of processes.

A process is a thread of the controlled scheduler that ends when it is scheduled (or
never, or when a signal reaches it).  A time limit can pass whenever it is running.
"""
import errno
import itertools
import signal
import types

from .. import util
from ..sched import driver, kernel, shims
from ..sched.driver import Scenario, NullLogger
from .scheds import ASSUME

PIPE, STDOUT, DEVNULL = -1, -2, -3


class Process:
    def __init__(self, pid, spec):
        self.pid, self.spec = pid, spec
        self.group = 1
        self.closed = False          # its ends of the pipes
        self.status = None
        self.reaped = None           # step
        self.signals = []
        self.timer_killed = False


class OS:
    """Stands for the os module, as far as killableprocess uses it."""
    WNOHANG, WUNTRACED = 1, 2

    def __init__(self, run):
        self.run = run
        self.procs = {}
        self.child = None
        self.names = itertools.count(100)

    def spawn(self, spec, preexec_fn):
        p = Process(next(self.names), spec)
        self.procs[p.pid] = p
        self.child = p
        try:
            if preexec_fn:
                preexec_fn()
        finally:
            self.child = None
        if p.group != p.pid:
            self.run.problem('a command is started in the process group of the build')

        def life():
            what = spec[0]
            if what in '03i':
                kernel.point()
            elif what == 'c':
                kernel.point()
                p.closed = True
                kernel.point()
                kernel.point()
            elif what == 'n':
                kernel.K.block(lambda: p.signals)
            if p.status is None:
                self.end(p, {'0': 0, 'c': 0, '3': 3, 'i': -2, 'n': 99}[what])
        kernel.K.spawn(life, 'process-%d' % p.pid)
        return p

    def end(self, p, status):
        if p.status is None:
            p.status = status
            p.closed = True

    def setsid(self):
        if self.child is not None:
            self.child.group = self.child.pid

    def setpgrp(self):
        self.setsid()

    def getpgid(self, pid):
        kernel.point()
        p = self.procs[pid]
        if p.reaped is not None:
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        return p.group

    def killpg(self, pg, sig):
        kernel.point()
        if pg == 1:
            self.run.problem('the process group of the build is killed')
            return
        self.kill(pg, sig, False)

    def kill(self, pid, sig, point=True):
        if point:
            kernel.point()
        p = self.procs[pid]
        if p.reaped is not None:
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        p.signals.append(sig)
        if p.status is None:
            p.timer_killed = sig == signal.SIGKILL and isinstance(shims.current_thread(), Timer)
            self.end(p, -int(sig))

    def __getattr__(self, name):
        import os
        return getattr(os, name)


class FakePopen:
    """Stands for subprocess.Popen."""
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, **kw):
        self.args = args
        self.returncode = None
        self.pid = None
        run = kernel.K.mcrun
        run.execs[args[1]]['stdin'] = stdin
        kernel.point()
        if args[0][0] == 'x':
            raise FileNotFoundError(errno.ENOENT, 'No such file', args[0])
        self._p = run.os.spawn(args[0], preexec_fn)
        run.execs[args[1]]['p'] = self._p
        self.pid = self._p.pid
        if kw.get('start_new_session') or kw.get('process_group') == 0:
            self._p.group = self.pid

    def communicate(self, input=None, timeout=None):
        if timeout is not None and not shims._wait(lambda: self._p.closed, timeout):
            import subprocess
            raise subprocess.TimeoutExpired(self.args, timeout)
        shims._wait(lambda: self._p.closed)
        kernel.point()
        self.wait()
        return b'out', b'err'

    def wait(self, timeout=None):
        if timeout is not None and not shims._wait(lambda: self.returncode is not None or self._p.status is not None, timeout):
            import subprocess
            raise subprocess.TimeoutExpired(self.args, timeout)
        shims._wait(lambda: self.returncode is not None or self._p.status is not None)
        if self.returncode is None:
            self._p.reaped = kernel.K.step
            self.returncode = self._p.status
        return self.returncode

    def poll(self):
        kernel.point()
        if self.returncode is None and self._p.status is not None:
            self._p.reaped = kernel.K.step
            self.returncode = self._p.status
        return self.returncode

    def send_signal(self, sig):
        self.poll()
        if self.returncode is None:
            kernel.K.mcrun.os.kill(self.pid, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()


class Timer(shims.Timer):
    def run(self):
        self.finished.wait(1)
        if not self.finished._flag:
            k = kernel.K
            k.mcrun.expired.setdefault(self.mc_for(), k.step)
            self.function(*self.args, **self.kwargs)
        self.finished.set()

    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(interval, function, args, kwargs)
        me = shims.current_thread()
        run = kernel.K.mcrun
        self._mc = run.current.get(me)

    def mc_for(self):
        return self._mc


class Commands(Scenario):
    """tasks: one tuple per task of commands: 0, 3 (exit status), i (ended by an interrupt), n (never ends),
    c (closes its output before it ends), x (cannot be started); t: with a time limit, g: its errors are ignored;
    'w': something that only takes time.  main: the commands of the main thread, which is interrupted
    while it waits (I)."""

    def __init__(self, workers, tasks, main=()):
        self.workers, self.tasks, self.main = workers, tasks, main
        self.name = 'commands(workers=%d,tasks=%s,main=%s)' % (workers, ';'.join(' '.join(t) for t in tasks), ' '.join(main))

    def body(self, run):
        import fbuild.context
        import fbuild.sched
        import fbuild.subprocess.killableprocess as kp
        kernel.K.mcrun = run
        run.os = OS(run)
        run.execs = {}
        run.expired = {}
        run.current = {}
        run.inside = []
        kp.os = run.os
        s = fbuild.sched.Scheduler(self.workers, logger=NullLogger())
        run.keep.append(s)
        ctx = object.__new__(fbuild.context.Context)
        ctx.scheduler = s
        ctx.logger = NullLogger()
        run.keep.append(ctx)

        def code():
            if run.inside:
                run.problem('two tasks run at the same time')
            run.inside.append(1)
            run.point()
            run.inside.pop()

        def execute(name, spec, code=code):
            rec = run.execs[name] = {'spec': spec, 'p': None, 'out': None, 'done': None}
            me = shims.current_thread()
            run.current[me] = name
            try:
                rec['out'] = ('ok',) + ctx.execute([spec, name], timeout=5 if 't' in spec else None, ignore_error='g' in spec)
            except (Exception, KeyboardInterrupt) as e:
                rec['out'] = ('exc', e)
            rec['done'] = kernel.K.step
            code()

        def task(arg):
            i, specs = arg
            code()
            for j, spec in enumerate(specs):
                if spec == 'w':
                    code()
                else:
                    execute('task%d.%d' % (i, j), spec)
            return i
        run.interrupted = False
        if self.main:
            def interrupter():
                k = kernel.K
                k.block(lambda: run.armed and k.main.cond is not None or run.ended)
                if not run.ended and run.armed:
                    run.interrupted = True
                    shims.interrupt_main()
            run.armed = run.ended = run.interrupted = False
            if 'I' in self.main:
                shims.threading.Thread(target=interrupter).start()
            for j, spec in enumerate(self.main):
                if spec == 'I':
                    run.armed = True
                else:
                    execute('main.%d' % j, spec, lambda: None)
            run.armed = False
            run.ended = True
        r = s.map(task, list(enumerate(self.tasks)))
        if s.map(lambda x: x, [1]) != [1]:
            run.problem('the scheduler does not work any more')
        s.shutdown()
        return r

    def may_stay(self, run, names):
        # a command that was interrupted but goes on
        return all(n.startswith('process-') for n in names) and getattr(run, 'interrupted', False)

    def check(self, run):
        if run.result != ('ok', list(range(len(self.tasks)))):
            return 'ended with %r' % (run.result,)
        import fbuild
        for name, rec in sorted(run.execs.items()):
            spec, p, out = rec['spec'], rec['p'], rec['out']
            e = out[1] if out[0] == 'exc' else None
            timed = type(e) is fbuild.ExecutionTimedOut
            text = '%s (%s): %r' % (name, spec, out)
            if name in run.expired and run.expired[name] > rec['done']:
                return '%s, and its time limit is still running afterwards' % text
            if spec[0] == 'x':
                if not isinstance(e, FileNotFoundError):
                    return '%s instead of an error' % text
                continue
            if isinstance(e, KeyboardInterrupt) and (spec[0] != 'i' or run.interrupted):
                if not (name.startswith('main') and run.interrupted) and not (p and p.status == -2):
                    return '%s without an interruption' % text
                if p is not None and p.status is None and signal.SIGINT not in p.signals:
                    return '%s but the command was not interrupted' % text
                continue
            if p.reaped is None and not isinstance(e, KeyboardInterrupt):
                return '%s but the process was not waited for' % text
            if p.timer_killed:
                if not timed:
                    return '%s instead of ExecutionTimedOut' % text
                continue
            if timed:
                if name not in run.expired or run.expired[name] > p.reaped:
                    return '%s although it ended in time' % text
                continue
            if isinstance(e, KeyboardInterrupt):
                if p.status != -2 and not run.interrupted:
                    return '%s for the status %s' % (text, p.status)
                continue
            if p.status == -2:
                return '%s instead of KeyboardInterrupt' % text
            if p.status == 0 or 'g' in spec:
                if out != ('ok', b'out', b'err'):
                    return '%s instead of the output' % text
            elif type(e) is not fbuild.ExecutionError or (e.returncode, e.stdout, e.stderr) != (p.status, b'out', b'err'):
                return '%s for the status %s' % (text, p.status)

    def key(self, run):
        return repr(sorted((n, r['out'][0] if r['out'] and r['out'][0] == 'ok' else r['out'] and type(r['out'][1]).__name__)
                           for n, r in run.execs.items()))


def schedules(rep, deep):
    driver.load()
    import fbuild.context
    import fbuild.subprocess.killableprocess as kp
    kp.Popen.__bases__ = (FakePopen,)
    real = kp.subprocess
    kp.subprocess = types.ModuleType('subprocess')
    kp.subprocess.__dict__.update(vars(real))
    kp.subprocess.Popen = FakePopen
    fbuild.context.threading = types.ModuleType('threading')
    fbuild.context.threading.__dict__.update(vars(shims.threading))
    fbuild.context.threading.Timer = Timer
    cfg = []
    cmds = ('0', '0t', '3t', 'nt', 'ct', 'it', 'xt', '3gt')
    for p in ('run', 'rr', 'new'):
        for w in (1, 2):
            for c in cmds:
                cfg.append((Commands(w, ((c,),)), p, 2))
                cfg.append((Commands(w, ((c,), ('w', 'w'))), p, 2 if deep or (w == 2 and p == 'run') else 1))
                cfg.append((Commands(w, ((c, '0t'), ('w',))), p, 1))
            for a, b in itertools.combinations_with_replacement(cmds, 2):
                cfg.append((Commands(w, ((a,), (b,))), p, 2 if deep else 1))
        for c in cmds:
            cfg.append((Commands(1, (('w',),), main=('I', c)), p, 2))
            cfg.append((Commands(2, ((c,), ('w',)), main=(c, 'I', '0t')), p, 1 + deep))
    driver.explore(rep, cfg)
