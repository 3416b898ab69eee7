"""B03: running commands.

Real processes: every combination of what a command prints, how it ends, and how it
is run.  Schedules: the real Context.execute, killableprocess and scheduler on a
model of processes, under all schedules up to a bound, with the time limit passing
and the user interrupting at every point where they can.
"""
import errno
import itertools
import os
import signal
import subprocess
import sys
import threading
import time

from .. import hist, sweep, util
from ..sweep import Bad
from .scheds import ASSUME

BIG = 150000


def printed(what, fd):
    if what == 'text':
        return b'fd %d: caf\xc3\xa9\n  second line \n\n' % fd
    if what == 'bin':
        return b'\xff\x00\xfe\n\x80 '
    if what == 'big':
        return bytes(10 if i % 97 == 96 else 97 + (i + fd) % 26 for i in range(BIG))
    return b''


_big = {}

def expected(what, fd):
    if (what, fd) not in _big:
        _big[what, fd] = printed(what, fd)
    return _big[what, fd]


OUTS = (('none', 'none'), ('text', 'none'), ('none', 'text'), ('bin', 'text'), ('text', 'bin'), ('big', 'big'))
ENDS = ('0', '1', '2', '127', '255', 's9', 's15', 's2', 's11')
INPUTS = (None, b'', b'hello\n', b'x' * BIG)


def status(end):
    return -int(end[1:]) if end[0] == 's' else int(end)


def normal_cases(deep):
    for (o, e), end, ign, tmo, inp, where in itertools.product(
            OUTS, ENDS, (False, True), (None, 60), INPUTS, ('main', 'task', 'tasks')):
        if not deep and where == 'tasks' and (tmo or (o, e) in OUTS[1:4]):
            continue
        yield 'ends', dict(out=o, err=e, mode='plain' if inp is None else 'cat', end=end), \
            dict(ignore_error=ign, timeout=tmo, input=inp), where
    for end, shell, text, quieter, msgs in itertools.product(('0', '3', 's15'), (False, True), (False, True), (0, 1), (0, 1, 2)):
        kw = dict(quieter=quieter, ignore_error=False, timeout=None, input=None)
        if shell:
            kw['shell'] = True
        if text:
            kw['universal_newlines'] = True
        if msgs:
            kw.update(msg1='msg', msg2=None if msgs == 1 else 'file name', color='green')
        yield 'ways', dict(out='text', err='text', mode='plain', end=end), kw, 'main'
    for stdout, stderr in itertools.product(('pipe', 'null', 'stdout'), repeat=2):
        yield 'streams', dict(out='text', err='text', mode='plain', end='0', stdout=stdout, stderr=stderr), \
            dict(ignore_error=False, timeout=None, input=None), 'main'


def hang_cases(deep):
    for mode, (o, e), ign, where in itertools.product(('hang', 'hold', 'deaf'), OUTS if deep else (OUTS[0], OUTS[1], OUTS[5]), (False, True),
                                                      ('main', 'task', 'tasks')):
        yield 'limit', dict(out=o, err=e, mode=mode, end='0'), dict(ignore_error=ign, timeout=0.2, input=None), where


def start_cases(deep):
    for what, tmo, ign, where in itertools.product(('missing', 'notexec', 'directory', 'format', 'cwd', 'preexec'), (None, 60), (False, True),
                                                   ('main', 'task', 'tasks')):
        yield 'start', dict(what=what), dict(ignore_error=ign, timeout=tmo, input=None), where


def env_cases(deep):
    for env, libs, preset, cwd, pre in itertools.product(
            (None, {}, {'MC_A': '1', 'MC_B': ''}, {'LD_LIBRARY_PATH': '/mine'}, {'PATH': '/nowhere'}),
            (None, [], ['/l1'], ['/l1', 'l2']), (None, '/set', ''), (False, True), (False, True)):
        yield 'env', dict(env=env, libs=libs, preset=preset, cwd=cwd, pre=pre), {}, 'main'


def make_context():
    import fbuild.context
    ctx = fbuild.context.make_default_context(['--no-color', '-j', '2'])
    ctx.create_buildroot()
    ctx.load_configuration()
    return ctx


def left_behind(ctx, before, what):
    for t in threading.enumerate():
        if t not in before and isinstance(t, threading.Timer):
            t.join(5)
            if t.is_alive():
                raise Bad('timer', 'a timer is still running after %s' % what)
    # everything that was started has ended and was waited for
    try:
        pid, st = os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        pass
    else:
        raise Bad('process', 'a process is %s after %s' % ('not waited for' if pid else 'still running', what))


def usable(ctx, what):
    """Tasks still run, one at a time."""
    done = []
    def go():
        done.append(ctx.scheduler.map(lambda x: x + 1, [1, 2, 3]))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(20)
    if done != [[2, 3, 4]]:
        raise Bad('rights', 'the scheduler does not run tasks any more after %s' % what)


def run_where(ctx, where, fn):
    """Outcome of fn() run here, in a task, or in a task beside others."""
    if where == 'main':
        return outcome(fn)
    out = []
    inside = []

    def task(i):
        if i == 0:
            out.append(outcome(fn))
            inside.append(1)
            if len(inside) != 1:
                raise Bad('rights', 'two tasks run at the same time')
            inside.pop()
        else:
            with ctx.scheduler.interruptible():
                pass
    ctx.scheduler.map(task, range(1 if where == 'task' else 3))
    return out[0]


def outcome(fn):
    try:
        return ('ok',) + tuple(fn())
    except Bad:
        raise
    except BaseException as e:
        return ('exc', e)


def session(cases, prog, wd):
    """Many commands, one after the other, with one context."""
    import fbuild
    os.chdir(wd)
    sys.stdout = open('out', 'w')
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
    os.dup2(1, 2)
    ctx = make_context()
    before = set(threading.enumerate())
    ctx.scheduler.map(lambda x: x, [1, 2])
    before = set(threading.enumerate())
    bad, kinds = [], set()
    for i, case in cases:
        what = 'case %d %r' % (i, case)
        try:
            kinds.add(one(ctx, fbuild, case, prog, wd, what, before))
            left_behind(ctx, before, what)
        except Bad as e:
            bad.append((i, e.kind, e.text))
        except BaseException as e:
            import traceback
            bad.append((i, 'failed', '%s\n%s' % (what, traceback.format_exc()[-600:])))
        if len(bad) > 5:
            break
    try:
        usable(ctx, 'the commands')
    except Bad as e:
        bad.append((cases[-1][0], e.kind, e.text))
    else:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()
    return len(cases), kinds, bad


def one(ctx, fbuild, case, prog, wd, what, before):
    group, spec, kw, where = case
    if group == 'start':
        return start(ctx, case, wd, what)
    if group == 'env':
        return env(ctx, case, prog, wd, what)
    kw = dict(kw)
    cmd = [prog, spec['out'], spec['err'], spec['mode'], spec['end']]
    if kw.get('shell'):
        cmd = ' '.join(cmd)
    for s in ('stdout', 'stderr'):
        if spec.get(s) == 'null':
            kw[s] = subprocess.DEVNULL
        elif spec.get(s) == 'stdout':
            kw[s] = subprocess.STDOUT if s == 'stderr' else None
    t0 = time.monotonic()
    r = run_where(ctx, where, lambda: ctx.execute(cmd, kw.pop('msg1', None), kw.pop('msg2', None), **kw))
    out, err = expected(spec['out'], 1), expected(spec['err'], 2)
    if kw['input'] and spec['mode'] == 'cat':
        out += kw['input']
    st = status(spec['end'])
    if group == 'streams':
        o, e = spec['stdout'], spec['stderr']
        if e == 'stdout':
            out += err
            err = None
        want = (None if o != 'pipe' else out, None if e != 'pipe' else err)
        if r != ('ok',) + want:
            raise Bad('output', '%s gave %r instead of %r' % (what, r, want))
        return group, o, e
    if kw.get('universal_newlines'):
        out, err = out.decode(), err.decode()
    if group == 'limit':
        if r[0] != 'exc' or type(r[1]) is not fbuild.ExecutionTimedOut:
            raise Bad('limit', '%s gave %r instead of ExecutionTimedOut' % (what, short(r)))
        check_error(r[1], cmd, out, err, -9, what)
        if time.monotonic() - t0 > 25:
            raise Bad('limit', '%s went on until the command ended' % what)
        return group, spec['mode'], kw['ignore_error']
    if st == -signal.SIGINT:
        if r[0] != 'exc' or type(r[1]) is not KeyboardInterrupt:
            raise Bad('interrupt', '%s gave %s instead of KeyboardInterrupt' % (what, short(r)))
    elif st == 0 or kw['ignore_error']:
        if r != ('ok', out, err):
            raise Bad('output', '%s gave %s instead of %s' % (what, short(r), short(('ok', out, err))))
    else:
        if kw.get('shell') and st < 0:
            # the shell may tell of it in its own way
            st = r[1].returncode if r[0] == 'exc' and getattr(r[1], 'returncode', 0) in (st, 128 - st) else st
            if r[0] == 'exc' and type(r[1]) is fbuild.ExecutionError:
                err = r[1].stderr
        if r[0] != 'exc' or type(r[1]) is not fbuild.ExecutionError:
            raise Bad('error', '%s gave %s instead of ExecutionError' % (what, short(r)))
        check_error(r[1], cmd, out, err, st, what)
    return group, st, kw['ignore_error'], spec['out'], spec['err'], r[0]


def check_error(e, cmd, out, err, st, what):
    got = (e.cmd, e.stdout, e.stderr, e.returncode)
    if got != (cmd, out, err, st):
        raise Bad('report', '%s reported %s instead of %s' % (what, short(got), short((cmd, out, err, st))))
    str(e)


def short(r):
    t = repr(r)
    return t if len(t) < 300 else t[:150] + '...' + t[-150:]


def start(ctx, case, wd, what):
    group, spec, kw, where = case
    kw = dict(kw)
    cmd = ['./' + spec['what'], 'x y']
    want = {'missing': errno.ENOENT, 'notexec': errno.EACCES, 'directory': errno.EACCES, 'format': errno.ENOEXEC, 'cwd': errno.ENOENT}
    if spec['what'] == 'notexec':
        open('notexec', 'w').close()
        os.chmod('notexec', 0o644)
    elif spec['what'] == 'directory':
        os.makedirs('directory', exist_ok=True)
    elif spec['what'] == 'format':
        with open('format', 'w') as f:
            f.write('\0\0\0not a program')
        os.chmod('format', 0o755)
    elif spec['what'] == 'cwd':
        cmd = ['true']
        kw['cwd'] = 'no such directory'
    elif spec['what'] == 'preexec':
        cmd = ['true']
        def pre():
            raise ValueError('in the child')
        kw['preexec_fn'] = pre
    r = run_where(ctx, where, lambda: ctx.execute(cmd, **kw))
    if spec['what'] == 'preexec':
        if r[0] != 'exc' or not isinstance(r[1], subprocess.SubprocessError):
            raise Bad('start', '%s gave %s instead of an error' % (what, short(r)))
    elif r[0] != 'exc' or not isinstance(r[1], OSError) or r[1].errno != want[spec['what']]:
        raise Bad('start', '%s gave %s instead of the error %s' % (what, short(r), errno.errorcode[want[spec['what']]]))
    return group, spec['what'], type(r[1]).__name__


def env(ctx, case, prog, wd, what):
    group, spec, kw, where = case
    var = 'LD_LIBRARY_PATH'
    saved = dict(os.environ)
    names = ['MC_A', 'MC_B', 'MC_KEPT', 'MC_PRE', 'PATH', var]
    try:
        os.environ['MC_KEPT'] = 'kept'
        os.environ.pop(var, None)
        if spec['preset'] is not None:
            os.environ[var] = spec['preset']
        want = dict(os.environ, **(spec['env'] or {}))
        if spec['libs']:
            want[var] = (want[var] + ':' if var in want else '') + ':'.join(spec['libs'])
        kw = {}
        if spec['env'] is not None:
            kw['env'] = dict(spec['env'])
        if spec['libs'] is not None:
            kw['runtime_libpaths'] = list(spec['libs'])
        cwd = wd
        if spec['cwd']:
            os.makedirs('sub dir', exist_ok=True)
            kw['cwd'] = 'sub dir'
            cwd = os.path.join(wd, 'sub dir')
        if spec['pre']:
            os.makedirs('pre', exist_ok=True)
            kw['preexec_fn'] = lambda: os.chdir(wd + '/pre')
            cwd = wd + '/pre'
        environ = dict(os.environ)
        r = outcome(lambda: ctx.execute([prog, 'none', 'none', 'env', '0'] + names, **kw))
        text = ''.join('%s=%s\n' % (n, want.get(n, '(unset)')) for n in names) + cwd + '\n'
        if r != ('ok', text.encode(), b''):
            raise Bad('environment', '%s gave %s instead of %s' % (what, short(r), short(text)))
        if dict(os.environ) != environ or kw.get('env', {}) != (spec['env'] or {}):
            raise Bad('environment', '%s changed the environment of its caller' % what)
    finally:
        os.environ.clear()
        os.environ.update(saved)
    return group, text.replace(wd, '')


def real_processes(rep, deep):
    root = util.scratch_root()
    prog = os.path.join(root, 'prog')
    subprocess.run(['gcc', '-O1', '-o', prog, os.path.join(os.path.dirname(__file__), 'prog.c')], check=True)
    os.chmod(prog, 0o755)
    cases = []
    for g in (normal_cases, start_cases, env_cases, hang_cases):
        cases += list(g(deep))
    indexed = list(enumerate(cases))
    jobs = [indexed[i::64] for i in range(64)]

    def job(chunk):
        wd = os.path.join(root, 'w%d' % os.getpid())
        sweep.force_remove(wd)
        os.mkdir(wd)
        try:
            return sweep.forked(session, chunk, prog, wd, timeout=300)
        finally:
            sweep.force_remove(wd)
    kinds = set()
    for n, res in util.run_jobs(jobs, job):
        if res[0] == '__error__':
            rep.violation('processes/session', 'a session of commands failed: %s' % res[1][-600:], {'cases': [c for i, c in jobs[n]][:50]})
            continue
        made, ks, bad = res
        kinds |= ks
        rep.add(transitions=made, traces_validated_against_impl=made)
        for i, kind, text in bad:
            c = cases[i]
            rep.violation(('processes/%s/%s/%s/%s/%s' % (kind, c[0], c[1], short(c[2]), c[3])).replace(' ', ''), '%s: %s' % (kind, text),
                          {'case': c, 'text': text})
    rep.add(states=len(kinds), commands_run=len(cases))
    rep.sample({'command': cases[1000]})
    rep.sample({'command': cases[-1]})


def b03(tier):
    deep = tier == 'thorough'
    rep = util.Report('B03', 'model_checking', ASSUME + [
        'processes stay in the process group they are started in',
        'the number of a process is not given to another one between the check whether it has ended and the signal',
        'the user interrupts the main thread only while it waits'])
    util.scratch_root()

    # in a process of its own, as the schedules need the modules on other primitives
    def real():
        hist.warm(0)
        import fbuild.config.c      # noqa
        import fbuild.builders.platform     # noqa
        mine = util.Report('B03', 'model_checking')
        real_processes(mine, deep)
        return mine.coverage, mine.samples, mine.violations
    res = sweep.forked(real, timeout=800)
    if res[0] == '__error__':
        raise RuntimeError(res[1])
    rep.add(**res[0])
    for s in res[1]:
        rep.sample(s)
    for v in res[2]:
        rep.violation(*v)
    from . import cmdsched
    cmdsched.schedules(rep, deep)
    rep.samples = rep.samples[:6]
    return rep.finish()
