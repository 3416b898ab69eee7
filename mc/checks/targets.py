"""B01: which targets run, in what order, and what a failure leaves behind."""
import itertools

from .. import hist, sweep, util
from ..sweep import Bad

BODY = '''
import T, sys
import fbuild.target
from T import caches

@caches
def work(ctx, name):
    T.run('work', name)
    return name

def body(ctx, name):
    T.note('target', name)
    assert work(ctx, name) == name

@CONF@def configure(ctx):
@CONF@    body(ctx, 'configure')

@BUILD@def build(ctx):
@BUILD@    "Builds it"
@BUILD@    body(ctx, 'build')
@BUILD@    ctx.install_destdir = 'dest'
@BUILD@    ctx.install('fbuildroot.py', 'share')

@fbuild.target.register()
def x(ctx):
    body(ctx, 'x')

@fbuild.target.register(name='y-y', help='the other one')
def y(ctx):
    body(ctx, 'y-y')
    ctx.install_destdir = 'dest'

@fbuild.target.register()
def bad(ctx):
    body(ctx, 'bad')
    raise T.Error('this target fails')

@fbuild.target.register()
def boom(ctx):
    body(ctx, 'boom')
    raise ValueError('a bug')

@fbuild.target.register()
def quit(ctx):
    body(ctx, 'quit')
    sys.exit(3)

@fbuild.target.register()
def intr(ctx):
    body(ctx, 'intr')
    raise KeyboardInterrupt()

@HOOK@def pre_install(ctx):
@HOOK@    ctx.install_destdir = 'dest'
@HOOK@    T.note('pre', T.exists('dest/usr/local/share/fbuildroot.py'))

@HOOK@def post_install(ctx):
@HOOK@    T.note('post', T.exists('dest/usr/local/share/fbuildroot.py'))
'''

FAILS = {'bad': ['exit', 1], 'boom': ['raised', 'ValueError'], 'quit': ['exit', 3], 'intr': ['raised', 'KeyboardInterrupt']}
NAMES = ('configure', 'build', 'install', 'x', 'y-y', 'bad', 'boom', 'quit', 'intr', 'nosuch')


def script(variant):
    t = BODY
    for k in ('CONF', 'BUILD', 'HOOK'):
        t = t.replace('@%s@' % k, '' if k in variant else '#')
    return t


def model(variant, targets, earned, earned_now, installed):
    """(events, status) of one run; updates what is earned."""
    known = {'x', 'y-y', 'bad', 'boom', 'quit', 'intr'}
    if 'CONF' in variant:
        known.add('configure')
    if 'BUILD' in variant:
        known.add('build')
    todo = list(targets) or ['build']
    ev = []
    if 'install' in todo[:-1]:
        return ev, ['exit', 1]
    if todo[-1] == 'install' and set(todo) <= {'configure', 'install'}:
        todo = todo[:-1] + ['build', 'install']
    marked = False
    for t in todo:
        if t == 'install':
            if 'HOOK' in variant:
                ev.append(('note', "('pre', %r)" % installed[0]))
            if marked:
                installed[0] = True
            if 'HOOK' in variant:
                ev.append(('note', "('post', %r)" % installed[0]))
            continue
        if t not in known:
            return ev, ['exit', 1]
        ev.append(('note', "('target', %r)" % t))
        if t not in earned_now:
            ev.append(('run', 'work', "tuple('%s')" % t))
            earned_now.add(t)
        if t == 'build':
            marked = True
        if t in FAILS:
            return ev, FAILS[t]
    return ev, ['ok', 0]


def one(case, wd):
    variant, engine, runs = case
    hist.write_scripts(wd, {'fbuildroot': script(variant)})
    earned, installed = set(), [False]
    states = []
    n = 0
    for argv in runs:
        now = set(earned)
        opts = [a for a in argv if a.startswith('-')]
        targets = [a for a in argv if not a.startswith('-')]
        if '--rebuild' in opts:
            now = set()
        if '--clean' in opts:
            now = set()
            ev, st = [], ['ok', None]
        elif '--dump-state' in opts:
            ev, st = [], ['ok', 0]
        elif [o for o in opts if o.startswith('--delete-function=')]:
            st = ['ok', 0] if now and 'fbuildroot.work' in opts[0] else ['exit', 1]
            if st[0] == 'ok':
                now = set()
            ev = []
        else:
            ev, st = model(variant, targets, earned, now, installed)
        if '--do-not-save-database' not in opts:
            earned = now
        full = ['fbuild', '--database-engine', engine] + opts + targets
        res = hist.real_build(wd, full, [])
        n += 1
        got = [e for e in res['events']]
        if got != ev:
            raise Bad('order', '%s ran %s instead of %s' % (full, got, ev))
        if st[0] == 'raised':
            if res['status'][:2] != st:
                raise Bad('status', '%s ended with %s instead of raising %s' % (full, res['status'], st[1]))
        elif list(res['status']) != st:
            raise Bad('status', '%s ended with %s instead of %s' % (full, res['status'], st))
        import os
        if '--clean' in opts:
            if os.path.exists(os.path.join(wd, 'build')):
                raise Bad('clean', '%s left the build directory' % full)
        t = sweep.tree(wd, skip=('build',))
        want = {'fbuildroot.py'}
        # the destination is created even if there is nothing to install
        extra = set(t) - want
        if installed[0]:
            if t.get('dest/usr/local/share/fbuildroot.py', ('', 0, b''))[2] != script(variant).encode():
                raise Bad('install', '%s did not install the marked file' % full)
            extra -= {'dest/usr/local/share/fbuildroot.py'}
        extra = {e for e in extra if t[e][0] != 'dir'}
        if extra:
            raise Bad('files', '%s left %s' % (full, sorted(extra)))
        states.append((variant, engine, tuple(sorted(earned)), installed[0]))
    return states, n, {'script': variant, 'engine': engine, 'runs': runs}


def cases(deep):
    full = ('CONF', 'BUILD', 'HOOK')
    after = [['x', 'y-y', 'configure', 'build', 'bad']]
    short = [list(p) for r in range(3) for p in itertools.product(NAMES, repeat=r)]
    core = ('configure', 'build', 'install', 'x', 'bad', 'nosuch')
    long = [list(p) for r in range(3, 5 if deep else 4) for p in itertools.product(NAMES if r == 3 else core, repeat=r)]

    def ok(variant, ts):
        # without build nothing names a destination inside the scratch directory
        if 'install' in ts and 'HOOK' not in variant and not ('BUILD' in variant and (
                'build' in ts[:-1] or set(ts) <= {'configure', 'install'})):
            return False
        return True
    for ts in short + long:
        yield full, 'pickle', [ts] + after
    for ts in short:
        yield full, 'sqlite', [ts] + after
        for v in (('BUILD',), ('CONF', 'HOOK'), ('HOOK',), ('CONF', 'BUILD')):
            if ok(v, ts):
                yield v, 'pickle', [ts, ts]
    opts = [['--clean'], ['--dump-state'], ['--delete-function=fbuildroot.work'], ['--delete-function=nosuch'], ['--rebuild'],
            ['--do-not-save-database']]
    for e in ('pickle', 'sqlite'):
        for o, ts, first in itertools.product(opts, [[], ['x'], ['nosuch'], ['bad', 'x'], ['configure', 'install']],
                                              [[], ['x', 'build'], ['y-y', 'boom']]):
            yield full, e, [first, o + ts] + after
            yield full, e, [o + ts] + after


def b01(tier):
    rep = util.Report('B01', 'model_checking', [
        'targets are deterministic; a target is what the build script registers, plus configure, build and install'])
    hist.warm()
    cs = list(cases(tier == 'thorough'))
    sweep.run(rep, cs, one, lambda c, kind: ('%s/%s/%s' % (kind, c[1], ';'.join(' '.join(r) for r in c[2]))).replace(' ', ','),
              fork=False, sample_every=700)
    rep.coverage['exhaustive'] = True
    return rep.finish()
