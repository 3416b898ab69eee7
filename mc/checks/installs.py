"""B02: what installation leaves in the tree, for every kind of source and of what is
already there, every way of naming the place, and when repeated."""
import itertools
import os
import stat

from .. import hist, sweep, util
from ..sweep import Bad

SCRIPT = '''
import T
import fbuild.path

def build(ctx):
    for kind, args, kw in T.plan:
        if kind == 'install':
            ctx.install(*args, **kw)
        else:
            setattr(ctx, kind, fbuild.path.Path(args) if kw else args)
'''

SOURCES = {
    'plain': ('file', 0o644, b'plain\n'),
    'exec': ('file', 0o755, b'#!/bin/sh\n'),
    'readonly': ('file', 0o444, b'\x00\xff readonly'),
    'private': ('file', 0o600, b''),
    'link': ('link', None, 'plain'),
    'dangling': ('link', None, 'nowhere'),
    'abslink': ('link', None, '@WD@/src/exec'),
    'dirlink': ('link', None, '../dir'),
}

# What may be at the target before.
THERE = {
    'nothing': None,
    'file': ('file', 0o644, b'old contents, longer than the new ones'),
    'readonly': ('file', 0o444, b'old'),
    'link': ('link', None, '@WD@/other'),
    'dangling': ('link', None, 'missing'),
    'tosource': ('link', None, '@SRC@'),
    'dirlink': ('link', None, '@WD@/dir'),
    'hardlink': ('hard', None, 'other'),
}


def put(path, spec, wd, src=''):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    kind, mode, data = spec
    if kind == 'file':
        with open(path, 'wb') as f:
            f.write(data)
        os.chmod(path, mode)
    elif kind == 'link':
        os.symlink(data.replace('@WD@', wd).replace('@SRC@', src), path)
    else:
        os.link(os.path.join(wd, data), path)


def target_of(item, destdir, prefix):
    (path, subdir), kw = item
    d = destdir.rstrip('/')
    if subdir.startswith('/'):
        d += '/' + subdir[1:]
    else:
        d += '/' + prefix.strip('/') + '/' + subdir
    return os.path.normpath(d + '/' + (kw.get('rename') or path.rsplit('/', 1)[1]))


def one(case, wd):
    """case: (name, sources, there, destdir, prefix, plan maker arguments, runs)"""
    name, items, there, destdir, prefix, as_path, runs, argv = case
    os.umask(0o022)
    hist.write_scripts(wd, {'fbuildroot': SCRIPT})
    os.mkdir(wd + '/dir')
    put(wd + '/dir/inside', ('file', 0o644, b'inside'), wd)
    put(wd + '/other', ('file', 0o640, b'other'), wd)
    for n, s in SOURCES.items():
        put(wd + '/src/' + n, s, wd)
    dest = destdir.replace('@WD@', wd)
    expected = {}
    plan = []
    if destdir:
        plan.append(('install_destdir', dest, as_path))
    if prefix is not None:
        plan.append(('install_prefix', prefix, as_path))
    for (path, subdir), kw in items:
        p = path.replace('@WD@', wd)
        plan.append(('install', (p, subdir), kw))
        t = target_of(((p, subdir), kw), dest, '/usr/local' if prefix is None else prefix)
        t = os.path.relpath(os.path.join(wd, t), wd)
        if t.startswith('..'):
            raise AssertionError('outside: ' + t)
        kind, mode, data = SOURCES[path.rsplit('/', 1)[1]]
        if kind == 'file':
            want = ('file', kw.get('perms') if kw.get('perms') is not None else mode, data)
        else:
            want = ('link', None, data.replace('@WD@', wd))
        expected[t] = want
        if THERE[there] is not None and not os.path.lexists(os.path.join(wd, t)):
            put(os.path.join(wd, t), THERE[there], wd, os.path.abspath(os.path.join(wd, p)))
    skip = ('build', '__pycache__')
    before = sweep.tree(wd, skip)
    want = dict(before)
    want.update(expected)
    for t in expected:
        while os.path.dirname(t):
            t = os.path.dirname(t)
            want.setdefault(t, ('dir', 0o755, None))
    states = []
    for i in range(runs):
        res = hist.real_build(wd, ['fbuild'] + argv, plan)
        got = sweep.tree(wd, skip)
        if res['status'][:1] != ['ok']:
            raise Bad('failed', 'installation %d ended with %s' % (i + 1, res['status']))
        if got != want:
            diff = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))
            raise Bad('tree', 'after installation %d: %s' % (i + 1, '; '.join(
                '%s is %s, should be %s' % (p, describe(got.get(p)), describe(want.get(p))) for p in diff[:3])))
        states.append((i, tuple(sorted((k, v) for k, v in got.items() if k in expected))))
    return states, runs, {'case': case, 'installed': sorted(expected)}


def describe(e):
    if e is None:
        return 'not there'
    k, mode, data = e
    return '%s%s%s' % (k, '' if mode is None else ' 0%o' % mode, '' if data is None else ' %r' % data)


def cases(deep):
    inst = ['install']
    # every source over everything that may be there, with every kind of permissions
    for s, t, perms in itertools.product(SOURCES, THERE, (None, 0o600, 0o444, 0o755, 0o4711)):
        kw = {} if perms is None else {'perms': perms}
        yield 'kinds', [(('src/' + s, 'bin'), kw)], t, '@WD@/dest', '/usr', False, 3, inst
        yield 'kinds', [(('src/' + s, 'bin'), dict(kw, rename='new-name'))], t, 'dest', '/usr', False, 2, ['build', 'install']
    # every way to say where
    for sub, dest, prefix, rename, as_path, path in itertools.product(
            ('bin', 'share/doc/x', '/etc', '/usr/lib', '', 'lib/', '/', 'a b', 'bin//x'), ('@WD@/dest', 'dest', '@WD@/dest/', 'dest/root'),
            (None, '/opt/my', 'rel/p', '/', '', '/usr/'), (None, 'other', 'x.tar.gz'), (False, True),
            ('src/exec', '@WD@/src/link', './src/private')):
        kw = {} if rename is None else {'rename': rename}
        if not deep and as_path and rename:
            continue
        yield 'places', [((path, sub), kw)], 'nothing', dest, prefix, as_path, 1, inst
    # several files, in order
    few = [(('src/plain', 'bin'), {}), (('src/exec', 'bin'), {'perms': 0o700}), (('src/link', '/etc'), {}),
           (('src/exec', 'bin'), {'rename': 'plain'}), (('src/plain', 'bin'), {'perms': 0o444}),
           (('src/dirlink', 'bin'), {'rename': 'exec', 'perms': 0o755})]
    for n in (2, 3) if deep else (2,):
        for items in itertools.permutations(few, n):
            for there in ('nothing', 'file', 'link'):
                yield 'several', list(items), there, 'dest', '/usr', False, 2, inst


def b02(tier):
    rep = util.Report('B02', 'model_checking', [
        'what stands at a target is a file or a link; installation to a directory that needs other privileges is not covered',
        'permissions asked for a link are ignored'])
    hist.warm()
    cs = list(cases(tier == 'thorough'))
    sweep.run(rep, cs, one, lambda c, kind: ('%s/%s/%s/%s/%s/%s/%s' % (kind, c[0], c[1], c[2], c[3], c[4], c[5])).replace(' ', ''),
              fork=False, sample_every=900)
    rep.coverage['exhaustive'] = True
    return rep.finish()
