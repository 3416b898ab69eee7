"""B04: incremental C builds against clean ones."""
import hashlib
import json
import os
import shutil

from .. import fakecc, hist, sweep, util
from ..sweep import Bad

ROOT = '''
import T
def build(ctx):
    T.plan['body'](ctx, T)
'''

FILES = {
    'src/main.c': ['#include "x.h"', 'use fa', 'text main'],
    'src/a.c': ['#include "x.h"', 'def fa', 'use fb', 'text a'],
    'lib/b.c': ['#include "sub/y.h"', 'def fb', 'text b'],
    'lib/c.c': ['def fc', 'text c'],
    'inc/x.h': ['#include "sub/y.h"', 'text x'],
    'inc/sub/y.h': ['text y'],
    'inc/z.h': ['text z'],
}
CONFIG = {'kind': 'static', 'macros': [], 'cflags': [], 'lflags': [], 'bsrcs': ['lib/b.c', 'lib/c.c'], 'reuse': False, 'inc': 'inc'}


# the same project with other names
ODD = [('sub/y.h', 's b/y#1$.h'), ('lib/b', 'lib/b b$'), ('x.h', 'x x.h'), ('lib/', 'l#/')]


def odd(x):
    s = json.dumps(x)
    for a, b in ODD:
        s = s.replace(a, b)
    return json.loads(s)


def apply(files, config, op, first=FILES):
    """The project after an edit (a new one)."""
    files, config = dict(files), dict(config)
    kind = op[0]
    if kind == 'text':              # its text changes, its includes stay
        files[op[1]] = [l for l in files[op[1]] if not l.startswith('text ')] + ['text ' + op[2]]
    elif kind == 'include':
        files[op[1]] = ['#include "%s"' % op[2]] + [l for l in files[op[1]] if l != '#include "%s"' % op[2]]
    elif kind == 'exclude':
        files[op[1]] = [l for l in files[op[1]] if not l.startswith('#include')]
    elif kind == 'line':
        files[op[1]] = files[op[1]] + [op[2]]
    elif kind == 'restore':
        files[op[1]] = first.get(op[1])
        if files[op[1]] is None:
            del files[op[1]]
    elif kind == 'delete':
        files.pop(op[1], None)
    elif kind == 'set':
        config[op[1]] = op[2]
    elif kind in ('rm', 'touch', 'none'):
        pass
    else:
        raise AssertionError(op)
    return files, config


OPS = [
    ('text', 'src/main.c', '2'), ('text', 'src/a.c', '2'), ('text', 'lib/b.c', '2'), ('text', 'lib/c.c', '2'),
    ('text', 'inc/x.h', '2'), ('text', 'inc/sub/y.h', '2'), ('text', 'inc/z.h', '2'),
    ('restore', 'lib/b.c'), ('restore', 'src/a.c'), ('restore', 'inc/sub/y.h'),
    ('exclude', 'src/a.c'), ('exclude', 'inc/x.h'), ('include', 'lib/c.c', 'z.h'), ('include', 'inc/sub/y.h', '../z.h'),
    ('delete', 'inc/sub/y.h'), ('line', 'lib/b.c', '#error broken'), ('line', 'src/main.c', 'use nothing'),
    ('touch', 'inc/sub/y.h'), ('none',),
    ('set', 'kind', 'shared'), ('set', 'kind', 'static'), ('set', 'macros', ['M']), ('set', 'macros', []),
    ('set', 'cflags', ['-f1']), ('set', 'lflags', ['-s']), ('set', 'lflags', []), ('set', 'bsrcs', ['lib/b.c']),
    ('set', 'bsrcs', ['lib/c.c', 'lib/b.c']), ('set', 'reuse', True),
    ('rm', 'main'), ('rm', 'b'), ('rm', 'liba'), ('rm', 'libb'), ('rm', 'prog'),
]
CORE = [o for o in OPS if o in (
    ('text', 'lib/b.c', '2'), ('text', 'inc/sub/y.h', '2'), ('restore', 'lib/b.c'), ('restore', 'inc/sub/y.h'), ('exclude', 'inc/x.h'),
    ('delete', 'inc/sub/y.h'), ('line', 'lib/b.c', '#error broken'), ('set', 'kind', 'shared'), ('set', 'kind', 'static'),
    ('set', 'macros', ['M']), ('set', 'macros', []), ('set', 'lflags', ['-s']), ('set', 'lflags', []), ('set', 'bsrcs', ['lib/b.c']),
    ('rm', 'b'), ('rm', 'libb'), ('rm', 'prog'), ('none',))]


def names(config):
    o, l = {'static': ('.o', '.a'), 'shared': ('.os', '.so')}[config['kind']]
    b, = [x for x in config['bsrcs'] if '/b' in x]
    return {'main': 'build/obj/prog/src/main' + o, 'b': 'build/obj/out/b/' + b[:-2] + o,
            'liba': 'build/liba' + l, 'libb': 'build/out/libb' + l, 'prog': 'build/prog'}


def body(config, tag=''):
    def run(ctx, T):
        import fbuild.builders.c.gcc as gcc
        b = getattr(gcc, config['kind'])(ctx, exe='gcc', platform={'posix', 'linux'})
        inc = [config['inc']]
        if inc == ['absolute']:
            # the directory has the same name in every step, see enter()
            inc = [os.path.join(os.path.dirname(os.getcwd()), 'now', 'inc')]
        kw = {'includes': inc, 'macros': config['macros'], 'cflags': config['cflags']}
        libb = b.build_lib('out/b', config['bsrcs'], **kw)
        liba = b.build_lib('a', ['src/a.c'], libs=[libb], **kw)
        if config['reuse']:
            # the objects of one program used in another
            objs = b.build_objects(['src/main.c', 'src/a.c'], includes=inc)
            b.link_exe('prog', objs, libs=[libb], flags=config['lflags'])
        else:
            b.build_exe('prog', ['src/main.c'], libs=[liba], lflags=config['lflags'], **kw)
    return run


def wanted(config):
    """What the project makes."""
    n = names(config)
    return [n['liba'], n['libb'], n['prog']]


_clock = [1000000000]


def write_project(wd, old, files):
    """Write what changed; what changed is newer than anything before."""
    _clock[0] += 100
    for p in set(old) - set(files):
        os.remove(os.path.join(wd, p))
    for p, lines in files.items():
        if old.get(p) != lines:
            q = os.path.join(wd, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            os.utime(q, (_clock[0], _clock[0]))


def new_project(wd):
    with open(os.path.join(wd, 'fbuildroot.py'), 'w') as f:
        f.write(ROOT)
    os.utime(os.path.join(wd, 'fbuildroot.py'), (1000, 1000))


def sha(x):
    if isinstance(x, str):
        try:
            with open(x, 'rb') as f:
                x = f.read()
        except OSError:
            return None
    return hashlib.md5(x).hexdigest()


def run_build(wd, config, engine, jobs, faults=()):
    """Build; returns (status, commands with keys)."""
    tools = fakecc.Tools(util.scratch_root())
    cmds = []

    class Log(list):
        """Looks at the inputs when a command starts."""
        def append(self, rec):
            tool, dst, cmd = rec
            if dst and dst.startswith(('build/obj/', 'build/src/', 'build/out/', 'build/liba.', 'build/prog')):
                before = sha(dst)
                cmds.append([tool, dst, key(tools, tool, dst, cmd, config), before])
            elif tool == 'run':
                cmds.append([tool, dst, None, None])
    log = Log()

    def run(ctx, T):
        try:
            body(config)(ctx, T)
        finally:
            T.events.append(('cmds', cmds))
    return hist.real_build(wd, ['fbuild', '-j%d' % jobs, '--database-engine', engine], {'body': run},
                           pre=lambda T: tools.install(log))


def key(tools, tool, dst, cmd, config):
    """Everything that determines what the command makes."""
    argv, it = [], iter(cmd[1:])
    for a in it:
        if a == '-MF':
            next(it)
        else:
            argv.append(a)
    ins = {}
    if tool == 'compile':
        inc = [a[2:] for a in argv if a.startswith('-I')]
        src = argv[-1]
        try:
            _, deps = tools.translate(os.getcwd(), src, inc, [])
        except fakecc.Fail as e:
            return ['fails', argv, str(e)]
        ins = {d: sha(d) for d in deps}
    else:
        paths = [a for a in argv if not a.startswith('-') and a != dst]
        lp = [a[2:] for a in argv if a.startswith('-L')]
        for a in argv:
            if a.startswith('-l'):
                for d in lp:
                    for f in ('lib%s.so', 'lib%s.a'):
                        p = os.path.join(d, f % a[2:])
                        if os.path.exists(p):
                            paths.append(p)
        if os.path.basename(dst).startswith('liba.'):
            # an archive is made again when the libraries it needs change
            paths.append(names(config)['libb'])
        ins = {p: sha(p) for p in paths}
    return [argv, sorted(ins.items())]


def enter(wd):
    """Give wd, which is one of several copies, a name that stays the same."""
    now = os.path.join(os.path.dirname(wd), 'now')
    if os.path.lexists(now):
        os.remove(now)
    os.symlink(os.path.basename(wd), now)


_clean = {}


def clean(files, config):
    """What a build from scratch makes: (ok, {output: contents})."""
    k = json.dumps([sorted(files.items()), sorted(config.items())])
    if k not in _clean:
        root = os.path.join(util.scratch_root(), 'clean%d' % os.getpid())
        sweep.force_remove(root)
        wd = os.path.join(root, 'p')
        os.makedirs(wd)
        try:
            enter(wd)
            new_project(wd)
            write_project(wd, {}, files)
            res = run_build(wd, config, 'pickle', 1)
            ok = list(res['status']) == ['ok', 0]
            if res['status'][0] not in ('ok', 'exit'):
                raise Bad('failed', 'a build from scratch of %s with %s ended with %s' % (files, config, res['status']))
            _clean[k] = ok, {p: sha(os.path.join(wd, p)) for p in wanted(config)}
        finally:
            sweep.force_remove(root)
    return _clean[k]


def step(wd, files, config, op, engine, jobs, keys, trail, first):
    """Apply op, build, and judge.  Returns the new (files, config)."""
    new, conf = apply(files, config, op, first)
    enter(wd)
    write_project(wd, files, new)
    if op[0] == 'rm':
        p = os.path.join(wd, names(conf)[op[1]])
        if os.path.exists(p):
            os.remove(p)
    elif op[0] == 'touch' and op[1] in new:
        _clock[0] += 100
        os.utime(os.path.join(wd, op[1]), (_clock[0], _clock[0]))
    res = run_build(wd, conf, engine, jobs)
    what = '%s -j%d: after %s' % (engine, jobs, ' '.join(json.dumps(o) for o in trail))
    if res['status'][0] not in ('ok', 'exit'):
        raise Bad('failed', '%s the build ended with %s' % (what, res['status']))
    ok = list(res['status']) == ['ok', 0]
    want_ok, outs = clean(new, conf)
    if ok != want_ok:
        raise Bad('status', '%s the build %s, a build from scratch %s' % (
            what, 'succeeds' if ok else 'fails', 'succeeds' if want_ok else 'fails'))
    if ok:
        for p, h in outs.items():
            if sha(os.path.join(wd, p)) != h:
                raise Bad('stale', '%s %s is not what a build from scratch makes' % (what, p))
    cmds = res['events'][-1][1] if res['events'] else []
    seen = set()
    for tool, dst, k, before in cmds:
        if tool == 'ranlib' or k is None:
            continue
        if dst in seen:
            raise Bad('twice', '%s %s is made twice' % (what, dst))
        seen.add(dst)
        if before is not None and keys.get(dst) == [k, before]:
            raise Bad('needless', '%s %s is made again although nothing it is made of has changed' % (what, dst))
        keys[dst] = [k, sha(os.path.join(wd, dst))]
    return new, conf


def state(files, config, keys, wd):
    return json.dumps([sorted(files.items()), sorted(config.items()),
                       sorted((d, k[1], sha(os.path.join(wd, d))) for d, k in keys.items())])


def explore(case, wd):
    engine, jobs, first, second, rest, naming = case
    states, n = set(), [0]
    base = os.path.join(wd, '0')
    os.mkdir(base)
    new_project(base)
    _clock[0] = 1000000000
    files0, config, keys = dict(FILES), dict(CONFIG), {}
    if naming == 'odd':
        files0, config, first, second, rest = map(odd, (files0, config, first, second, rest))
    elif naming == 'abs':
        config['inc'] = 'absolute'
    write_project(base, {}, files0)
    files, config = step(base, dict(files0), config, ('none',), engine, jobs, keys, [('none',)], files0)
    n[0] += 1
    count = [0]

    def go(src, files, config, keys, ops, trail):
        for op in ops[0]:
            if op[0] in ('text', 'include', 'exclude', 'line', 'touch') and op[1] not in files:
                continue
            if op[0] not in ('rm', 'touch', 'none') and apply(files, config, op, files0) == (files, config):
                continue
            count[0] += 1
            d = os.path.join(wd, str(count[0]))
            shutil.copytree(src, d, copy_function=shutil.copy2)
            k = dict(keys)
            clock = _clock[0]
            f, c = step(d, files, config, op, engine, jobs, k, trail + [op], files0)
            n[0] += 1
            states.add(state(f, c, k, d))
            if len(ops) > 1:
                go(d, f, c, k, ops[1:], trail + [op])
            _clock[0] = clock
            sweep.force_remove(d)
    go(base, files, config, keys, [[first], second] + rest, [])
    return states, n[0], {'engine': engine, 'jobs': jobs, 'edits': [first, second[-1]]}


def cases(deep):
    for op in OPS:
        for i in range(0, len(OPS), 9):
            yield 'pickle', 1, op, OPS[i:i + 9], [CORE] if deep or op in CORE else [], 'plain'
        yield 'sqlite', 1, op, OPS, [], 'plain'
        yield 'pickle', 1, op, OPS if deep else CORE, [], 'odd'
        header = op[0] not in ('none', 'set', 'rm') and op[1].startswith('inc/')
        yield 'pickle', 1, op, OPS if deep else CORE[:6] if header or op in CORE else [('none',)], [], 'abs'
        if deep or op in CORE:
            yield 'pickle', 2, op, CORE, [], 'plain'
            yield 'sqlite', 2, op, CORE, [], 'odd'


def real_text(path, lines):
    """The same file in C."""
    out = []
    for l in lines:
        if l.startswith('def '):
            out.append('int %s(void) { return 0; }' % l[4:])
        elif l.startswith('use '):
            out.append('int {0}(void); int (*p_{0})(void) = {0};'.format(l[4:]))
        elif l.startswith('text '):
            out.append('static const char t_%s[] __attribute__((used)) = "%s";' % (hashlib.md5(path.encode()).hexdigest(), l[5:]))
            if l == 'text main' or path.endswith('main.c'):
                out.append('int main(void) { return 0; }')
        else:
            out.append(l)
    return out


def real_tools(rep):
    """Each edit with the installed gcc and ar."""
    if not all(shutil.which(t) for t in ('gcc', 'ar', 'ranlib')):
        return

    def build(wd, old, files, config, clock):
        _clock[0] = clock
        write_project(wd, {p: real_text(p, l) for p, l in old.items()}, {p: real_text(p, l) for p, l in files.items()})
        res = hist.real_build(wd, ['fbuild'], {'body': body(config)}, timeout=120)
        if res['status'][0] not in ('ok', 'exit'):
            raise Bad('gcc', 'the build ended with %s' % (res['status'],))
        return list(res['status']) == ['ok', 0], {p: sha(os.path.join(wd, p)) for p in wanted(config)}

    def job(case):
        naming, ops = case
        root = os.path.join(util.scratch_root(), 'real%d' % os.getpid())
        sweep.force_remove(root)
        os.mkdir(root)
        try:
            out = []
            files0, config = dict(FILES), dict(CONFIG)
            # -f1 is no flag of gcc
            ops = [['set', 'cflags', ['-fno-inline']] if o[:2] == ('set', 'cflags') else o for o in ops]
            if naming == 'odd':
                files0, config, ops = map(odd, (files0, config, ops))
            a, b = os.path.join(root, 'a'), os.path.join(root, 'b')
            os.mkdir(a)
            new_project(a)
            build(a, {}, files0, config, 1000000000)
            files = files0
            for op in ops:
                new, config = apply(files, config, op, files0)
                if op[0] == 'rm':
                    os.remove(os.path.join(a, names(config)[op[1]]))
                got = build(a, files, new, config, 1000001000)
                os.mkdir(b)
                new_project(b)
                want = build(b, {}, new, config, 1000001000)
                sweep.force_remove(b)
                if got[0] != want[0] or got[0] and got[1] != want[1]:
                    return 'with gcc (%s names): after %s %s, a build from scratch %s' % (naming, ops, got, want)
                files = new
            return None
        except Bad as e:
            return e.text
        finally:
            sweep.force_remove(root)
    jobs = [('plain', [o]) for o in OPS if o[0] not in ('restore', 'none', 'touch') and o != ('set', 'kind', 'static') and o[1:] not in (
        ('macros', []), ('lflags', []))]
    jobs += [('odd', [o]) for o in CORE if o[0] in ('text', 'delete', 'exclude')]
    jobs += [('plain', [('set', 'kind', 'shared'), ('set', 'kind', 'static')]), ('plain', [('set', 'bsrcs', ['lib/b.c']), ('set', 'bsrcs', ['lib/c.c', 'lib/b.c'])])]
    for i, res in util.run_jobs(jobs, job):
        rep.add(traces_validated_against_impl=1)
        if isinstance(res, (list, tuple)):
            raise RuntimeError(res[1])
        if res:
            rep.violation('gcc/%s/%s' % (jobs[i][0], json.dumps(jobs[i][1]).replace(' ', '')), res, {'case': jobs[i]})


def b04(tier):
    deep = tier == 'thorough'
    rep = util.Report('B04', 'model_checking', [
        'the tools behave like gcc and ar; a header that did not exist does not come to hide one that was used'])
    hist.warm(0)
    fakecc.Tools(util.scratch_root())
    cs = list(cases(deep))
    sweep.run(rep, cs, explore, lambda c, kind: '%s/%s-j%d-%s/%s' % (kind, c[0], c[1], c[5], json.dumps(c[2]).replace(' ', '')),
              chunk=1, sample_every=50, timeout=800, alone=800)
    real_tools(rep)
    rep.coverage['exhaustive'] = True
    return rep.finish()
