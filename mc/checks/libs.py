"""B07: the libraries on a link command."""
import hashlib
import itertools
import os
import shutil
import subprocess
import sys

from .. import fakecc, hist, sweep, util
from ..sweep import Bad

ROOT = '''
import T
def build(ctx):
    T.plan['body'](ctx, T)
'''
N = 4


def write(wd, name, lines):
    with open(os.path.join(wd, name), 'w') as f:
        f.write('\n'.join(lines) + '\n')


def sources(wd, deps, real, requests):
    n = len(deps)
    for i in range(n):
        if real:
            write(wd, 'l%d.c' % i, ['int l%d(void);' % j for j in deps[i]] +
                  ['int l%d(void) { return 1 %s; }' % (i, ''.join('+ l%d()' % j for j in deps[i]))])
        else:
            write(wd, 'l%d.c' % i, ['def l%d' % i] + ['use l%d' % j for j in deps[i]])
    for s in {tuple(sorted(set(r))) for r in requests}:
        name = 'main%s.c' % ''.join(map(str, s))
        if real:
            write(wd, name, ['int l%d(void);' % j for j in s] +
                  ['int main(void) { return (0 %s) == 0; }' % ''.join('+ l%d()' % j for j in s)])
        else:
            write(wd, name, ['use l%d' % j for j in s])


def names(i, style):
    """Where library i goes: all in one directory, or each in its own; names with dots and dashes."""
    return {'flat': 'l%d' % i, 'dirs': 'd%d/l%d' % (i, i), 'odd': ('d%d/lib.x-%d' if i % 2 else 'd%d/libl%d')[:99] % (i, i)}[style]


def body(kind, style, deps, requests, extra, tools_log):
    def run(ctx, T):
        import fbuild.builders.c.gcc as gcc
        make = getattr(gcc, kind)
        platform = {'posix', 'mingw', 'windows'} if 'mingw' in extra else {'posix', 'linux'}
        b = make(ctx, exe='gcc', platform=platform)
        libs, log = [], tools_log
        if 'both' in extra:
            # there are libraries of the other kind, which have the same names
            other = getattr(gcc, 'static' if kind == 'shared' else 'shared')(ctx, exe='gcc', platform=platform)
            for i in range(len(deps)):
                other.build_lib(names(i, style), ['l%d.c' % i])
        for i, ds in enumerate(deps):
            kw = {}
            if 'ext' in extra:
                kw['external_libs'] = ['sys%d' % i, 'sysall']
            if 'paths' in extra:
                kw['lkwargs'] = {'libpaths': ['lp%d' % i, 'lpall']}
            mine = [libs[j] for j in ds]
            libs.append(b.build_lib(names(i, style), ['l%d.c' % i], libs=mine, **kw))
            if mine != [libs[j] for j in ds]:
                T.note('altered', i)
        use = b
        if 'builder' in extra:
            use = make(ctx, exe='gcc', platform=platform, libs=[libs[0]], libpaths=['lpb'], external_libs=['sysb'])
        for k, req in enumerate(requests):
            given = [libs[j] for j in req]
            if 'text' in extra:
                # plain paths carry nothing with them
                import fbuild.path
                given = [fbuild.path.Path(str(x)) if n % 2 else str(x) for n, x in enumerate(given)]
            kw = {'external_libs': ['sysr', 'sys0'], 'lkwargs': {'libpaths': ['lpr']}} if 'ext' in extra else {}
            keep = list(given)
            start = len(log)
            try:
                exe = use.build_exe('m%d' % k, ['main%s.c' % ''.join(map(str, sorted(set(req))))], libs=given, **kw)
            except fbuild_error() as e:
                T.note('failed', k, str(e)[:300])
                continue
            if given != keep or kw not in ({}, {'external_libs': ['sysr', 'sys0'], 'lkwargs': {'libpaths': ['lpr']}}):
                T.note('altered', k)
            for tool, dst, cmd in log[start:]:
                if tool == 'link':
                    T.events.append(('link', k, [str(c) for c in cmd]))
            if 'text' not in extra and 'builder' not in extra:
                try:
                    use.run([exe])
                except fbuild_error() as e:
                    T.note('run', k, str(e)[:300])
        T.events.append(('libs', [str(x) for x in libs]))
    return run


def fbuild_error():
    import fbuild
    return fbuild.Error


def closure(deps, req):
    out, todo = set(), list(req)
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo += deps[i]
    return out


def judge(kind, deps, req, cmd, libs, extra):
    req = list(req) + ([0] if 'builder' in extra else [])
    want = closure(deps, req) if 'text' not in extra else set(req)
    stem = {}
    for i, p in enumerate(libs):
        s = os.path.basename(p)
        if s.endswith('.dll'):
            s = 'lib' + s
        assert s.startswith('lib')
        stem['-l' + s[3:].rsplit('.', 1)[0]] = i
        stem[p] = i
    got = [stem[a] for a in cmd if a in stem]
    if sorted(got) != sorted(want):
        return 'libraries', 'lists %s instead of %s' % (got, sorted(want))
    if 'text' not in extra:
        for i in got:
            for j in deps[i]:
                if got.index(j) < got.index(i):
                    return 'order', 'lists %d before %d, which needs it' % (j, i)
    dirs = [a[2:] for a in cmd if a.startswith('-L')]
    # a library is given by its name, to be searched for, or by its path
    may = {os.path.dirname(libs[i]) for i in want}
    need = {os.path.dirname(libs[i]) for i in want if libs[i] not in cmd}
    ext = set()
    if 'paths' in extra and 'text' not in extra:
        need |= {'lp%d' % i for i in want} | ({'lpall'} if want else set())
    if 'ext' in extra:
        need |= {'lpr'}
        ext |= {'sysr', 'sys0'}
        if 'text' not in extra:
            ext |= {'sys%d' % i for i in want} | ({'sysall'} if want else set())
    if 'builder' in extra:
        need |= {'lpb'}
        ext |= {'sysb'}
    if not need <= set(dirs) <= need | may or len(dirs) != len(set(dirs)):
        return 'paths', 'searches %s instead of %s' % (dirs, sorted(need))
    gext = [a[2:] for a in cmd if a.startswith('-lsys')]
    if sorted(gext) != sorted(ext):
        return 'external', 'passes %s instead of %s' % (gext, sorted(ext))
    first = min([cmd.index(a) for a in cmd if a.startswith('-l') or a in stem], default=len(cmd))
    if any(a.endswith(('.o', '.os', '.obj')) for a in cmd[first:] if not a.startswith('-')):
        return 'objects', 'has objects after libraries'
    return None


def build(wd, kind, style, deps, requests, extra, engine='pickle', argv=()):
    tools = fakecc.Tools(wd, b'MINGW32_NT-5.1\n' if 'mingw' in extra else b'Linux\n')
    log = []
    res = hist.real_build(wd, ['fbuild', '--database-engine', engine] + list(argv),
                          {'body': body(kind, style, deps, requests, extra, log)}, pre=lambda T: tools.install(log))
    return res


def one(case, wd):
    kind, style, deps, requests, extra = case
    sources(wd, deps, False, requests)
    write(wd, 'fbuildroot.py', [ROOT])
    # the libraries of a builder are also used in its own directory
    argv = ['--buildroot', os.path.join(wd, 'build')] if 'builder' in extra else []
    res = build(wd, kind, style, deps, requests, extra, argv=argv)
    what = '%s libraries with dependencies %s (%s)' % (kind, [list(d) for d in deps], ' '.join((style,) + tuple(extra)))
    if list(res['status']) != ['ok', 0]:
        raise Bad('status', '%s: the build ended with %s' % (what, res['status']))
    libs = res['events'][-1][1]
    cmds = {}
    for e in res['events']:
        if e[0] == 'note':
            raise Bad(eval(e[1])[0], '%s: request %s: %s' % (what, requests[eval(e[1])[1]], e[1]))
        if e[0] == 'link':
            cmds[e[1]] = e[2]
    for k, req in enumerate(requests):
        if k not in cmds:
            raise Bad('command', '%s: request %s was not linked' % (what, req))
        bad = judge(kind, deps, req, cmds[k], libs, extra)
        if bad:
            raise Bad(bad[0], '%s: request %s %s: %s' % (what, list(req), bad[1], ' '.join(cmds[k])))
        exe = os.path.join(wd, 'build/m%d%s' % (k, '.exe' if 'mingw' in extra else ''))
        taken = [n for n in fakecc.load(exe)['needed'] if not n.startswith('sys')]
        static = [d for o in fakecc.load(exe)['parts'] for d in o['defs']]
        if kind == 'static' and taken or kind == 'shared' and static:
            raise Bad('kind', '%s: request %s is linked with %s' % (what, list(req), taken or static))
    # the same again, with the libraries taken from the database
    for k in range(len(requests)):
        for p in ('build/m%d' % k, 'build/m%d.exe' % k):
            if os.path.exists(os.path.join(wd, p)):
                os.remove(os.path.join(wd, p))
    res2 = build(wd, kind, style, deps, requests, extra, argv=argv)
    cmds2 = {e[1]: e[2] for e in res2['events'] if e[0] == 'link'}
    if cmds2 != cmds:
        k = min(k for k in range(len(requests)) if cmds2.get(k) != cmds.get(k))
        raise Bad('again', '%s: request %s: first %s, in the next build %s' % (what, requests[k], cmds.get(k), cmds2.get(k)))
    return [(kind, style, deps, r, extra) for r in requests], len(requests) * 2, {
        'libraries': [list(d) for d in deps], 'request': requests[-1], 'command': ' '.join(cmds[len(requests) - 1])}


def graphs(n):
    """Every acyclic graph on n libraries, each listing its dependencies in every order."""
    per = []
    for i in range(n):
        per.append([p for r in range(i + 1) for c in itertools.combinations(range(i), r) for p in itertools.permutations(c)])
    return list(itertools.product(*per))


def cases(deep):
    reqs = {n: [p for r in range(1, n + 1) for p in itertools.permutations(range(n), r)] for n in range(1, N + 1)}
    reps = {n: [r for r in itertools.product(range(n), repeat=min(n, 3)) if len(set(r)) < len(r)] for n in range(1, N + 1)}
    for kind in ('static', 'shared'):
        for n in range(1, N + 1):
            for deps in graphs(n):
                yield kind, 'dirs', deps, reqs[n], ()
                if n < N or deep:
                    for style in ('flat', 'odd'):
                        yield kind, style, deps, reqs[n] + reps[n], ()
                    for extra in (('ext', 'paths'), ('builder',), ('builder', 'ext', 'paths'), ('text',), ('mingw',), ('both',)):
                        r = reqs[n]
                        if 'text' in extra:
                            # the request has to list everything itself
                            r = [x for x in itertools.permutations(range(n)) if all(
                                x.index(j) > x.index(i) for i in range(n) for j in deps[i])]
                            r = [tuple(reversed(x)) for x in r]
                        yield kind, 'dirs', deps, r, extra


def real_tools(rep):
    """The same with gcc and ar: what the stand-ins link, they link."""
    if not all(shutil.which(t) for t in ('gcc', 'ar', 'ranlib')):
        return

    def job(case):
        kind, deps, requests = case
        wd = os.path.join(util.scratch_root(), 'real%d' % os.getpid())
        sweep.force_remove(wd)
        os.mkdir(wd)
        try:
            sources(wd, deps, True, requests)
            write(wd, 'fbuildroot.py', [ROOT])
            res = hist.real_build(wd, ['fbuild'], {'body': body(kind, 'dirs', deps, requests, (), [])}, timeout=60)
            return res['status'], [e for e in res['events'] if e[0] == 'note']
        finally:
            sweep.force_remove(wd)
    jobs = [(k, d, [(0,), (3,), (0, 1, 2, 3), (3, 2, 1, 0)]) for k in ('static', 'shared') for d in (
        ((), (0,), (1,), (2,)), ((), (0,), (0,), (1, 2)), ((), (0,), (0,), (2, 0, 1)), ((), (), (0, 1), (1, 0)))]
    for i, res in util.run_jobs(jobs, job):
        rep.add(traces_validated_against_impl=1)
        if res[0] == '__error__':
            raise RuntimeError(res[1])
        if list(res[0]) != ['ok', 0] or res[1]:
            rep.violation('gcc/%s/%s' % (jobs[i][0], jobs[i][1]), 'with gcc: %s %s' % res, {'case': jobs[i]})


def digest():
    """All the commands for one rich configuration, for comparison between hash seeds."""
    util.setup_path()
    hist.warm(0)
    wd = os.path.join(util.scratch_root(), 'seed')
    os.mkdir(wd)
    deps = ((), (0,), (0, 1), (2, 0, 1))
    reqs = list(itertools.permutations(range(4)))
    sources(wd, deps, False, reqs)
    write(wd, 'fbuildroot.py', [ROOT])
    tools = fakecc.Tools(wd)
    log = []

    def rich(ctx, T):
        import fbuild.builders.c.gcc as gcc
        for kind in ('static', 'shared'):
            b = getattr(gcc, kind)(ctx, exe='gcc', platform={'posix', 'linux'}, macros=['A', 'B=1', 'C'], warnings=['all', 'x', 'y'],
                                   machine_flags=['64', 'abi'], includes=['i1', 'i2', 'i0'], libpaths=['p1', 'p0'], external_libs=['sysz', 'sysa'])
            libs = []
            for i, ds in enumerate(deps):
                libs.append(b.build_lib(kind + '/l%d' % i, ['l%d.c' % i], libs=[libs[j] for j in ds], macros=['D', 'E', 'F'], includes={'j1', 'j2'}))
            for k, r in enumerate(reqs):
                b.build_exe(kind + '/m%d' % k, ['main0123.c'], libs=[libs[j] for j in r], warnings=['q', 'r'])
        T.events.append(('cmds', [' '.join(c) for t, d, c in log if d and 'tmp' not in d]))
    res = hist.real_build(wd, ['fbuild', '-j1'], {'body': rich}, pre=lambda T: tools.install(log))
    import re
    text = re.sub(r'-MF \S+', '-MF', '\n'.join(res['events'][-1][1]) if res['events'] else repr(res))
    text = re.sub(r'\S*/\.?tmp\S*|\S*fbuild\S*temp\S*', 'TEMP', text).replace(wd, 'WD')
    print('DIGEST', res['status'], len(res['events'] and res['events'][-1][1]), hashlib.md5(text.encode()).hexdigest())
    sys.stdout.flush()
    util.cleanup_scratch()


def b07(tier):
    deep = tier == 'thorough'
    rep = util.Report('B07', 'model_checking', [
        'libraries have different names that start with lib; a linker that goes from left to right once'])
    hist.warm(0)
    cs = list(cases(deep))
    sweep.run(rep, cs, one, lambda c, kind: ('%s/%s/%s/%s' % (kind, c[0], c[2], '+'.join((c[1],) + tuple(c[4])))).replace(' ', ''),
              chunk=4, sample_every=100)
    real_tools(rep)
    outs = set()
    for seed in ('0', '1', '2', '3'):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        out = subprocess.run([sys.executable, '-c', 'from mc.checks import libs; libs.digest()'], cwd=util.VERIF, env=env,
                             capture_output=True, text=True, timeout=200)
        line = [l for l in out.stdout.splitlines() if l.startswith('DIGEST')]
        outs.add(line[0] if line else 'failed: ' + out.stderr[-300:])
        rep.add(traces_validated_against_impl=1)
    if len(outs) != 1 or not list(outs)[0].startswith("DIGEST ['ok', 0]"):
        rep.violation('hashseed', 'the commands differ with the hash seed, or fail: %s' % sorted(outs), {})
    rep.coverage['exhaustive'] = True
    return rep.finish()
