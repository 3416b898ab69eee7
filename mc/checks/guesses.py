"""B09: which builders are guessed."""
import copy
import itertools
import os

from .. import sweep, util
from ..sweep import Bad
from .options import model as apply_options, norm, same


def record(name, fails, log):
    def make(ctx, exe=None, *args, platform=None, **kw):
        import fbuild
        log.append((name, exe, frozenset(platform), copy.deepcopy(kw)))
        for v in kw.values():
            if isinstance(v, list):
                v.append('meddled')
        if name in fails:
            raise fbuild.ConfigFailed('%s does not work' % name)
        return name
    return make


def model(compilers, table, fails, which, platform, exe_is, kw, static, shared, options):
    """What is tried, and the result: {kind: name} or None."""
    platform = set(platform) | (set(compilers) if exe_is is None else set(compilers) & set(exe_is))
    tried = []
    for features, s, d in table:
        if not features <= platform:
            continue
        res = {}
        for kind, name, args in (('static', s, static), ('shared', d, shared)):
            if kind not in which:
                res[kind] = None
                continue
            seen = (platform - set(compilers)) | features
            a = dict(copy.deepcopy(kw), **copy.deepcopy(args))
            tried.append((name, frozenset(platform), apply_options(seen, options, a)))
            if name in fails:
                break
            res[kind] = name
        else:
            return tried, res
    return tried, None


class Ctx:
    pass


def run_one(g, table, fails, case, use):
    import fbuild
    import fbuild.builders.c as c
    import fbuild.builders.platform as P
    which, platform, guessed, exe_is, exe, kw, static, shared, options = case
    log = []
    P.guess_platform = lambda ctx, arch=None: frozenset(platform)
    c.identify_compiler = lambda ctx, exe: exe_is
    makers = {n: record(n, fails, log) for f, a, b in table for n in (a, b)}
    real_call = fbuild.functools.call
    fbuild.functools.call = lambda f, *a, **k: (makers[f] if isinstance(f, str) else f)(*a, **k)
    try:
        args = dict(copy.deepcopy(kw), platform_options=copy.deepcopy(options))
        mine = set(platform)
        if not guessed:
            args['platform'] = mine
        if exe is not None:
            args['exe'] = exe
        kept = copy.deepcopy(args)
        want_tried, want = (None, None)
        if not (exe is not None and exe_is is None):
            want_tried, want = model(g.compilers, table, fails, which, platform, exe_is if exe is not None else None,
                                     kw, static, shared, options)
        what = '%s for %s on %s (given: %s), exe %r (%s), with %r' % (
            '+'.join(which), g.lang, sorted(platform), not guessed, exe, exe_is, table if use is None else use)
        for rnd in (1, 2):
            del log[:]
            try:
                if which == ('static',):
                    got = {'static': g.static(Ctx(), **dict(args, **static)), 'shared': None}
                elif which == ('shared',):
                    got = {'static': None, 'shared': g.shared(Ctx(), **dict(args, **shared))}
                else:
                    got = dict(g(Ctx(), static=copy.deepcopy(static), shared=copy.deepcopy(shared), **args))
            except fbuild.ConfigFailed as e:
                got = None
            except Exception as e:
                raise Bad('raised', '%s: %s: %s' % (what, type(e).__name__, e))
            if got != want:
                raise Bad('choice', '%s: got %s instead of %s' % (what, got, want))
            tried = [(n, p, k) for n, e, p, k in log]
            if want_tried is None:
                if tried:
                    raise Bad('tried', '%s: tried %s' % (what, tried))
            else:
                w = [(n, p, norm(k)) for n, p, k in want_tried]
                t = [(n, p, norm(k)) for n, p, k in tried]
                if w != t:
                    raise Bad('tried', '%s: tried %s instead of %s' % (what, tried, want_tried))
                if {e for n, e, p, k in log} - {exe}:
                    raise Bad('exe', '%s: passed %s' % (what, log))
            if not same(args, kept) or mine != set(platform):
                raise Bad('altered', '%s: the arguments %r are now %r' % (what, kept, args))
        return got
    finally:
        fbuild.functools.call = real_call


OPTIONS = [({'c1'}, {'flags+': ['-c1']}), ({'!c1'}, {'flags+': ['-not1']}), ({'c2'}, {'k': 'c2'}), ({'u'}, {'flags-': ['-f']}), ({'!u', 'c2'}, {'k': 'no u'})]


def one(block, wd):
    import fbuild.builders.c as c
    kind, cs = block
    states, n = set(), 0
    for case in cs:
        if kind == 'small':
            table, fails, rest = case
            g = c.Guesser('lang', {'c1', 'c2'}, table)
        else:
            lang, fails, rest = case
            if lang == 'c':
                g = c.guess
            else:
                import fbuild.builders.cxx
                g = fbuild.builders.cxx.guess
            table = tuple((frozenset(f), a, b) for f, a, b in g.functions)
            # what counts is whether the tool works, which is the same for both kinds
            fails = {x for f, a, b in table for x in (a, b) if (f & g.compilers) & fails}
        got = run_one(g, table, fails, rest, None if kind == 'small' else g.lang)
        if kind == 'real' and got is not None:
            check_real(got, rest[0], rest[1], g, fails)
        states.add(repr((kind, got, sorted(fails), rest[:3])))
        n += 1
    return states, n, {'table': kind, 'case': repr(cs[0])[:300]}


FAMILY = {'gcc': 'gcc', 'g++': 'gxx', 'clang': 'clang', 'clang++': 'clangxx', 'icc': 'intel', 'icpc': 'intelxx', 'msvc': 'msvc', 'msvc++': 'msvc'}


def check_real(got, which, platform, g, fails):
    """The names in the table mean what they promise."""
    for kind, name in got.items():
        if name is None:
            continue
        mod, fn = name.rsplit('.', 1)
        if not fn.startswith(kind):
            raise Bad('kind', 'guessing a %s builder for %s on %s gives %s' % (kind, g.lang, sorted(platform), name))
        parts = mod.split('.')[2:]
        if parts[0] != {'c': 'c', 'c++': 'cxx'}[g.lang]:
            raise Bad('language', 'guessing for %s gives %s' % (g.lang, name))
        for special in ('darwin', 'iphone', 'avr'):
            if special in parts[2:] and special not in platform:
                raise Bad('platform', 'guessing for %s on %s gives %s' % (g.lang, sorted(platform), name))
        if 'iphone' in platform and any(set(parts) & {'gcc', 'gxx'} for x in [0]) and 'iphone' not in parts:
            raise Bad('platform', 'guessing for %s on %s gives %s' % (g.lang, sorted(platform), name))
        if ('simulator' in fn) != ('simulator' in platform) and 'iphone' in parts:
            raise Bad('platform', 'guessing for %s on %s gives %s' % (g.lang, sorted(platform), name))
        if 'windows' not in platform and 'msvc' in parts:
            raise Bad('platform', 'guessing for %s on %s gives %s' % (g.lang, sorted(platform), name))


def cases(deep):
    feats = [frozenset(x) for x in ({'c1'}, {'c2'}, {'u', 'c1'}, {'u', 'c2'}, {'w', 'c1'}, {'u'})]
    small = []
    whiches = (('static',), ('shared',), ('static', 'shared'))
    kws = [({}, {}, {}, OPTIONS), ({'flags': ['-f'], 'k': None}, {'flags': ['-f', '-s']}, {'n': ['d']}, OPTIONS)]
    for n in range(0, 4 if deep else 3):
        for fs in itertools.product(feats, repeat=n):
            table = tuple((f, 's%d' % i, 'd%d' % i) for i, f in enumerate(fs))
            names = [x for f, a, b in table for x in (a, b)]
            for r in range(len(names) + 1):
                for fails in itertools.combinations(names, r):
                    for w in whiches:
                        for pf, guessed, (exe, exe_is) in itertools.product(
                                (frozenset(), frozenset('u')), (True, False),
                                ((None, None), ('x', frozenset(['c1', 'z'])), ('x', frozenset(['c2'])), ('x', None))):
                            if n == 3 and (guessed or exe == 'x' and exe_is is None):
                                continue
                            for kw, st, sh, op in kws[:1] if n > 1 and r > 1 else kws:
                                small.append((table, set(fails), (w, pf, guessed, exe_is, exe, kw, st, sh, op)))
    real = []
    import fbuild.builders.c as c
    import fbuild.builders.cxx as cxx
    import fbuild.builders.platform as P
    platforms = sorted({frozenset(p) for p in P.archmap.values()}, key=sorted)
    platforms += [frozenset(['posix', 'linux', 'avr'])]
    for g in (c.guess, cxx.guess):
        cc = sorted(g.compilers)
        for r in range(len(cc) + 1):
            for fails in itertools.combinations(cc, r):
                for pf, w in itertools.product(platforms, whiches):
                    for exe, exe_is in [(None, None)] + [('x', c_) for c_ in ({'gcc', 'g++'}, {'clang', 'clang++'})]:
                        real.append((g.lang, set(fails), (w, pf, False, exe_is, exe, {}, {}, {}, [])))
    return small, real


def actual(rep):
    """The builders guessed for gcc and g++ make archives and shared objects."""
    from .. import hist
    import subprocess, shutil
    if not (shutil.which('gcc') and shutil.which('g++') and shutil.which('ar')):
        return
    root = os.path.join(util.scratch_root(), 'actual')
    for lang in ('c', 'cxx'):
        for kind in ('static', 'shared'):
            wd = os.path.join(root, lang + kind)
            os.makedirs(wd)
            os.chmod(wd, 0o777)
            sweep.force_remove(wd + '/build')
            with open(os.path.join(wd, 'fbuildroot.py'), 'w') as f:
                f.write('import T, fbuild.builders.%s as m\n'
                        'def build(ctx):\n'
                        '    b = m.guess.%s(ctx, exe=%r)\n'
                        '    T.note(str(b.build_lib("thing", ["a%s"])))\n' % (
                            lang, kind, {'c': 'gcc', 'cxx': 'g++'}[lang], {'c': '.c', 'cxx': '.cc'}[lang]))
            with open(os.path.join(wd, 'a' + {'c': '.c', 'cxx': '.cc'}[lang]), 'w') as f:
                f.write('int f() { return 1; }\n')

            def job(wd=wd):
                os.chdir(wd)
                return hist.real_build(wd, ['fbuild'], [])
            res = sweep.forked(job, timeout=100)
            rep.add(traces_validated_against_impl=1)
            if isinstance(res, tuple) or res['status'][:2] != ['ok', 0]:
                rep.violation('actual/%s/%s' % (lang, kind), 'building a library failed: %r' % (res if isinstance(res, tuple) else res['status'],), {})
                continue
            made = [e[1].strip("'\"") for e in res['events'] if e[0] == 'note']
            path = os.path.join(wd, eval(res['events'][-1][1])[0]) if res['events'][-1][1].startswith('(') else os.path.join(wd, made[-1])
            with open(path, 'rb') as f:
                head = f.read(8)
            is_archive = head.startswith(b'!<arch>')
            if is_archive != (kind == 'static') or not (is_archive or head.startswith(b'\x7fELF')):
                rep.violation('actual/%s/%s' % (lang, kind), 'a %s library made by the guessed %s builder starts with %r' % (kind, lang, head), {})


def b09(tier):
    deep = tier == 'thorough'
    rep = util.Report('B09', 'model_checking', ['a candidate works or fails as a whole, whatever its arguments'])
    util.setup_path()
    import fbuild.builders.platform, fbuild.context     # noqa
    small, real = cases(deep)
    blocks = [(k, cs[i:i + 400]) for k, cs in (('small', small), ('real', real)) for i in range(0, len(cs), 400)]
    sweep.run(rep, blocks, one, lambda c, kind: '%s/%s' % (kind, c[0]), chunk=2, sample_every=40)
    rep.coverage['cases'] = len(small) + len(real)
    actual(rep)
    rep.coverage['exhaustive'] = True
    return rep.finish()
