"""C06: the process dies at every instant of a build; the next build must be as good.

The build process is killed (SIGKILL) in front of each operation that changes the
build tree, and in the middle of each write.  The killed build is followed by a
normal one, whose results and outputs must be those of a build from scratch, and
which may only repeat what was not remembered when the process died; then by one
without changes, which must not repeat anything, and one after an edit.
"""
import ctypes
import json
import os
import shutil
import subprocess
import sys

from .. import hist, util
from ..hist import Mismatch
from .scn_cache import F, C, CC, Fixed, HEAD, TAIL

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def preload():
    """Restart the checker with the operation counter preloaded."""
    if os.environ.get('MC_CRASH_SHIM'):
        return
    so = os.path.join(util.scratch_root(), 'shim.so')
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'crash', 'shim.c'), '-ldl'])
    env = dict(os.environ, LD_PRELOAD=so, MC_CRASH_SHIM=util.scratch_root())
    os.execve(sys.executable, [sys.executable, '-m', 'mc.run'] + sys.argv[1:], env)


_lib = None

def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.mc_count.restype = ctypes.c_long
        _lib.mc_kinds.restype = ctypes.c_char_p
    return _lib


class Stream(list):
    def __init__(self, fd):
        self.fd = fd

    def append(self, ev):
        list.append(self, ev)
        os.write(self.fd, (json.dumps(ev) + '\n').encode())


def killed_build(wd, argv, plan, n, torn):
    """One build, killed at its n-th operation.  Returns the result (status
    ['died', ..] when it was killed) with the events up to then, and the kinds of
    the operations it made."""
    lib().mc_init()
    r, w = os.pipe()

    def pre(T):
        T.events = Stream(w)
        lib().mc_arm(wd.encode(), ctypes.c_long(n), int(torn))
    res = hist.real_build(wd, argv, plan, pre=pre)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    res['events'] = [tuple(json.loads(l)) for l in data.decode().splitlines()]
    k = lib().mc_count()
    kinds = ctypes.string_at(lib().mc_kinds(), k).decode()
    return res, kinds


class Tracking(hist.Model):
    """Remembers what was finished when the last event was seen."""
    last = None

    def event(self, *ev):
        super().event(*ev)
        self.last = {f: list(rs) for f, rs in self.recs.items()}


def same(a, b):
    return all(getattr(a, s) == getattr(b, s) for s in hist.Rec.__slots__)


def remembered_model(after, kept):
    """The model for the build after the kill: of all that the killed build could
    have recorded, what is in `kept` must be remembered, the rest may be."""
    m = after.clone()
    n = 0
    for f, rs in m.recs.items():
        for r in rs:
            if not r.tainted and any(same(r, k) for k in kept.get(f, ())):
                n += 1
            else:
                r.tainted = True
    return m, n


def disk_files(wd, base):
    out = {}
    for d, ds, fs in os.walk(wd):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, wd)
            if '/.tmp/' in '/' + rel or os.path.basename(rel).startswith('fbuild-state') or rel.endswith('.log') \
                    or rel.endswith('.py'):
                continue
            with open(p, newline='') as fh:
                out[rel] = fh.read()
    return out


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None


STATE = {'pickle': 'build/fbuild-state.db', 'sqlite': 'build/fbuild-state.sqldb'}


class Case:
    """history: complete builds first; crash: the step that is killed;
    after: the steps that follow it."""

    def __init__(self, name, scn, history, crash, after, forgets=False, tamper=None, recover=(), torn=True, twice=0):
        self.name = name
        self.scn = scn
        self.history = history
        self.crash = crash
        self.after = after
        self.forgets = forgets     # the killed build was asked to forget things
        self.tamper = tamper       # done to the state before the killed build
        self.recover = list(recover)   # options of the build after the kill
        self.torn = torn           # kill in the middle of writes as well
        self.twice = twice         # kill the next build as well, in front of every n-th operation


_seen = set()
_clean = {}

def clean_results(scn, engine, wd, step, plan, scratch):
    """What a build from scratch of the same sources gives."""
    texts = scn.texts(step)
    srcs = {p: t for p, t in disk_files(wd, None).items() if not p.startswith('build/')}
    key = repr((sorted(srcs.items()), sorted(texts.items()), plan))
    if key not in _clean:
        d = os.path.join(scratch, 'clean%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for p, t in srcs.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), 'w', newline='') as f:
                f.write(t)
        hist.write_scripts(d, texts)
        res = hist.real_build(d, ['fbuild', '--database-engine', engine], plan)
        _clean[key] = (res['status'], [e for e in res['events'] if e[0] in ('ret', 'exc')],
                       {p: t for p, t in disk_files(d, None).items() if p.startswith('build/')})
        shutil.rmtree(d, ignore_errors=True)
    return _clean[key]


def check_clean(scn, engine, wd, step, plan, res, scratch):
    status, rets, outs = clean_results(scn, engine, wd, step, plan, scratch)
    if list(res['status']) != list(status):
        raise Mismatch('clean', 'the build ended with %r, one from scratch with %r' % (res['status'], status))
    got = [e for e in res['events'] if e[0] in ('ret', 'exc')]
    if got != rets:
        bad = [(a, b) for a, b in zip(got, rets) if a != b] or [(got, rets)]
        raise Mismatch('clean', 'results differ from those of a build from scratch: %r' % (bad[0],))
    have = disk_files(wd, None)
    for p, t in sorted(outs.items()):
        if have.get(p) != t:
            raise Mismatch('clean', 'output %s is %r, from scratch %r' % (p, have.get(p), t))


def prepare(case, engine, base):
    """Run the history, apply the edit of the step to be killed, and run it to its
    end in a copy.  Returns (model before, model after, events, kinds)."""
    scn = case.scn
    wd = os.path.join(base, 'wd')
    m = hist.new_state(scn, wd)
    for i, step in enumerate(case.history):
        hist.run_step(scn, engine, wd, m, step, i)
    m.use(engine)
    if case.tamper:
        case.tamper(engine, os.path.join(wd, STATE[engine]))
        m.wipe()
    hist._clock[0] = 1000000000 + 50 * 1000
    hist.apply_edit_real(wd, case.crash.get('edit'))
    m.edit(case.crash.get('edit'))
    texts = scn.texts(case.crash)
    hist.write_scripts(wd, texts)
    full = os.path.join(base, 'full')
    hist.copy_tree(wd, full)
    argv = ['fbuild', '--database-engine', engine] + list(case.crash.get('argv', ()))
    res, kinds = killed_build(full, argv, case.crash.get('plan', []), -1, False)
    if res['status'][0] in ('hang', 'died'):
        raise Mismatch(res['status'][0], 'the uninterrupted build %s' % (res['status'],))
    after = m.clone()
    if case.forgets:
        after.load_script(texts)
    else:
        scn.judge(after, case.crash, texts, res, full)
    return m, after, res['events'], kinds


def one(case, engine, base, before, after, n, torn, scratch, second=None):
    """Kill the build at operation n (and the one after it at operation
    `second`); returns (description, operations of the second one, states)."""
    scn = case.scn
    wd = os.path.join(scratch, 'run%d' % os.getpid())
    shutil.rmtree(wd, ignore_errors=True)
    hist.copy_tree(os.path.join(base, 'wd'), wd)
    argv = ['fbuild', '--database-engine', engine] + list(case.crash.get('argv', ()))
    plan = case.crash.get('plan', [])
    statefile = os.path.join(wd, STATE[engine])
    old = read(statefile)
    res, kinds = killed_build(wd, argv, plan, n, torn)
    where = 'killed %s operation %d (%s)%s' % ('in' if torn else 'before', n, kinds[n - 1:n],
        ', after %r' % (res['events'][-1],) if res['events'] else '')
    if n and res['status'][0] != 'died':
        # not reached this time
        return where, 0
    kept = keep(case, engine, before, after, res, old, read(statefile), argv)
    step = dict(case.crash, edit=None, argv=())
    texts = scn.texts(step)
    if second is not None:
        m, _ = remembered_model(after, kept)
        m.files = disk_files(wd, None)
        old = read(statefile)
        argv = ['fbuild', '--database-engine', engine]
        res2, kinds2 = killed_build(wd, argv, plan, second, torn)
        where += ', then before operation %d' % second
        if res2['status'][0] != 'died':
            return where, 0
        if engine == 'pickle' and read(statefile) != old:
            kept = after.recs
    m, nkept = remembered_model(after, kept)
    m.files = disk_files(wd, None)
    m.sweep()
    if '--rebuild' in case.recover:
        m.wipe()
    one.builds = 0
    one.key = None
    one.kept = nkept
    try:
        hist._clock[0] = 1000000000 + 60 * 1000
        res = hist.real_build(wd, ['fbuild', '--database-engine', engine] + case.recover, plan,
                              timeout=getattr(scn, 'timeout', 30))
        one.builds += 1
        if res['status'][0] in ('hang', 'died'):
            raise Mismatch(res['status'][0], 'the next build %s' % (res['status'],))
        # what it gave, first: everything else is less important
        check_clean(scn, engine, wd, step, plan, res, scratch)
        scn.judge(m, step, texts, res, wd)
        one.key = hist.canon_state(wd, m)
        if (id(case), engine, one.key) in _seen:
            return where, 1
        _seen.add((id(case), engine, one.key))
        for i, s in enumerate(case.after):
            r = hist.run_step(scn, engine, wd, m, s, 70 + i)
            one.builds += 1
            if s.get('compare', True):
                check_clean(scn, engine, wd, s, s.get('plan', []), r, scratch)
    except Mismatch as e:
        e.where = where
        e.last = res
        raise
    return where, 1


def keep(case, engine, before, after, res, old, new, argv):
    """What must be remembered."""
    if case.forgets:
        return {}
    if engine == 'pickle':
        if new is not None and new != old:
            return after.recs      # it was saved completely
        return {f: rs for f, rs in before.recs.items()}
    t = Tracking()
    t.__dict__.update(before.clone().__dict__)
    try:
        t.build(case.scn.texts(case.crash), case.crash.get('plan', []), {'events': res['events'], 'status': ['ok', 0]})
    except Mismatch:
        pass
    return t.last if t.last is not None else before.recs


def make_old(engine, path):
    """Turn the state into one of an earlier version, with a content that means
    something else."""
    if engine == 'pickle':
        data = read(path)
        assert b'\x8c\x012' in data[:40] and b'a0' in data, data[:40]
        data = data.replace(b'\x8c\x012', b'\x8c\x011', 1).replace(b'a0', b'zz')
        with open(path, 'wb') as f:
            f.write(data)
    else:
        import sqlite3
        conn = sqlite3.connect(path)
        conn.execute("UPDATE Version SET version='1'")
        for i, data in conn.execute('SELECT call_id, call_result FROM Call').fetchall():
            conn.execute('UPDATE Call SET call_result=? WHERE call_id=?', (data.replace(b'a0', b'zz'), i))
        conn.commit()
        conn.close()


# -- scenarios --------------------------------------------------------------------

class Crashing(Fixed):
    name = 'crash'
    depth = 0
    files0 = {'a': 'A0', 'b': 'B0', 'h': 'H0'}
    body = '''
@caches
def leaf(ctx, src:SRC):
    T.run('leaf', src)
    return [T.read(src).lower()]

@caches
def comp(ctx, src:SRC, dst:DST) -> DST:
    T.run('comp', src, dst)
    T.note('in', dst)
    T.write(dst, 'comp ' + leaf(ctx, src)[0])
    T.note('out', dst)
    return dst

@caches
def link(ctx, dst:DST, srcs:SRCS):
    T.run('link', dst, srcs)
    T.write(dst, ' '.join([T.read(s) for s in srcs]))
    T.write(dst + '.map', 'map')
    T.ext(ctx, srcs=['h'], dsts=[dst + '.map'])
    return dst, T.read('h')

@caches
def all(ctx, k=0):
    T.run('all', k)
    x = comp(ctx, 'a', 'build/oa')
    T.note('oa')
    y = comp(ctx, 'b', 'build/ob')
    T.note('ob')
    T.ext(ctx, srcs=['a', 'b'], dsts=['build/oa', 'build/ob'])
    return k, link(ctx, 'build/prog', [x, y])
'''


class CrashingNow(Crashing):
    """The same with sources modified within the last second, always."""
    name = 'crash-same-second'
    far = ('a', 'b', 'h')


PLAN = [F("comp.call(ctx,'a','build/oa')"), C("comp(ctx,'b','build/ob')"), F("link.call(ctx,'build/prog',['build/oa','build/ob'])")]
NEST = [F("all.call(ctx)")]
MORE = [F("all.call(ctx,1)"), C("leaf(ctx,'a')"), C("comp(ctx,'a','build/oa2')")]
FAIL = [F("comp.call(ctx,'a','build/oa')"), ['raise', 'no luck'], C("comp(ctx,'b','build/ob')")]


def cases(deep):
    for scn in (Crashing(), CrashingNow()):
        plain = scn.name == 'crash'
        for pname, plan in (('flat', PLAN), ('nested', NEST)):
            rest = [dict(plan=plan), dict(plan=plan, edit=('edit', 'b', 'B9'))]
            base = dict(plan=plan)
            if not plain and pname == 'flat' and not deep:
                continue
            twice = 1 if deep else 9 if plain and pname == 'flat' else 0
            yield Case(pname + '/first', scn, [], base, rest, torn=deep or not plain, twice=twice)
            edits = [('multi', [('edit', 'a', 'A1'), ('edit', 'h', 'H1')])]
            if plain or deep:
                edits += [('edit', 'a', 'A1'), ('edit', 'h', 'H1'), ('none',),
                          ('multi', [('edit', 'a', 'A1'), ('edit', 'b', 'B1')]),
                          ('touch', 'a'), ('rm', 'build/oa'), ('rm', 'build/prog.map'),
                          ('multi', [('edit', 'a', 'A1'), ('rm', 'build/oa')])]
            for e in edits:
                ename = '+'.join(':'.join(x[:2]) for x in (e[1] if e[0] == 'multi' else [e]))
                yield Case('%s/%s' % (pname, ename), scn, [base], dict(plan=plan, edit=e), rest,
                           torn=deep or pname == 'flat' or not plain, twice=twice if ename == 'edit:a' else 0)
        if scn.name != 'crash' and not deep:
            continue
        yield Case('more/none', scn, [dict(plan=NEST)], dict(plan=MORE), [dict(plan=MORE), dict(plan=NEST)])
        yield Case('more/edit:b', scn, [dict(plan=NEST)], dict(plan=MORE, edit=('edit', 'b', 'B1')), [dict(plan=MORE)], torn=deep)
        yield Case('fail/first', scn, [], dict(plan=FAIL), [dict(plan=PLAN)], torn=deep)
        yield Case('fail/edit:a', scn, [dict(plan=PLAN)], dict(plan=FAIL, edit=('edit', 'a', 'A1')), [dict(plan=PLAN)], torn=deep)
        code = dict(plan=NEST, script='code')
        yield Case('code', scn, [dict(plan=NEST)], code, [code, dict(plan=NEST, script='code', edit=('edit', 'a', 'A5'))])
        tail = [dict(plan=NEST), dict(plan=NEST, edit=('edit', 'a', 'A7'))]
        for oname, argv in (('clean', ['--clean']), ('force', ['--rebuild']),
                            ('delete-function', ['--delete-function', 'fbuildroot.comp']),
                            ('delete-file', ['--delete-file', 'a'])):
            yield Case('option/' + oname, scn, [dict(plan=NEST)], dict(plan=NEST, argv=argv), tail,
                       forgets=True, torn=deep or oname != 'force')
        yield Case('then-force', scn, [dict(plan=PLAN)], dict(plan=PLAN, edit=('edit', 'a', 'A1')), [dict(plan=PLAN)],
                   recover=['--rebuild'])
        yield Case('old-version', scn, [dict(plan=PLAN)], dict(plan=PLAN), [dict(plan=PLAN)], tamper=make_old)


def texts_of(self, step):
    t = dict(Fixed.texts(self, step))
    if step.get('script') == 'code':
        t = {k: v.replace("'comp ' +", "'COMP ' +") for k, v in t.items()}
    return t

Crashing.texts = texts_of


def c06(tier):
    preload()
    util._scratch_root = os.environ['MC_CRASH_SHIM']
    deep = tier == 'thorough'
    rep = util.Report('C06', 'model_checking', [
        'what kills the build is the death of the process: what it wrote before reached the file system, in order',
        'a write that is cut short has written its first half',
        'the sources are not put back to an earlier content after the kill',
        'generated scripts, deterministic, one thread',
    ])
    hist.warm()
    root = util.scratch_root()
    jobs = [(c, e) for c in cases(deep) for e in ('pickle', 'sqlite')]

    def plan_job(i_job):
        i, (case, engine) = i_job
        base = os.path.join(root, 'c%d-%s' % (i, engine))
        os.makedirs(base)
        try:
            before, after, events, kinds = prepare(case, engine, base)
        except Mismatch as e:
            return 'bad', e.kind, e.text
        return 'ok', before, after, events, kinds

    todo, points = [], 0
    inputs = list(enumerate(jobs))
    for i, res in util.run_jobs(inputs, plan_job):
        case, engine = jobs[i]
        if res[0] == '__error__':
            raise RuntimeError(res[1])
        if res[0] == 'bad':
            rep.violation('%s/%s/%s' % (case.name, engine, res[1]), 'without a kill: ' + res[2],
                          {'case': case.name, 'engine': engine})
            continue
        _, before, after, events, kinds = res
        pts = [(n + 1, t, None) for n, k in enumerate(kinds) for t in ((False, True) if k == 'w' and case.torn else (False,))]
        if case.forgets:
            pts.append((0, False, None))
        points += len(pts)
        if case.twice:
            pts += [(n + 1, False, k + 1) for n in range(0, len(kinds), case.twice)
                    for k in range(0, len(kinds) + 12, case.twice)]
        for j in range(0, len(pts), 24):
            todo.append((i, before, after, pts[j:j + 24]))
        if i in (0, 1, 5, 9):
            rep.sample({'case': case.name, 'engine': engine, 'operations': kinds, 'events': events[:8]})

    def work(job):
        i, before, after, pts = job
        case, engine = jobs[i]
        base = os.path.join(root, 'c%d-%s' % (i, engine))
        out, ran, builds, kept = [], 0, 0, 0
        states = set()
        one.builds = one.kept = 0
        one.key = None
        for n, torn, second in pts:
            try:
                where, hit = one(case, engine, base, before, after, n, torn, root, second)
            except Mismatch as e:
                out.append((n, torn, second, e.kind, e.text, e.where))
                ran += 1
                continue
            if hit:
                ran += 1
                builds += one.builds + 1
                kept += one.kept
                states.add(one.key)
        return out, ran, builds, kept, states

    states = set()
    for j, res in util.run_jobs(todo, work):
        if res[0] == '__error__':
            raise RuntimeError(res[1])
        i = todo[j][0]
        case, engine = jobs[i]
        out, ran, builds, kept, keys = res
        states.update((i, k) for k in keys)
        rep.add(transitions=builds, traces_validated_against_impl=ran, results_that_had_to_survive=kept)
        for n, torn, second, kind, text, where in out:
            # a lost output that is being written again
            key = '%s/%s/%s/%s' % (case.scn.name, case.name, engine, kind)
            lost = text.split(' is ')[0].replace('output ', '') if kind == 'clean' and text.startswith('output') else ''
            if lost:
                key += '/' + lost
            rep.violation(key, '[%s/%s/%s] %s: the next build: %s: %s' % (case.scn.name, case.name, engine, where, kind, text),
                          {'case': case.name, 'scenario': case.scn.name, 'engine': engine, 'kill_at': n, 'torn': torn,
                           'second': second, 'history': case.history, 'killed': case.crash, 'then': case.after})
    rep.coverage['states'] = len(states)
    rep.coverage['kill_points'] = points
    rep.coverage['cases'] = len(jobs)
    rep.coverage['exhaustive'] = True
    return rep.finish()
