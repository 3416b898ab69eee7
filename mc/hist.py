"""History explorer: real build runs in forked processes, an ideal cache alongside.

A *scenario* gives the text of a build script (possibly varying with edits), the
edits that can be made between builds and the plans (lists of calls) a build can
make.  A *history* is a sequence of steps, each an edit followed by a build run.
Every build run is executed by the real fbuild in a fresh process, on real files in
a scratch directory, and then replayed by the ideal cache below on a virtual copy of
the files; every difference is a violation.
"""
import ast
import copy
import errno
import inspect
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import types

from . import util, vals     # noqa

# ==========================================================================
# the real side

class RealHooks(types.ModuleType):
    """Module `T`, imported by the generated scripts (real side)."""

    def __init__(self, plan):
        super().__init__('T')
        import fbuild
        import fbuild.db
        import fbuild.path
        self.__dict__.update({n: getattr(fbuild.db, n) for n in (
            'caches', 'cachemethod', 'cacheproperty', 'PersistentObject',
            'SRC', 'SRCS', 'DST', 'DSTS', 'OPTIONAL_SRC', 'OPTIONAL_DST')})
        self.Error = fbuild.Error
        self.events = []
        self.plan = plan

    def run(self, name, *args):
        self.events.append(('run', name, show(args)))

    def note(self, *args):
        self.events.append(('note', repr(args)))

    def read(self, path):
        with open(path, newline='') as f:
            return f.read()

    def write(self, path, text):
        d = os.path.dirname(path)
        if d and not os.path.isdir(d):
            os.makedirs(d)
        with open(path, 'w', newline='') as f:
            f.write(text)

    def mkdir(self, path):
        os.makedirs(path, exist_ok=True)

    def exists(self, path):
        return os.path.exists(path)

    def ext(self, ctx, srcs=(), dsts=()):
        ctx.db.add_external_dependencies_to_call(srcs=srcs, dsts=dsts)

    def drive(self, ctx, env):
        """Make the calls of the plan; stop at the first uncaught error."""
        drive(self, ctx, env)

    def set_mtime(self, path, t):
        os.utime(path, (t, t))


def show(x):
    """repr, with sets in a fixed order."""
    if type(x) in (set, frozenset):
        return '%s{%s}' % (type(x).__name__, ', '.join(sorted(map(show, x))))
    if type(x) in (list, tuple):
        return '%s(%s)' % (type(x).__name__, ', '.join(map(show, x)))
    if type(x) is dict:
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in x.items())
    if type(type(x)).__name__ in ('PersistentMeta', 'ModelMeta'):
        return '<%s %s>' % (type(x).__qualname__, ', '.join(
            '%s=%s' % (k, show(v)) for k, v in sorted(vars(x).items()) if k != 'ctx'))
    return repr(x)


def drive(T, ctx, env):
    for i, call in enumerate(T.plan):
        kind = call[0]
        if kind in ('edit', 'touch', 'rm'):
            T.inner_edit(call)
            continue
        try:
            if kind == 'call':        # plain call, value only
                v = eval(call[1], env, {'ctx': ctx})
                T.events.append(('ret', i, show(v)))
            elif kind == 'full':      # f.call: value and file sets
                v, s, d = eval(call[1], env, {'ctx': ctx})
                T.events.append(('ret', i, show((v, sorted(map(str, s)), sorted(map(str, d))))))
            elif kind == 'raise':
                raise T.Error(call[1])
            else:
                raise AssertionError(kind)
        except Exception as e:
            T.events.append(('exc', i, type(e).__name__, str(e)))
            if len(call) > 2 and call[2] == 'catch':
                continue
            raise


def _child_build(wd, argv, plan, fd, stdout_path, pre=None):
    try:
        os.chdir(wd)
        out = os.open(stdout_path or '/dev/null', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(out, 1)
        os.dup2(out, 2)
        sys.stdout = open(1, 'w', closefd=False)
        sys.stderr = open(2, 'w', closefd=False)
        sys.path.insert(0, wd)
        sys.argv = list(argv)
        T = RealHooks(plan)
        T.inner_edit = lambda call: apply_edit_real(wd, call)
        sys.modules['T'] = T
        status = None
        if pre is not None:
            pre(T)
        try:
            import fbuild.main
            if isinstance(fbuild.main.fbuildroot, Exception):
                raise fbuild.main.fbuildroot
            r = fbuild.main.main(list(argv))
            status = ('ok', r)
        except SystemExit as e:
            status = ('exit', e.code if isinstance(e.code, (int, type(None))) else 1)
        except BaseException as e:
            import traceback
            traceback.print_exc()
            status = ('raised', type(e).__name__, str(e)[:300])
        sys.stdout.flush()
        data = json.dumps({'events': T.events, 'status': status}).encode()
        while data:
            n = os.write(fd, data)
            data = data[n:]
    except BaseException:
        import traceback
        traceback.print_exc()
    finally:
        os._exit(0)


class Hang(Exception):
    pass


def real_build(wd, argv, plan, timeout=30.0, stdout_path=None, pre=None):
    """Fork, run one build in `wd`; returns {'events', 'status'}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child_build(wd, argv, plan, w, stdout_path, pre)
    os.close(w)
    data = b''
    end = time.monotonic() + timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        return {'events': [], 'status': ['hang']}
    if not data:
        return {'events': [], 'status': ['died', st]}
    res = json.loads(data.decode())
    res['events'] = [tuple(e) for e in res['events']]
    return res


# ==========================================================================
# the ideal side

class _ModelError(Exception):
    pass


class Mismatch(BaseException):
    def __init__(self, kind, text):
        self.kind = kind
        self.text = text


class M_SRC:
    @staticmethod
    def convert(x): return [x]
class M_SRCS(M_SRC):
    @staticmethod
    def convert(x): return list(x)
class M_DST:
    @staticmethod
    def convert(x): return [x]
class M_DSTS(M_DST):
    @staticmethod
    def convert(x): return list(x)
class M_OSRC(M_SRC):
    @staticmethod
    def convert(x): return [] if x is None else [x]
class M_ODST(M_DST):
    @staticmethod
    def convert(x): return [] if x is None else [x]


class ModelMeta(type):
    """Persistent objects: creating one is a cached call."""
    model = None

    def __call__(cls, ctx, /, *args, **kwargs):
        return ModelMeta.model.call(
            types.MethodType(cls.__init__, cls), cls.__module__ + '.' + cls.__qualname__, (ctx,) + args, kwargs,
            run=lambda *a, **k: type.__call__(cls, *a, **k))[0]


class ModelObject(metaclass=ModelMeta):
    def __init__(self, ctx):
        self.ctx = ctx

    def __eq__(self, other):
        return self is other or (type(self) is type(other) and freeze(self) == freeze(other))

    def __hash__(self):
        return object.__hash__(self)


class ModelMethod:
    def __init__(self, method):
        self.method = method

    def __get__(self, instance, owner):
        if instance is None:
            return self
        return ModelBound(self.method, instance)


class ModelBound:
    def __init__(self, method, instance):
        self.method, self.instance = method, instance
        self.name = '%s.%s.%s' % (method.__module__, type(instance).__qualname__, method.__name__)

    def __call__(self, *a, **k):
        return self.call(*a, **k)[0]

    def call(self, *a, **k):
        return ModelMeta.model.call(self.method, self.name, (self.instance,) + a, k)


class ModelProperty(ModelMethod):
    def __get__(self, instance, owner):
        if instance is None:
            return self
        return ModelBound(self.method, instance)()

    def call(self, instance):
        return ModelBound(self.method, instance).call()


class Frozen:
    """A persistent object as the database has it."""
    def __init__(self, cls, state):
        self.cls, self.state = cls, state

    def __eq__(self, other):
        return type(other) is Frozen and self.cls == other.cls and self.state == other.state

    def __repr__(self):
        return '<%s %r>' % (self.cls, sorted(self.state.items()))


class FrozenCtx:
    def __eq__(self, other):
        return type(other) is FrozenCtx

    def __repr__(self):
        return '<ctx>'


def freeze(x):
    """A copy of x that does not depend on the classes of this build."""
    if isinstance(x, ModelObject):
        return Frozen(type(x).__qualname__, {k: freeze(v) for k, v in vars(x).items()})
    if isinstance(x, ModelCtx):
        return FrozenCtx()
    if type(x) in (list, tuple, set, frozenset):
        return type(x)(freeze(e) for e in x)
    if type(x) is dict:
        return {freeze(k): freeze(v) for k, v in x.items()}
    return copy.deepcopy(x)


def thaw(x, classes, ctx):
    if type(x) is Frozen:
        cls = classes[x.cls]
        o = cls.__new__(cls)
        vars(o).update((k, thaw(v, classes, ctx)) for k, v in x.state.items())
        return o
    if type(x) is FrozenCtx:
        return ctx
    if type(x) in (list, tuple, set, frozenset):
        return type(x)(thaw(e, classes, ctx) for e in x)
    if type(x) is dict:
        return {thaw(k, classes, ctx): thaw(v, classes, ctx) for k, v in x.items()}
    return copy.deepcopy(x)


class Rec:
    __slots__ = ('bound', 'value', 'srcs', 'ext', 'dsts', 'extdst', 'own', 'closure', 'tainted')


class Model:
    """The ideal cache: what fbuild promises, nothing of how it does it."""

    def __init__(self):
        self.files = {}            # path -> text
        self.recs = {}             # function -> [Rec]
        self.fgraph = {}           # function -> set of functions it ever called
        self.digests = {}          # function -> source text, in the last script seen
        self.failed = set()        # functions a call of which ever failed
        self.engine = None
        self.stores = {}           # what the other engines have, when they alternate
        self.stack = []

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k not in ('T', 'trace', 'pos', 'stack', 'mods', 'ctx')}

    def __setstate__(self, state):
        self.__dict__.update(state)
        self.stack = []

    def clone(self):
        m = Model()
        m.files = dict(self.files)
        m.recs = {}
        for f, rs in self.recs.items():
            out = []
            for r in rs:
                n = Rec()
                for s in Rec.__slots__:
                    setattr(n, s, getattr(r, s))
                n.srcs = dict(r.srcs)
                n.ext = dict(r.ext)
                n.closure = dict(r.closure)
                out.append(n)
            m.recs[f] = out
        m.fgraph = {k: set(v) for k, v in self.fgraph.items()}
        m.digests = dict(self.digests)
        m.failed = set(self.failed)
        m.engine = self.engine
        for e, store in self.stores.items():
            o = Model()
            o.recs, o.fgraph, o.digests, o.failed = store
            o = o.clone()
            m.stores[e] = (o.recs, o.fgraph, o.digests, o.failed)
        return m

    def use(self, engine):
        """Continue with the database of `engine`."""
        if self.engine is None:
            self.engine = engine
        elif engine != self.engine:
            self.stores[self.engine] = (self.recs, self.fgraph, self.digests, self.failed)
            self.recs, self.fgraph, self.digests, self.failed = self.stores.pop(engine, ({}, {}, {}, set()))
            self.engine = engine
        if engine == 'cache':
            self.wipe()            # it does not outlive the process

    def key(self):
        stores = []
        for e, (recs, fgraph, digests, failed) in sorted(self.stores.items()):
            stores.append((e, self.store_key(recs, fgraph, digests, failed)))
        return repr((sorted(self.files.items()), self.engine, stores,
            self.store_key(self.recs, self.fgraph, self.digests, self.failed)))

    @staticmethod
    def store_key(recs, fgraph, digests, failed):
        return (sorted(digests.items()), sorted(failed), sorted((f, sorted(g)) for f, g in fgraph.items()),
            sorted((f, [(sorted(r.bound.items(), key=repr), r.value, sorted(r.srcs.items()), sorted(r.ext.items()),
                     sorted(r.dsts), sorted(r.extdst), sorted(r.closure.items(), key=repr), sorted(r.own), r.tainted) for r in rs])
                    for f, rs in recs.items()))

    # -- edits ----------------------------------------------------------
    def edit(self, op):
        if op is None or op[0] in ('none', 'touch'):
            pass
        elif op[0] in ('edit', 'edit_back', 'edit_same', 'edit_frac'):
            self.files[op[1]] = op[2]
        elif op[0] == 'rm':
            for p in list(self.files):
                if p == op[1] or p.startswith(op[1] + '/'):
                    del self.files[p]
        elif op[0] == 'multi':
            for o in op[1]:
                self.edit(o)
        else:
            raise AssertionError(op)
        self.sweep()

    # -- validity --------------------------------------------------------
    def stale(self, rec):
        for p, c in list(rec.srcs.items()) + list(rec.ext.items()):
            if self.files.get(p) != c:
                return 'source %s changed' % p
        for f, d in rec.closure.items():
            if self.digests.get(f) != d:
                return 'code of %s changed' % f
        for p in rec.dsts:
            if p not in self.files:
                return 'output %s is missing' % p
        return None

    def sweep(self):
        for recs in [self.recs] + [s[0] for s in self.stores.values()]:
            for rs in recs.values():
                for r in rs:
                    if not r.tainted and self.stale(r):
                        r.tainted = True

    def reaches(self, f, targets):
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            if g in targets:
                return True
            todo.extend(self.fgraph.get(g, ()))
        return False

    def taint(self, target):
        """Everything that ever called `target` may be forgotten."""
        for f, rs in self.recs.items():
            if self.reaches(f, {target}):
                for r in rs:
                    r.tainted = True

    def taint_failures(self, name):
        """A function without any result (all calls failed) is not known to be
        unchanged, so its callers are retried along with it."""
        def unknown(g):
            return g in self.failed and all(r.tainted for r in self.recs.get(g, ()))
        bad = {g for g in self.failed if g != name and unknown(g)}
        if unknown(name) or (bad and self.reaches(name, bad)):
            self.taint(name)

    def load_script(self, texts):
        new = {}
        for modname, text in texts.items():
            tree = ast.parse(text)
            lines = text.split('\n')
            for node in tree.body:
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    first = node.decorator_list[0].lineno - 1
                    new[modname + '.' + node.name] = '\n'.join(lines[first:node.end_lineno])
            self.load_classes(modname, tree, lines, new)
        changed = {f for f in set(new) | set(self.digests) if new.get(f) != self.digests.get(f)}
        if self.engine == 'pickle' and {f for f in self.digests if f not in new and f.count('.') == 1 and self.is_class(f)}:
            # the objects cannot be loaded: it starts again from nothing
            changed = set(self.recs)
        self.digests = new
        for f in list(self.recs):
            if self.reaches(f, changed):
                for r in self.recs[f]:
                    r.tainted = True
        self.sweep()

    def is_class(self, f):
        return not self.digests[f].lstrip().startswith('@')

    @staticmethod
    def load_classes(modname, tree, lines, new):
        def text(node):
            first = node.decorator_list[0].lineno if node.decorator_list else node.lineno
            return '\n'.join(lines[first - 1:node.end_lineno])
        classes = {}
        for node in tree.body:
            if not isinstance(node, ast.ClassDef):
                continue
            own = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}
            # (all the constructors that may be run, the members looked up)
            inits = [text(own['__init__'])] if '__init__' in own else []
            members = {}
            for base in reversed(node.bases):
                bi, bm = classes.get(getattr(base, 'id', None), ([], {}))
                inits = inits + bi
                members.update(bm)
            members.update(own)
            classes[node.name] = (inits, members)
            new[modname + '.' + node.name] = '\n'.join(inits)
            for n, m in members.items():
                if any(getattr(d, 'id', None) in ('cachemethod', 'cacheproperty') for d in m.decorator_list):
                    new['%s.%s.%s' % (modname, node.name, n)] = text(m)

    # -- maintenance ---------------------------------------------------------
    def delete_function(self, name):
        had = name in self.recs
        self.recs.pop(name, None)
        for f in list(self.recs):
            for r in self.recs[f]:
                if name in r.closure:
                    # its code is no longer known to be what it was
                    r.closure = dict(r.closure, **{name: None})
                    r.tainted = True
        self.taint(name)
        return had

    def delete_file(self, path):
        had = False
        for rs in self.recs.values():
            for r in rs:
                if path in r.srcs or path in r.ext:
                    had = True
                    for d in (r.srcs, r.ext):
                        if path in d:
                            d[path] = ('deleted',)
                    r.tainted = True
        return had

    def wipe(self):
        self.recs = {}
        self.fgraph = {}
        self.failed = set()

    # -- one build ---------------------------------------------------------
    def build(self, texts, plan, actual, main='fbuildroot'):
        """Replay `plan`; compare with the events of the real run."""
        self.load_script(texts)
        self.trace = list(actual['events'])
        self.pos = 0
        self.stack = []
        T = ModelHooks(self, plan)
        self.T = T
        mods = {'T': T}
        mods.update((n, types.ModuleType(n)) for n in texts)
        self.mods = [mods[n] for n in texts]
        self.ctx = ModelCtx(self)
        ModelMeta.model = self
        saved = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        status = 'ok'
        try:
            for modname in sorted(texts, key=lambda m: m == main):
                exec(compile(texts[modname], modname + '.py', 'exec'), mods[modname].__dict__)
            mods[main].build(self.ctx)
        except Exception as e:
            status = e
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        if self.pos < len(self.trace):
            raise Mismatch('extra', 'unexpected event %r' % (self.trace[self.pos],))
        st = actual['status']
        if status == 'ok':
            if st[0] != 'ok' or st[1] not in (0, None):
                raise Mismatch('status', 'build ended with %r, expected success' % (st,))
        elif isinstance(status, _ModelError):
            if not (st[0] == 'exit' and st[1] == 1):
                raise Mismatch('status', 'build ended with %r, expected exit 1' % (st,))
        else:
            if not (st[0] == 'raised' and st[1] == type(status).__name__):
                raise Mismatch('status', 'build ended with %r, expected %s' % (st, type(status).__name__))
        self.sweep()

    def next_is(self, *ev):
        return self.pos < len(self.trace) and self.trace[self.pos] == ev

    def event(self, *ev):
        if not self.next_is(*ev):
            got = self.trace[self.pos] if self.pos < len(self.trace) else \
                '(nothing; the run ended with %s)' % (self.T.status,)
            kind = 'value' if got and got[0] == ev[0] else 'trace'
            raise Mismatch(kind, 'expected event %r, got %r' % (ev, got))
        self.pos += 1

    def classes(self):
        return {k: v for m in self.mods for k, v in vars(m).items() if isinstance(v, ModelMeta)}

    def call(self, fn, name, args, kwargs, run=None):
        sig = inspect.signature(fn)
        b = sig.bind(*args, **kwargs)
        b.apply_defaults()
        bound = dict(b.arguments)
        shown = show(tuple(v for k, v in bound.items() if k != 'ctx'))
        plain = freeze({k: v for k, v in bound.items() if k != 'ctx'})
        if self.stack:
            self.fgraph.setdefault(self.stack[-1]['name'], set()).add(name)
        srcs, dsts, ret = [], [], None
        for p, ann in fn.__annotations__.items():
            if p == 'return':
                ret = ann
            elif issubclass(ann, M_SRC):
                srcs += ann.convert(bound[p])
            elif issubclass(ann, M_DST):
                dsts += ann.convert(bound[p])
        for s in srcs:
            if s not in self.files:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), s)
        rec = None
        for r in self.recs.get(name, ()):
            if r.bound == plain:
                rec = r
        self.taint_failures(name)
        runs = self.next_is('run', name.rsplit('.', 1)[1], shown)
        if rec is None:
            why, must = 'it has no stored result', True
        else:
            why = self.stale(rec)
            must = why is not None
        if must:
            if not runs:
                got = self.trace[self.pos] if self.pos < len(self.trace) else None
                raise Mismatch('stale', '%s%s did not run although %s (next event: %r)' % (name, shown, why, got))
        elif runs and not rec.tainted:
            raise Mismatch('needless', '%s%s ran although nothing it depends on changed' % (name, shown))
        self.transitions = getattr(self, 'transitions', 0) + 1
        if not runs:
            for f in self.stack:
                f['closure'].update(rec.closure)
                f['ext'].update(rec.ext)
                f['extdst'].update(rec.extdst)
            s = set(rec.srcs) | set(rec.ext)
            if self.stack:
                self.stack[-1]['inner'] |= rec.dsts
            return thaw(rec.value, self.classes(), self.ctx), s, set(rec.dsts)
        frame = {'name': name, 'closure': {name: self.digests.get(name)}, 'ext': {}, 'extdst': set(), 'inner': set(), 'lost': set()}
        srcmap = {s: self.files[s] for s in srcs}
        self.stack.append(frame)
        try:
            value = (run or fn)(*args, **kwargs)
        except Exception:
            # whatever it had is gone: it may have left its outputs half written
            self.failed.add(name)
            rs = self.recs.setdefault(name, [])
            rs[:] = [r for r in rs if r.bound != plain]
            lost = self.lose(name, (set(dsts) | frame['extdst']) - frame['inner'] | frame['lost'])
            if len(self.stack) > 1:
                self.stack[-2]['inner'] |= frame['inner']
                self.stack[-2]['lost'] |= lost | frame['lost']
            raise
        finally:
            self.stack.pop()
            for f in self.stack:
                f['closure'].update(frame['closure'])
        new = Rec()
        new.bound = plain
        new.value = freeze(value)
        new.srcs = srcmap
        new.ext = {p: self.files.get(p) for p in frame['ext']}
        new.extdst = set(frame['extdst'])
        new.dsts = set(dsts) | new.extdst
        if ret is not None and issubclass(ret, M_DST):
            new.dsts |= set(ret.convert(value))
        new.closure = frame['closure']
        new.tainted = False
        # what it wrote itself is no longer what other calls of the function wrote
        # nor is what the calls it made wrote over
        new.own = new.dsts - frame['inner'] | frame['lost']
        if self.stack:
            self.stack[-1]['inner'] |= new.dsts | frame['inner']
        rs = self.recs.setdefault(name, [])
        rs[:] = [r for r in rs if r.bound != plain]
        lost = self.lose(name, new.own)
        rs.append(new)
        if self.stack:
            self.stack[-1]['lost'] |= lost | frame['lost']
        self.sweep()
        return value, set(new.srcs) | set(new.ext), set(new.dsts)

    def lose(self, name, written):
        """Other calls of the function, with other arguments, wrote these files."""
        rs = self.recs[name]
        lost = set().union(*(written & r.dsts for r in rs))
        rs[:] = [r for r in rs if not lost & r.dsts]
        if lost:
            # and what is registered to have these outputs goes too
            for rs in self.recs.values():
                rs[:] = [r for r in rs if not lost & r.extdst]
        return lost

    def ext(self, srcs, dsts):
        for f in self.stack:
            for s in srcs:
                f['ext'][s] = None
            f['extdst'].update(dsts)


class ModelCaches:
    def __init__(self, model, fn):
        self.model = model
        self.fn = fn
        self.name = fn.__module__ + '.' + fn.__name__

    def __call__(self, *a, **k):
        return self.call(*a, **k)[0]

    def call(self, *a, **k):
        return self.model.call(self.fn, self.name, a, k)


class ModelHooks(types.ModuleType):
    def __init__(self, model, plan):
        super().__init__('T')
        self.m = model
        self.plan = plan
        self.Error = _ModelError
        self.SRC, self.SRCS, self.DST, self.DSTS = M_SRC, M_SRCS, M_DST, M_DSTS
        self.OPTIONAL_SRC, self.OPTIONAL_DST = M_OSRC, M_ODST
        self.status = None
        self.PersistentObject, self.cachemethod, self.cacheproperty = ModelObject, ModelMethod, ModelProperty

        class Events:
            def append(self, ev):
                if ev[0] == 'exc':
                    # compare the type and, for build errors, the message
                    got = model.trace[model.pos] if model.pos < len(model.trace) else None
                    name = 'Error' if ev[2] == '_ModelError' else ev[2]
                    if not got or got[0] != 'exc' or got[1] != ev[1] or got[2] != name \
                            or (name == 'Error' and got[3] != ev[3]):
                        raise Mismatch('exception', 'expected %s(%s) from call %d, got %r' % (name, ev[3], ev[1], got))
                    model.pos += 1
                else:
                    model.event(*ev)
        self.events = Events()

    def caches(self, fn):
        return ModelCaches(self.m, fn)

    def run(self, name, *args):
        self.m.event('run', name, show(args))

    def note(self, *args):
        self.m.event('note', repr(args))

    def read(self, path):
        if path not in self.m.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.m.files[path]

    def write(self, path, text):
        self.m.files[path] = text
        self.m.sweep()

    def mkdir(self, path):
        self.m.files[path] = '<a directory>'
        self.m.sweep()

    def exists(self, path):
        return path in self.m.files

    def ext(self, ctx, srcs=(), dsts=()):
        self.m.ext(srcs, dsts)

    def inner_edit(self, op):
        self.m.edit(op)

    def drive(self, ctx, env):
        drive(self, ctx, env)


class ModelCtx:
    def __init__(self, model):
        outer = self
        self.model = model

        class Db:
            def add_external_dependencies_to_call(self, *, srcs=(), dsts=()):
                model.ext(srcs, dsts)
        self.db = Db()

        class Sched:
            def map(self, f, xs):
                return [f(x) for x in xs]
        self.scheduler = Sched()
        self.buildroot = 'build'

    def __deepcopy__(self, memo):
        return self


# ==========================================================================
# edits on the real side

_clock = [1000000000]

def next_mtime():
    _clock[0] += 10
    return _clock[0]


FAR = 4000000000     # "modified just now, always": a time stamp in the future

def apply_edit_real(wd, op):
    if op is None or op[0] == 'none':
        return
    if op[0] == 'multi':
        for o in op[1]:
            apply_edit_real(wd, o)
        return
    p = os.path.join(wd, op[1])
    if op[0] == 'rm':
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.remove(p)
        return
    old = os.stat(p).st_mtime if os.path.exists(p) else None
    if op[0] == 'touch':
        if old is None:
            return
        t = next_mtime()
    else:
        with open(p, 'w', newline='') as f:
            f.write(op[2])
        if op[0] == 'edit':
            t = FAR if old == FAR else next_mtime()
        elif op[0] == 'edit_back':
            t = (old if old is not None else next_mtime()) - 100000
        elif op[0] == 'edit_frac':
            t = (old if old is not None else next_mtime()) + 0.125
        elif op[0] == 'edit_same':
            t = FAR         # only for files that have this time stamp
    os.utime(p, (t, t))


def write_scripts(wd, texts):
    for name, text in texts.items():
        p = os.path.join(wd, name + '.py')
        try:
            with open(p) as f:
                if f.read() == text:
                    continue
        except OSError:
            pass
        with open(p, 'w') as f:
            f.write(text)


# ==========================================================================
# exploration

class Scenario:
    """name, files0 {path: text}, steps(depth, history) -> list of steps.

    A step is a dict: edit, plan, argv (extra options), script (key for texts()).
    """
    name = '?'
    engines = ('pickle', 'sqlite')
    depth = 3
    files0 = {}
    far = ()          # files created with a time stamp in the future

    def texts(self, step):
        raise NotImplementedError

    def first_steps(self):
        raise NotImplementedError

    def next_steps(self, history):
        """May only depend on the length of the history and on what the build
        directory (with the script in it) and the model tell."""
        raise NotImplementedError

    def judge(self, model, step, texts, res, wd):
        """Compare the run with the ideal cache.  Raises Mismatch."""
        model.build(texts, step.get('plan', []), res)


_WARM = """
import fbuild.db
@fbuild.db.caches
def wf(ctx, src:fbuild.db.SRC, k=0):
    return (src, k)
"""

def warm(rounds=40):
    """Import everything a build needs once, and let the JIT see it, before forking
    the children.  Best effort: nothing here is judged."""
    util.setup_path()
    import fbuild.builders.c.gcc      # noqa
    import fbuild.builders.file       # noqa
    import fbuild.install             # noqa
    import fbuild.options             # noqa
    import fbuild.context             # noqa
    import fbuild.target              # noqa
    import argparse, sqlite3          # noqa
    import signal, copy, json, re     # noqa
    import fbuild.inspect
    # fbuild.inspect gets `re` out of "from inspect import *", which only
    # exports it up to Python 3.10.
    if not hasattr(fbuild.inspect, 're'):
        fbuild.inspect.re = re
    if not rounds:
        return

    def on_alarm(*a):
        raise TimeoutError()
    old = signal.signal(signal.SIGALRM, on_alarm)
    wd = os.path.join(util.scratch_root(), 'warm')
    cwd = os.getcwd()
    out = sys.stdout
    signal.alarm(30)
    try:
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        sys.stdout = open('/dev/null', 'w')
        with open('mcwarm.py', 'w') as f:
            f.write(_WARM)
        with open('a', 'w') as f:
            f.write('x')
        os.utime('a', (1000, 1000))
        sys.path.insert(0, wd)
        import mcwarm
        import fbuild.db.database, fbuild.inspect
        for i in range(rounds):
            fbuild.inspect.getsource(fbuild.db.database.Database.call)
            for engine in ('pickle', 'sqlite'):
                parser = fbuild.options.make_parser()
                ctx = fbuild.context.Context(parser.parse_args(['--database-engine', engine]))
                try:
                    ctx.create_buildroot()
                    ctx.load_configuration()
                    for k in range(3):
                        mcwarm.wf(ctx, 'a', k + i)
                        mcwarm.wf(ctx, 'a', k + i)
                    ctx.save_configuration()
                finally:
                    ctx.db.shutdown()
                    ctx.scheduler.shutdown()
                    ctx.logger.file.close()
                if i % 10 == 0:
                    ctx.options.state_file.remove()
    except Exception:
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = out
        os.chdir(cwd)
        if wd in sys.path:
            sys.path.remove(wd)
        shutil.rmtree(wd, ignore_errors=True)
        import gc
        gc.collect()


def step_str(step):
    return json.dumps(step, sort_keys=True, default=repr)


def run_step(scn, engine, wd, model, step, level=0):
    """Apply the step on both sides.  Raises Mismatch."""
    _clock[0] = 1000000000 + (level + 1) * 1000
    edit = step.get('edit')
    apply_edit_real(wd, edit)
    model.edit(edit)
    texts = scn.texts(step)
    write_scripts(wd, texts)
    engine = step.get('engine', engine)
    model.use(engine)
    argv = ['fbuild', '--database-engine', engine] + list(step.get('argv', ()))
    res = real_build(wd, argv, step.get('plan', []), timeout=getattr(scn, 'timeout', 30))
    if res['status'][0] in ('hang', 'died'):
        raise Mismatch(res['status'][0], 'the build %s' % (res['status'],))
    scn.judge(model, step, texts, res, wd)
    return res


def new_state(scn, wd):
    os.makedirs(wd)
    _clock[0] = 1000000000
    m = Model()
    for p, text in sorted(scn.files0.items()):
        full = os.path.join(wd, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w') as f:
            f.write(text)
        t = FAR if p in scn.far else next_mtime()
        os.utime(full, (t, t))
        m.files[p] = text
    return m


# -- canonical form of the real state, to recognise states seen before ---------

def _canon_num(x, mtimes):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x > 9e8:
        if x == FAR:
            return 'FAR'
        if x > 1.3e9:
            return 'NOW'
        return 'CUR:' + mtimes[x] if x in mtimes else 'OLD'
    return x


def _canon_pickle(data, mtimes):
    import pickletools
    out = []
    for op, arg, pos in pickletools.genops(data):
        if op.name == 'FRAME':
            continue
        out.append((op.name, _canon_num(arg, mtimes)))
    return repr(out)


def _canon_sqlite(path, mtimes):
    import sqlite3
    conn = sqlite3.connect('file:%s?mode=ro' % path, uri=True)
    try:
        out = []
        ids = {}
        def ref(col, v):
            return ids.setdefault((col, v), (col, len(ids)))
        for name, in conn.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").fetchall():
            if name.startswith('sqlite_'):
                continue
            cur = conn.execute('SELECT * FROM "%s" ORDER BY rowid' % name)
            cols = [c[0] for c in cur.description]
            for row in cur.fetchall():
                out.append((name,) + tuple(
                    ref(c, v) if c.endswith('_id') else _canon_num(v, mtimes) for c, v in zip(cols, row)))
        return repr(out)
    finally:
        conn.close()


def canon_state(wd, model):
    """Everything later builds depend on.  Modification times only matter through
    being equal to, or different from, the current ones."""
    import hashlib
    files, dirs, mtimes = [], [], {}
    for d, ds, fs in os.walk(wd):
        ds.sort()
        if not fs and not ds:
            dirs.append(os.path.relpath(d, wd))
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, wd)
            if f == 'fbuild.log':
                continue
            files.append((rel, p))
            mtimes[os.lstat(p).st_mtime] = rel
    h = hashlib.sha1((model.key() + repr(dirs)).encode())
    for rel, p in files:
        h.update(repr(rel).encode())
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
            continue
        with open(p, 'rb') as f:
            data = f.read()
        c = None
        try:
            if rel.endswith('fbuild-state.db'):
                c = _canon_pickle(data, mtimes).encode()
            elif rel.endswith('fbuild-state.sqldb'):
                c = _canon_sqlite(p, mtimes).encode()
        except Exception:
            c = None
        h.update(data if c is None else c)
        if os.lstat(p).st_mtime == FAR:
            h.update(b'FAR')
    return h.hexdigest()


def expand(scn, engine, home, scratch):
    """All steps from the state stored in `home`; new states go to scratch."""
    with open(os.path.join(home, 'model'), 'rb') as f:
        history, model = pickle.load(f)
    level = len(history)
    steps = scn.first_steps() if level == 0 else scn.next_steps(history)
    out = {'builds': 0, 'calls': 0, 'leaves': 0, 'new': [], 'violations': [], 'sample': None}
    last = level + 1 >= scn.depth
    tmp = os.path.join(scratch, 'tmp%d' % os.getpid())
    for step in steps:
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        wd = os.path.join(tmp, 'wd')
        copy_tree(os.path.join(home, 'wd'), wd)
        m = model.clone()
        m.transitions = 0
        h = history + [step]
        out['builds'] += 1
        try:
            res = run_step(scn, engine, wd, m, step, level)
        except Mismatch as e:
            out['violations'].append({'scenario': scn.name, 'engine': engine, 'kind': e.kind,
                                      'text': e.text, 'history': h})
            if len(out['violations']) >= 3:
                break
            continue
        out['calls'] += m.transitions
        out['leaves'] += last
        if out['sample'] is None and last:
            out['sample'] = {'scenario': scn.name, 'engine': engine, 'history': h, 'last_events': res['events'][:6]}
        key = canon_state(wd, m)
        final = os.path.join(scratch, key)
        if last:
            # only counted: nothing is explored from here
            out['new'].append(key)
            continue
        with open(os.path.join(tmp, 'model'), 'wb') as f:
            pickle.dump((h, m), f, 2)
        try:
            os.rename(tmp, final)
        except OSError as e:
            if e.errno not in (errno.ENOTEMPTY, errno.EEXIST):
                raise
        else:
            out['new'].append(key)
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def copy_tree(src, dst):
    os.mkdir(dst)
    for e in os.scandir(src):
        d = os.path.join(dst, e.name)
        if e.is_symlink():
            os.symlink(os.readlink(e.path), d)
        elif e.is_dir():
            copy_tree(e.path, d)
        else:
            with open(e.path, 'rb') as f:
                data = f.read()
            with open(d, 'wb') as f:
                f.write(data)
            st = e.stat()
            os.chmod(d, st.st_mode)
            os.utime(d, ns=(st.st_atime_ns, st.st_mtime_ns))


def replay_history(scn, engine, history, base):
    """Re-run one history; returns the Mismatch or None."""
    shutil.rmtree(base, ignore_errors=True)
    m = new_state(scn, base)
    for i, step in enumerate(history):
        try:
            run_step(scn, engine, base, m, step, i)
        except Mismatch as e:
            return e
    return None


MAX_VIOLATIONS = 40

def explore(report, scenarios, keep=None):
    """Breadth-first over the reachable states of every scenario with every engine."""
    warm()
    root = util.scratch_root()
    frontier = []
    for s, scn in enumerate(scenarios):
        for engine in scn.engines:
            home = os.path.join(root, 's%d-%s' % (s, engine), 'L0', 'init')
            os.makedirs(home)
            os.chmod(os.path.join(root, 's%d-%s' % (s, engine)), 0o777)
            m = new_state(scn, os.path.join(home, 'wd'))
            with open(os.path.join(home, 'model'), 'wb') as f:
                pickle.dump(([], m), f, 2)
            frontier.append((s, engine, home))
    states, level, nviol = set(), 0, 0
    while frontier:
        def work(job, level=level):
            s, engine, home = job
            scratch = os.path.join(root, 's%d-%s' % (s, engine), 'L%d' % (level + 1))
            os.makedirs(scratch, exist_ok=True)
            return expand(scenarios[s], engine, home, scratch)
        nxt = []
        for i, res in util.run_jobs(frontier, work):
            s, engine, home = frontier[i]
            if isinstance(res, tuple):
                raise RuntimeError('harness error in %s/%s:\n%s' % (scenarios[s].name, engine, res[1]))
            report.add(transitions=res['builds'], cached_calls_checked=res['calls'],
                       traces_validated_against_impl=res['leaves'])
            if res['sample']:
                report.sample(res['sample'])
            for key in res['new']:
                states.add((s, engine, key))
                if level + 1 < scenarios[s].depth:
                    nxt.append((s, engine, os.path.join(root, 's%d-%s' % (s, engine), 'L%d' % (level + 1), key)))
            for v in res['violations']:
                if keep is not None and not keep(v):
                    continue
                nviol += 1
                report.violation(violation_key(v), '%s [%s/%s] after %d builds: %s' % (
                    v['kind'], v['scenario'], v['engine'], len(v['history']), v['text']), v)
        for s, engine, home in frontier:
            shutil.rmtree(home, ignore_errors=True)
        level += 1
        frontier = nxt
        if nviol >= MAX_VIOLATIONS:
            report.coverage['stopped_early'] = True
            break
    util.cleanup_scratch()
    report.coverage['states'] = report.coverage.get('states', 0) + len(states)
    report.coverage['max_builds_per_history'] = max(report.coverage.get('max_builds_per_history', 0), level)


def violation_key(v):
    h = ';'.join('%s|%s|%s|%s' % (
        _short(s.get('edit')), _short(s.get('script')), _short(s.get('argv')), _short(s.get('plan'))) for s in v['history'])
    return ('%s/%s/%s/%s' % (v['scenario'], v['engine'], v['kind'], h)).replace(' ', '')


def _short(x):
    if x is None:
        return '-'
    return json.dumps(x, sort_keys=True, default=repr).replace('"', '').replace(' ', '')
