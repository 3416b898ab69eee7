"""B10: incremental OCaml builds against clean ones."""
import json
import os
import shutil
import subprocess
import uuid

from .. import fakeml, hist, sweep, util
from ..sweep import Bad
from .cbuild import _clock, new_project, sha, write_project

FILES = {
    'main.ml': ['use A', 'use B1', 'use List', 'text main', 'code 1'],
    'a.ml': ['use B2', 'pub a', 'text a'],
    'lib/b1.ml': ['use B2', 'pub b1', 'text b1', 'code 1'],
    'lib/b2.ml': ['pub b2', 'text b2', 'code 1'],
    'lib/b2.mli': ['pub b2', 'text b2i'],
    'lib/B3.ml': ['pub b3', 'text b3'],
    'gram.mly': ['pub gram', 'text gram'],
    'lexer.mli': ['pub lexer', 'text lexeri'],
    'lexer.mll': ['use Gram', 'pub lexer', 'text lexer'],
    'c1.ml': ['pub c1', 'text c1', 'code 1'],
    'c2.ml': ['use C1', 'pub c2', 'text c2'],
    'solo.mli': ['text soloi'],
    'solo.ml': ['use List', 'pub solo', 'text solo'],
    'prog2.ml': ['use Pk', 'text prog2'],
}
CONFIG = {'tool': 'bytecode', 'flags': [], 'debug': False, 'lflags': [], 'order': 0, 'gen': False, 'pack': False}
BSRCS = (['lib/b1.ml', 'lib/b2.ml', 'lib/b2.mli', 'lib/B3.ml'], ['lib/B3.ml', 'lib/b2.mli', 'lib/b2.ml', 'lib/b1.ml'])


def apply(files, config, op):
    """The project after an edit (a new one)."""
    files, config = dict(files), dict(config)
    kind = op[0]
    if kind in ('text', 'code'):
        files[op[1]] = [l for l in files[op[1]] if not l.startswith(kind + ' ')] + [kind + ' ' + op[2]]
    elif kind == 'drop':
        files[op[1]] = [l for l in files[op[1]] if l != op[2]]
    elif kind == 'line':
        files[op[1]] = [l for l in files[op[1]] if l != op[2]] + [op[2]]
    elif kind == 'restore':
        files[op[1]] = FILES[op[1]]
    elif kind == 'set':
        config[op[1]] = op[2]
    elif kind not in ('rm', 'touch', 'none'):
        raise AssertionError(op)
    return files, config


COMMON = [
    ('text', 'main.ml', '2'), ('text', 'a.ml', '2'), ('text', 'lib/b1.ml', '2'), ('text', 'lib/b2.ml', '2'), ('text', 'lib/b2.mli', '2'),
    ('line', 'a.ml', 'pub more'), ('line', 'lib/b1.ml', 'pub more'), ('line', 'lib/b2.ml', 'pub more'), ('line', 'lib/b2.mli', 'pub more'),
    ('line', 'lib/B3.ml', 'use B1'), ('line', 'lib/b1.ml', 'use B3'), ('line', 'lib/b2.ml', 'use B3'), ('line', 'lib/b2.mli', 'use B3'),
    ('code', 'main.ml', '2'), ('code', 'lib/b1.ml', '2'), ('code', 'lib/b2.ml', '2'), ('text', 'lib/B3.ml', '2'), ('line', 'lib/B3.ml', 'pub more'),
    ('drop', 'lib/b1.ml', 'use B2'), ('line', 'a.ml', 'use Main'), ('line', 'a.ml', 'use Nothing'), ('line', 'lib/b2.ml', 'error'),
    ('restore', 'lib/b1.ml'), ('restore', 'lib/b2.ml'), ('restore', 'lib/b2.mli'), ('restore', 'a.ml'),
    ('touch', 'lib/b2.mli'), ('none',), ('set', 'flags', ['-strict-sequence']), ('set', 'flags', []), ('set', 'debug', True), ('set', 'lflags', ['-linkall']),
    ('set', 'order', 1), ('rm', 'b1'), ('rm', 'b2.cmi'), ('rm', 'b1.cmi'), ('rm', 'lib'), ('rm', 'prog'), ('rm', 'code'), ('rm', 'libcode'),
]
GEN = [('line', 'main.ml', 'use Lexer'), ('line', 'a.ml', 'use Gram'), ('text', 'gram.mly', '2'), ('text', 'lexer.mll', '2'), ('line', 'gram.mly', 'pub more'), ('rm', 'gram.ml'), ('rm', 'gram.mli'),
       ('rm', 'lexer.ml'), ('restore', 'gram.mly'), ('none',), ('rm', 'gram.cmi'),
       ('line', 'lexer.mli', 'use Gram'), ('line', 'lexer.mll', 'pub more'),
       ('text', 'solo.ml', '2'), ('line', 'solo.mli', 'pub solo')]
CORE = [('text', 'lib/b2.ml', '3'), ('line', 'lib/b2.mli', 'pub third'), ('line', 'lib/b1.ml', 'use B3'), ('restore', 'lib/b2.mli'),
        ('set', 'flags', []), ('none',)]
PACK = [('code', 'c1.ml', '2'), ('text', 'c1.ml', '2'), ('line', 'c1.ml', 'pub more'), ('drop', 'c2.ml', 'use C1'), ('line', 'c1.ml', 'use C2'), ('text', 'prog2.ml', '2'),
        ('rm', 'pk'), ('rm', 'pk.cmi'), ('rm', 'c1'), ('restore', 'c1.ml'), ('restore', 'c2.ml'), ('none',)]


OURS = tuple('build/' + x for x in ('main.', 'a.', 'lib/', 'gram.', 'lexer.', 'solo.', 'c1.', 'c2.', 'prog', 'pk.')) + tuple(FILES)


def names(config):
    o, l = ('.cmx', '.cmxa') if config['tool'] == 'native' else ('.cmo', '.cma')
    if config['tool'] == 'both':
        out = names(dict(config, tool='bytecode'))
        out.update({'lib': 'build/lib/b.byte.cma', 'nlib': 'build/lib/b.native.cmxa', 'libcode': 'build/lib/b.native.a',
                    'prog': 'build/prog.byte', 'nprog': 'build/prog.native', 'nb1': 'build/lib/b1.cmx'})
        return out
    return {'b1': 'build/lib/b1' + o, 'b2.cmi': 'build/lib/b2.cmi', 'b1.cmi': 'build/lib/b1.cmi', 'lib': 'build/lib/b' + l, 'prog': 'build/prog',
            'code': 'build/lib/b1.o', 'libcode': 'build/lib/b.a', 'gram.ml': 'build/gram.ml', 'gram.mli': 'build/gram.mli',
            'gram.cmi': 'build/gram.cmi', 'lexer.ml': 'build/lexer.ml', 'pk': 'build/pk' + o, 'pk.cmi': 'build/pk.cmi', 'c1': 'build/c1' + o}


def wanted(config):
    n = names(config)
    out = [n['lib'], n['prog'], n['b2.cmi']]
    if config['tool'] == 'native':
        out += [n['libcode'], n['code']]
    if config['tool'] == 'both':
        out += [n['nlib'], n['nprog'], n['libcode'], n['code']]
    if config['gen']:
        out += ['build/solo.cmi'] + ['build/solo.cmo'] * (config['tool'] != 'native') + ['build/solo.cmx'] * (config['tool'] != 'bytecode')
    if config['pack']:
        out += [n['pk'], 'build/prog2']
    return out


def body(config):
    def run(ctx, T):
        import fbuild.builders.ocaml as ocaml
        from fbuild.path import Path
        b = {'bytecode': ocaml.Ocamlc, 'native': ocaml.Ocamlopt, 'both': ocaml.Ocaml}[config['tool']](ctx)
        kw = {'flags': config['flags'], 'debug': config['debug']}
        srcs = ['main.ml', 'a.ml']
        if config['gen']:
            srcs += ['lexer.mli', ocaml.Ocamllex(ctx)(Path('lexer.mll'))]
            srcs += ocaml.Ocamlyacc(ctx)(Path('gram.mly'))
        libb = b.build_lib('lib/b', list(map(Path, BSRCS[config['order']])), **kw)
        b.build_exe('prog', list(map(Path, srcs)), libs=[libb], lflags=config['lflags'], **kw)
        if config['gen']:
            for src in 'solo.mli', 'solo.ml':
                b.compile(Path(src), **kw)
        if config['pack']:
            pk = b.build_pack('pk', ['c1.ml', 'c2.ml'], **kw)
            b.build_exe('prog2', ['prog2.ml'], objs=[pk], **kw)
    return run


def run_build(wd, config, engine, jobs):
    tools = fakeml.Tools(util.scratch_root())
    cmds = []

    class Log(list):
        """Looks at the inputs when a command starts."""
        def append(self, rec):
            tool, dst, cmd = rec
            if dst.startswith(OURS):
                cmds.append([tool, dst, key(tools, tool, dst, cmd, config, cmds), state_of(tool, dst), False])

        def done(self, cmd):
            for c in cmds:
                if c[2][0] == cmd:
                    c[4] = True
    log = Log()

    def run(ctx, T):
        try:
            body(config)(ctx, T)
        finally:
            T.events.append(('cmds', cmds))
    return hist.real_build(wd, ['fbuild', *(['--explain-database'] if os.environ.get('EXPLAIN') else []), '-j%d' % jobs, '--database-engine', engine], {'body': run},
                           pre=lambda T: tools.install(log))


def remove(path):
    if os.path.exists(path):
        os.remove(path)


def beside(path, suffix):
    return fakeml.stem(path) + suffix


def made(tool, dst, cmd=()):
    """What a command makes."""
    out = [dst]
    if tool == 'compile' and not dst.endswith('.cmi'):
        src = cmd[-1] if cmd else None
        if not os.path.exists(beside(dst, '.mli')):
            out.append(beside(dst, '.cmi'))
    if tool == 'pack':
        out.append(beside(dst, '.cmi'))
    if dst.endswith('.cmx'):
        out.append(beside(dst, '.o'))
    elif dst.endswith('.cmxa'):
        out.append(beside(dst, '.a'))
    if tool == 'ocamlyacc':
        out.append(dst + 'i')
    return out


def state_of(tool, dst):
    return [[p, sha(p)] for p in made(tool, dst)]


def sources(tools, src, native):
    """The sources a source depends on."""
    out, todo = [], [src]
    while todo:
        p = todo.pop()
        try:
            uses = tools.parse('.', p)['uses']
        except fakeml.Fail:
            continue
        found = []
        dirs = ['', 'lib', 'build', 'build/lib']
        for u in uses:
            names = []
            for s in '.mli', '.ml':
                names += [n for n in (os.path.join(d, m + s) for d in dirs for m in (u[0].lower() + u[1:], u)) if os.path.exists(n)][:1]
            if names:
                found.append(names)
            else:
                for s in ('.cmi', '.cmx') if native else ('.cmi',):
                    compiled = tools.find('.', dirs, u + s)
                    if compiled is not None:
                        out.append(os.path.relpath(compiled))
        if p.endswith('.ml') and os.path.exists(p + 'i'):
            found.append([p + 'i'])
        for names in found:
            for n in names if native else names[:1]:
                if n not in out and n != src:
                    out.append(n)
                    todo.append(n)
    return out


def key(tools, tool, dst, cmd, config, cmds):
    """Everything that determines what the command makes."""
    if tool == 'ocamldep':
        ins = [cmd[-1]]
    elif tool == 'compile':
        src = cmd[-1]
        first = src[6:] if src.startswith('build/') and os.path.exists(src[6:]) else src
        ins = [first] + sources(tools, first, os.path.basename(cmd[0]) == 'ocamlopt')
    else:
        ins = [a for a in cmd[1:] if not a.startswith('-') and a != dst and os.path.isfile(a)]
        for i in list(ins):
            if i.endswith('.cmx'):
                ins.append(beside(i, '.o'))
            elif i.endswith('.cmxa'):
                ins.append(beside(i, '.a'))
            if tool == 'pack':
                ins.append(beside(i, '.cmi'))
    more = None
    if tool == 'lib':
        # the compiled interfaces, which are not passed on, are arguments too
        more = config['order']
    elif tool == 'pack':
        # packing and compiling what is packed is one call: one that ran
        # because something had to be compiled is never taken as needless
        if any(c[1] in ins for c in cmds):
            more = uuid.uuid4().hex
    return [list(cmd), more, sorted((p, sha(p)) for p in set(ins))]


def expected(files, config):
    """Whether the project can be built."""
    groups = [['lib/b1.ml', 'lib/b2.ml', 'lib/b2.mli', 'lib/B3.ml'], ['main.ml', 'a.ml'], []]
    if config['gen']:
        groups[1] += ['lexer.mll', 'lexer.mli', 'gram.mly']
        groups[2] += ['solo.mli', 'solo.ml']
    if config['pack']:
        groups += [['c1.ml', 'c2.ml'], ['prog2.ml']]
    visible = [{}, {0}, {}, {0, 1}, {0, 1, 3}]

    def words(p, kind):
        return [l.split(' ', 1)[1] for l in files[p] if l.startswith(kind + ' ')]
    for i, group in enumerate(groups):
        if any(l.startswith('error') for p in group for l in files[p]):
            return False
        impl = {fakeml.module(p): p for p in group if not p.endswith('.mli')}
        intf = {fakeml.module(p): p for p in group if p.endswith('.mli')}
        known = set(fakeml.STDLIB) | {fakeml.module(p) for j in visible[i] for p in groups[j]}
        if i == 4:
            known.add('Pk')
        by_file, by_module = {}, {}
        for p in group:
            m = fakeml.module(p)
            by_file[p] = set()
            for u in words(p, 'use'):
                if u in impl:
                    by_file[p].add(intf.get(u, impl[u]))
                    if p == impl[m]:
                        by_module.setdefault(m, set()).add(u)
                elif u not in known:
                    return False
            if p == impl[m] and m in intf:
                by_file[p].add(intf[m])
                if not set(words(intf[m], 'pub')) <= set(words(p, 'pub')):
                    return False
        if cyclic(by_file) or cyclic(by_module):
            return False
    return True


def cyclic(graph):
    done = set()

    def visit(x, above):
        if x in above:
            return True
        if x in done:
            return False
        bad = any(visit(y, above | {x}) for y in graph.get(x, ()))
        done.add(x)
        return bad
    return any(visit(x, frozenset()) for x in list(graph))


_clean = {}


def clean(files, config):
    """What a build from scratch makes: (ok, {output: contents})."""
    k = json.dumps([sorted(files.items()), sorted(config.items())])
    if k not in _clean:
        root = os.path.join(util.scratch_root(), 'clean%d' % os.getpid())
        sweep.force_remove(root)
        wd = os.path.join(root, 'p')
        os.makedirs(wd)
        try:
            new_project(wd)
            write_project(wd, {}, files)
            res = run_build(wd, config, 'pickle', 1)
            if res['status'][0] not in ('ok', 'exit'):
                raise Bad('failed', 'a build from scratch of %s with %s ended with %s' % (files, config, res['status']))
            _clean[k] = list(res['status']) == ['ok', 0], {p: sha(os.path.join(wd, p)) for p in wanted(config)}
        finally:
            sweep.force_remove(root)
        if _clean[k][0] != expected(files, config):
            raise Bad('status', 'a build from scratch of %s with %s %s' % (files, config, 'succeeds' if _clean[k][0] else 'fails'))
    return _clean[k]


def step(wd, files, config, op, engine, jobs, keys, trail):
    """Apply op, build, and judge.  Returns the new (files, config)."""
    new, conf = apply(files, config, op)
    write_project(wd, files, new)
    if op[0] == 'rm':
        remove(os.path.join(wd, names(conf)[op[1]]))
    elif op[0] == 'touch':
        _clock[0] += 100
        os.utime(os.path.join(wd, op[1]), (_clock[0], _clock[0]))
    res = run_build(wd, conf, engine, jobs)
    what = '%s %s -j%d: after %s' % (conf['tool'], engine, jobs, ' '.join(json.dumps(o) for o in trail))
    if res['status'][0] not in ('ok', 'exit'):
        raise Bad('failed', '%s the build ended with %s' % (what, res['status']))
    ok = list(res['status']) == ['ok', 0]
    want_ok, outs = clean(new, conf)
    if ok != want_ok:
        raise Bad('status', '%s the build %s, a build from scratch %s' % (
            what, 'succeeds' if ok else 'fails', 'succeeds' if want_ok else 'fails'))
    if ok:
        for p, h in outs.items():
            if sha(os.path.join(wd, p)) != h:
                raise Bad('stale', '%s %s is not what a build from scratch makes' % (what, p))
    cmds = res['events'][-1][1] if res['events'] else []
    seen = set()
    for tool, dst, k, before, done in cmds:
        if (tool, dst) in seen:
            raise Bad('twice', '%s %s of %s is run twice' % (what, tool, dst))
        seen.add((tool, dst))
        name = tool + ' ' + dst
        if keys.get(name) == [k, before]:
            raise Bad('needless', '%s %s of %s is run again although nothing it is made of has changed' % (what, tool, dst))
        keys.pop(name, None)
        if done:
            with util_cd(wd):
                keys[name] = [k, state_of(tool, dst)]
    with util_cd(wd):
        for name, (k, _) in list(keys.items()):
            # what has changed in the meantime may have been noticed
            if any(sha(p) != h for p, h in k[2]):
                del keys[name]
    return new, conf


class util_cd:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


def ocaml(path, lines):
    """A source in OCaml's own language."""
    own = fakeml.module(path)
    uses, pubs, text, code = ([l.split(' ', 1)[1] for l in lines if l.startswith(w + ' ')] for w in ('use', 'pub', 'text', 'code'))
    value = {'List': 'List.length', 'Gram': 'Gram.main', 'Pk': 'Pk.C1.self'}
    body = ['let self = ()'] + ['let () = ignore (%s)' % value.get(u, u + '.self') for u in uses]
    body += ['let p_%s = 1' % p for p in pubs if not path.endswith('.mly')]
    body += ['let () = print_endline "%s %s"' % (own, t) for t in text]
    for c in code:
        body += ['let code n = print_endline (if n > 2 then "%s code %s" else "")' % (own, c), 'let () = code (Array.length Sys.argv + 2)']
    if any(l.startswith('error') for l in lines):
        body.append('let = in')
    if path.endswith('.mli'):
        return ['val self : unit'] + ['open! %s' % u for u in uses] + ['val p_%s : int' % p for p in pubs] + ['(* %s *)' % t for t in text]
    if path.endswith('.mll'):
        return ['{'] + body + ['}', 'rule token = parse eof { () }']
    if path.endswith('.mly'):
        return ['%{'] + body + ['%}', '%token EOF'] + ['%%token P_%s' % p.upper() for p in pubs] + [
            '%start main', '%type <unit> main', '%%', 'main: EOF { () }']
    return body


def real_build(wd, files, config):
    """A build with the installed tools: whether it succeeds, and what the programs print."""
    programs = [names(config)['prog']]
    if config['tool'] == 'both':
        programs.append(names(config)['nprog'])
    if config['pack']:
        programs.append('build/prog2')
    for p in programs:
        remove(os.path.join(wd, p))
    res = hist.real_build(wd, ['fbuild', '-j1'], {'body': lambda ctx, T: body(config)(ctx, T)})
    if res['status'][0] not in ('ok', 'exit'):
        raise Bad('failed', 'with the installed tools the build ended with %s' % (res['status'],))
    out = []
    for p in programs:
        p = os.path.join(wd, p)
        if os.path.exists(p):
            r = subprocess.run([p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out.append((r.returncode, r.stdout.decode()))
    return list(res['status']) == ['ok', 0], out


def real_case(case, wd):
    """The same project and the same edits with the installed tools."""
    _, config, ops = case
    config = dict(CONFIG, **config)

    def write(d, old, new):
        write_project(d, {k: ocaml(k, v) for k, v in old.items()}, {k: ocaml(k, v) for k, v in new.items()})
    a, n, states = os.path.join(wd, 'a'), 0, set()
    os.mkdir(a)
    new_project(a)
    _clock[0] = 1000000000
    files = dict(FILES)
    write(a, {}, files)
    trail = []
    for op in [('none',)] + list(ops):
        trail.append(op)
        new, config = apply(files, config, op)
        write(a, files, new)
        files = new
        if op[0] == 'rm':
            remove(os.path.join(a, names(config)[op[1]]))
        got = real_build(a, files, config)
        b = os.path.join(wd, 'b')
        os.mkdir(b)
        new_project(b)
        write(b, {}, files)
        want = real_build(b, files, config)
        sweep.force_remove(b)
        n += 1
        states.add(json.dumps([sorted(files.items()), sorted(config.items())]))
        what = 'with the installed tools: %s after %s' % (config['tool'], ' '.join(json.dumps(o) for o in trail))
        if got[0] != want[0]:
            raise Bad('status', '%s the build %s, a build from scratch %s' % (what, *('succeeds' if x[0] else 'fails' for x in (got, want))))
        if got[0] and got != want:
            raise Bad('stale', '%s the programs print %s, after a build from scratch %s' % (what, got[1], want[1]))
        if want[0] != clean(files, config)[0]:
            # the model of the tools is wrong, which says nothing about the code
            raise Bad('model', '%s a build from scratch %s, unlike with the simulated ones' % (what, 'succeeds' if want[0] else 'fails'))
    return states, n, {'real': config, 'edits': ops}


def explore(case, wd):
    if case[0] == 'real':
        return real_case(case, wd)
    config, engine, jobs, first, second, rest = case
    states, n, count = set(), [0], [0]
    base = os.path.join(wd, '0')
    os.mkdir(base)
    new_project(base)
    _clock[0] = 1000000000
    files, config, keys = dict(FILES), dict(CONFIG, **config), {}
    write_project(base, {}, files)
    files, config = step(base, files, config, ('none',), engine, jobs, keys, [('none',)])
    if not clean(files, config)[0]:
        raise Bad('broken', 'the project does not build')
    n[0] += 1

    def go(src, files, config, keys, ops, trail):
        for op in ops[0]:
            if op[0] not in ('rm', 'touch', 'none') and apply(files, config, op) == (files, config):
                continue
            count[0] += 1
            d = os.path.join(wd, str(count[0]))
            shutil.copytree(src, d, copy_function=shutil.copy2)
            k, clock = dict(keys), _clock[0]
            f, c = step(d, files, config, op, engine, jobs, k, trail + [op])
            n[0] += 1
            states.add(json.dumps([sorted(f.items()), sorted(c.items()), sorted((a, b[1]) for a, b in k.items())]))
            if len(ops) > 1:
                go(d, f, c, k, ops[1:], trail + [op])
            _clock[0] = clock
            sweep.force_remove(d)
    go(base, files, config, keys, [[first], second] + rest, [])
    return states, n[0], {'config': config, 'edits': [first, second[-1]]}


def common(tool):
    return [o for o in COMMON if tool != 'bytecode' or o not in (('rm', 'code'), ('rm', 'libcode'))] + (
        [('rm', 'nprog'), ('rm', 'nlib'), ('rm', 'nb1')] if tool == 'both' else [])


def cases(deep):
    for tool in ('bytecode', 'native', 'both'):
        ops = common(tool)
        for op in ops:
            for i in range(0, len(ops), 12):
                yield {'tool': tool}, 'pickle', 1, op, ops[i:i + 12], [CORE] if deep else []
            yield {'tool': tool}, 'sqlite', 1, op, ops if deep else [('none',)], []
            yield {'tool': tool}, 'pickle', 2, op, ops if deep else [('none',)], []
        for op in GEN:
            yield {'tool': tool, 'gen': True}, 'pickle', 1, op, GEN, []
        for op in PACK if tool != 'both' else ():
            yield {'tool': tool, 'pack': True}, 'pickle', 1, op, PACK, []


def real_cases(deep):
    if not all(shutil.which(t) for t in fakeml.NAMES):
        return
    for tool in ('bytecode', 'native', 'both'):
        for ops, config in ((common(tool), {}), (GEN, {'gen': True}), (PACK if tool != 'both' else (), {'pack': True})):
            for op in ops:
                # and back again
                yield 'real', dict(config, tool=tool), [op] + ([('restore', op[1])] if op[0] in ('text', 'code', 'line', 'drop') else [])


def b10(tier):
    deep = tier == 'thorough'
    rep = util.Report('B10', 'model_checking', ['the tools behave like those of OCaml'])
    hist.warm(0)
    fakeml.Tools(util.scratch_root())
    sweep.run(rep, list(real_cases(deep)) + ([] if os.environ.get('MC_REAL') else list(cases(deep))), explore,
              lambda c, kind: '%s/%s/%s' % (kind, json.dumps(c[:-1] if c[0] == 'real' else c[:3]).replace(' ', ''),
                                            json.dumps(c[2] if c[0] == 'real' else c[3]).replace(' ', '')),
              chunk=1, sample_every=50, timeout=800, alone=800)
    rep.coverage['exhaustive'] = True
    return rep.finish()
