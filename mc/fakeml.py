"""The OCaml tools, run inside the build process.

They behave like ocamldep, ocamlc, ocamlopt, ocamllex and ocamlyacc as far as files are
concerned: a module is compiled against the .cmi (and .cmx) files found in -I, an
implementation against the .cmi of its interface when there is a .mli beside it, and the
linker refuses modules that are missing, in the wrong order, or compiled against another
interface (or, native, implementation) than the one linked.  What they make is text that
shows everything that went into it.  The installed tools are run on a few of the same
programs to compare (see checks/mlbuild.py).

A source has the lines `use M`, `pub x` (part of the interface), `text x` (not part of it),
`code x` (no part of a .cmx either).
"""
import hashlib
import json
import os

from .fakecc import Fail, Popen, load, save

NAMES = ('ocamldep', 'ocamlc', 'ocamlcp', 'ocamlopt', 'ocamllex', 'ocamlyacc')
STDLIB = ('List', 'Sys')


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()


def module(path):
    n = os.path.basename(path).split('.')[0]
    return n[0].upper() + n[1:]


def stem(path):
    return path.rsplit('.', 1)[0]


class Tools:
    """What was run is appended to `log` as (tool, output, command)."""

    def __init__(self, root):
        self.bin = os.path.join(root, 'mltools')
        os.makedirs(self.bin, exist_ok=True)
        for n in NAMES + ('uname',):
            p = os.path.join(self.bin, n)
            if not os.path.exists(p):
                with open(p, 'w') as f:
                    f.write('#!/bin/false\n')
                os.chmod(p, 0o755)

    def install(self, log):
        import fbuild.subprocess.killableprocess as kp
        os.environ['PATH'] = self.bin
        kp.Popen = lambda cmd, **kw: Popen(self, log, cmd, **kw)

    def run(self, log, cmd, cwd, env, lock):
        out = self.run_tool(log, cmd, cwd, env)
        log.done(cmd)
        return out

    def run_tool(self, log, cmd, cwd, env):
        tool = os.path.basename(cmd[0])
        if tool == 'uname':
            return b'Linux\n'
        if os.path.dirname(os.path.abspath(cmd[0])) != self.bin:
            log.append(('run', cmd[0], list(cmd)))
            image = load(os.path.join(cwd, cmd[0]))
            if image['kind'] != 'exe':
                raise Fail('%s is no program' % cmd[0])
            return b'5'
        if '-version' in cmd:
            return b'4.14.1\n'
        if tool == 'ocamldep':
            log.append(('ocamldep', cmd[-1], list(cmd)))
            uses = self.parse(cwd, cmd[-1])['uses']
            return ('%s:%s\n' % (cmd[-1], ''.join(' ' + u for u in sorted(uses)))).encode()
        args = self.args(cmd[1:])
        if tool == 'ocamlyacc':
            src, = args['files']
            log.append(('ocamlyacc', stem(src) + '.ml', list(cmd)))
            text = self.lines(cwd, src)
            self.write(cwd, stem(src) + '.ml', text + ['text by ' + ' '.join(['ocamlyacc'] + args['flags'])])
            self.write(cwd, stem(src) + '.mli', [l for l in text if l.startswith('pub ')])
            return b''
        if tool == 'ocamllex':
            src, = args['files']
            log.append(('ocamllex', args['dst'], list(cmd)))
            self.write(cwd, args['dst'], self.lines(cwd, src) + ['text by ' + ' '.join(['ocamllex'] + args['flags'])])
            return b''
        native = tool == 'ocamlopt'
        if args['mode'] == '-c':
            log.append(('compile', args['dst'], list(cmd)))
            self.compile(cwd, args, native)
        else:
            log.append(({'-a': 'lib', '-pack': 'pack', None: 'link'}[args['mode']], args['dst'], list(cmd)))
            self.link(cwd, args, native)
        return b''

    @staticmethod
    def args(words):
        out = {'inc': [], 'flags': [], 'files': [], 'dst': None, 'mode': None, 'pack': None, 'stem': None}
        it = iter(words)
        for a in it:
            if a == '-I':
                out['inc'].append(next(it))
            elif a == '-o':
                out['dst'] = next(it)
            elif a in ('-c', '-a', '-pack'):
                out['mode'] = a
            elif a == '-for-pack':
                out['pack'] = next(it)
            elif a in ('-pp', '-cc', '-cclib'):
                out['flags'] += [a, next(it)]
            elif a.startswith('-'):
                out['flags'].append(a)
            else:
                out['files'].append(a)
        return out

    @staticmethod
    def lines(cwd, path):
        try:
            with open(os.path.join(cwd, path)) as f:
                return f.read().splitlines()
        except OSError:
            raise Fail('%s: no such file' % path)

    @staticmethod
    def write(cwd, path, lines):
        with open(os.path.join(cwd, path), 'w') as f:
            f.write(''.join(l + '\n' for l in lines))

    def parse(self, cwd, path):
        lines = self.lines(cwd, path)
        if any(l.startswith('error') for l in lines):
            raise Fail('%s: syntax error' % path)
        if lines and lines[0].startswith('print_int Lib.x'):
            lines = ['use Lib']
        uses = [l[4:] for l in lines if l.startswith('use ')]
        return {'uses': uses, 'pubs': [l for l in lines if l.startswith('pub ')],
                'text': [l for l in lines if not l.startswith(('use ', 'code '))],
                'code': [l for l in lines if l.startswith('code ')]}

    @staticmethod
    def find(cwd, inc, name):
        """A file for a module, whose name may begin with either case."""
        for d in inc:
            for n in (name[0].lower() + name[1:], name):
                p = os.path.join(cwd, d, n)
                if os.path.exists(p):
                    return p
        return None

    def compile(self, cwd, args, native):
        src, = args['files']
        unit = self.parse(cwd, src)
        imports = {}
        for u in unit['uses']:
            if u in STDLIB:
                continue
            p = self.find(cwd, args['inc'], u + '.cmi')
            if p is None:
                raise Fail('%s: Unbound module %s' % (src, u))
            imports[u] = digest(load(p))
        name, base = module(src), stem(os.path.join(cwd, args['dst']))
        if src.endswith('.mli'):
            save(base + '.cmi', {'kind': 'cmi', 'module': name, 'text': unit['text'], 'imports': imports})
            return
        if os.path.exists(os.path.join(cwd, stem(src) + '.mli')):
            p = self.find(cwd, args['inc'], name + '.cmi')
            if p is None:
                raise Fail('Could not find the .cmi file for interface %s' % (stem(src) + '.mli'))
            cmi = load(p)
            if not set(l for l in cmi['text'] if l.startswith('pub ')) <= set(unit['pubs']):
                raise Fail('The implementation %s does not match the interface' % src)
        else:
            cmi = {'kind': 'cmi', 'module': name, 'text': unit['pubs'], 'imports': {}}
            save(base + '.cmi', cmi)
        obj = {'kind': 'native' if native else 'bytecode', 'module': name, 'flags': args['flags'], 'pack': args['pack'],
               'text': unit['text'], 'cmi': digest(cmi), 'imports': imports}
        if native:
            obj['implementations'] = {}
            for u in imports:
                p = self.find(cwd, args['inc'], u + '.cmx')
                if p is not None:
                    obj['implementations'][u] = digest(load(p))
            save(base + '.o', {'kind': 'o', 'of': digest(obj), 'code': unit['code']})
        else:
            obj['code'] = unit['code']
        save(os.path.join(cwd, args['dst']), obj)

    def units(self, cwd, files, native, inc):
        out, code = [], []
        for f in files:
            p = os.path.join(cwd, f)
            if not os.path.exists(p):
                p = next((q for q in (os.path.join(cwd, d, f) for d in inc) if os.path.exists(q)), p)
            x = load(p)
            if native:
                part = load(stem(p) + ('.a' if x['kind'] == 'library' else '.o'))
                if part['of'] != digest(x):
                    raise Fail('%s is not the code of %s' % (stem(f), f))
                code.append(part['code'])
            if x['kind'] == 'library':
                if x['native'] != native:
                    raise Fail('%s is of the wrong kind' % f)
                out += [(u, False) for u in x['units']]
            elif x['kind'] == ('native' if native else 'bytecode'):
                out.append((x, True))
            else:
                raise Fail('%s is no object' % f)
        return out, code

    def link(self, cwd, args, native):
        files = [f for f in args['files']]
        for f in files:
            if f.endswith(('.ml', '.mli', '.cmi')):
                raise Fail('do not know what to do with %s' % f)
        units, code = self.units(cwd, files, native, args['inc'])
        dst = os.path.join(cwd, args['dst'])
        if args['mode'] is None:
            # a member of a library is linked when something after it needs it
            needed, kept = set(), []
            for u, always in reversed(units):
                if always or u['module'] in needed:
                    kept.insert(0, (u, always))
                    needed.discard(u['module'])
                    needed.update(u['imports'])
            if needed:
                raise Fail('No implementations provided for the following modules: %s' % sorted(needed))
            units = kept
        elif args['mode'] == '-pack':
            seen = set()
            for u, _ in units:
                if native and u['pack'] != module(dst):
                    raise Fail('%s was not compiled with -for-pack %s' % (u['module'], module(dst)))
                late = set(u['imports']) & set(v['module'] for v, _ in units) - seen
                if late:
                    raise Fail('Forward references from %s to %s' % (u['module'], sorted(late)))
                seen.add(u['module'])
        for what in ('imports', 'implementations'):
            known = {u['module']: u['cmi'] if what == 'imports' else digest(u) for u, _ in units}
            if len(known) != len(units):
                raise Fail('a module is given twice: %s' % [u['module'] for u, _ in units])
            for u, _ in units:
                for m, d in u.get(what, {}).items():
                    if known.setdefault(m, d) != d:
                        raise Fail('inconsistent assumptions over %s' % m)
        units = [u for u, _ in units]
        if args['mode'] == '-a':
            x = {'kind': 'library', 'native': native, 'flags': args['flags'], 'units': units}
            save(dst, x)
            if native:
                save(stem(dst) + '.a', {'of': digest(x), 'code': code})
        elif args['mode'] == '-pack':
            cmi = {'kind': 'cmi', 'module': module(dst), 'text': [u['cmi'] for u in units], 'imports': {}}
            save(stem(dst) + '.cmi', cmi)
            inside = set(u['module'] for u in units)
            x = {'kind': 'native' if native else 'bytecode', 'module': module(dst), 'flags': args['flags'], 'pack': args['pack'],
                 'text': units, 'cmi': digest(cmi),
                 'imports': {m: d for u in units for m, d in u['imports'].items() if m not in inside}}
            if native:
                x['implementations'] = {m: d for u in units for m, d in u['implementations'].items() if m not in inside}
                save(stem(dst) + '.o', {'of': digest(x), 'code': code})
            save(dst, x)
        else:
            save(dst, {'kind': 'exe', 'native': native, 'flags': args['flags'], 'units': units, 'code': code})
            os.chmod(dst, 0o755)
