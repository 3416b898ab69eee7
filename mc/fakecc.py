"""A compiler, an archiver and a linker that run inside the build process.

They behave like gcc, ar and ranlib as far as files are concerned: quoted includes are
searched next to the file that includes and in -I, -MF writes the rule gcc writes, an
archive keeps the members it had, the linker goes through objects and libraries once
from left to right.  What they make is text that shows everything that went into it.
The installed gcc is run on a few of the same programs to compare (see checks/cbuild.py).
"""
import json
import os
import re
import threading


class Fail(Exception):
    pass


class Tools:
    """What was run is appended to `log` as (tool, output, command)."""

    def __init__(self, root, uname=b'Linux\n'):
        self.uname = uname
        self.bin = os.path.join(root, 'tools')
        os.makedirs(self.bin, exist_ok=True)
        for n in ('gcc', 'ar', 'ranlib', 'uname'):
            p = os.path.join(self.bin, n)
            if not os.path.exists(p):
                with open(p, 'w') as f:
                    f.write('#!/bin/false\n')
                os.chmod(p, 0o755)

    def install(self, log):
        import fbuild.subprocess.killableprocess as kp
        import fbuild.temp
        os.environ['PATH'] = self.bin
        os.environ.pop('LD_LIBRARY_PATH', None)
        kp.Popen = lambda cmd, **kw: Popen(self, log, cmd, **kw)

    # -- one command -------------------------------------------------------

    def run(self, log, cmd, cwd, env, lock):
        tool = os.path.basename(cmd[0])
        if tool == 'uname':
            return self.uname
        if os.path.dirname(os.path.abspath(cmd[0])) != self.bin:
            log.append(('run', cmd[0], list(cmd)))
            return self.exe(cmd, cwd, env)
        if tool == 'ranlib':
            log.append(('ranlib', cmd[-1], list(cmd)))
            return b''
        if tool == 'ar':
            return self.ar(log, cmd, cwd)
        assert tool == 'gcc', cmd
        if '--version' in cmd:
            return b'gcc (Fake) 13.3.0\nFree Software Foundation\n'
        return self.gcc(log, cmd, cwd)

    def ar(self, log, cmd, cwd):
        dst, srcs = cmd[2], cmd[3:]
        log.append(('ar', dst, list(cmd)))
        path = os.path.join(cwd, dst)
        members = []
        if os.path.exists(path):
            members = load(path)['members']
        old = [m[0] for m in members]
        for s in srcs:
            name = os.path.basename(s)
            new = [name, load(os.path.join(cwd, s))]
            if name in old:
                i = old.index(name)
                members[i] = new
                old[i] = None
            else:
                members.append(new)
                old.append(None)
        save(path, {'kind': 'archive', 'flags': cmd[1:2], 'members': members})
        return b''

    def gcc(self, log, cmd, cwd):
        inc, lpath, libs, flags, srcs, dst, dep, compile_only = [], [], [], [], [], None, None, False
        it = iter(cmd[1:])
        tail = []
        for a in it:
            if a == '-c':
                compile_only = True
            elif a == '-o':
                dst = next(it)
            elif a == '-MF':
                dep = next(it)
            elif a == '-MMD':
                pass
            elif a.startswith('-I'):
                inc.append(a[2:])
            elif a.startswith('-L'):
                lpath.append(a[2:])
            elif a.startswith('-l'):
                libs.append(a[2:])
                tail.append(('lib', a[2:]))
            elif a.startswith('-'):
                flags.append(a)
            else:
                srcs.append(a)
                tail.append(('file', a))
        if compile_only:
            log.append(('compile', dst, list(cmd)))
            return self.compile(cwd, srcs, dst, dep, inc, flags)
        out = os.path.join(cwd, dst or 'a.out')
        log.append(('link', dst, list(cmd)))
        units = []
        for kind, x in tail:
            if kind == 'file' and x.endswith('.c'):
                units.append(('object', x, self.translate(cwd, x, inc, flags)[0]))
            elif kind == 'file':
                units.append(('object', x, load(os.path.join(cwd, x))))
            else:
                units.append(('lib', x, None))
        shared = '-shared' in flags
        try:
            image = self.link(cwd, units, lpath, flags, shared)
        except Fail:
            # so does ld
            if os.path.exists(out):
                os.remove(out)
            raise
        save(out, image)
        os.chmod(out, 0o755)
        return b''

    def translate(self, cwd, src, inc, flags):
        """The object for a source, and the files it was made of."""
        deps, text = [], []

        def expand(path, depth):
            if depth > 20:
                raise Fail('include nested too deeply')
            if path not in deps:
                deps.append(path)
            try:
                with open(os.path.join(cwd, path), newline='') as f:
                    lines = f.read().splitlines()
            except OSError:
                raise Fail('%s: no such file' % path)
            for line in lines:
                m = re.match(r'\s*#include "(.*)"', line)
                if m:
                    for d in [os.path.dirname(path)] + inc:
                        p = os.path.join(d, m.group(1))
                        if os.path.exists(os.path.join(cwd, p)):
                            break
                    else:
                        raise Fail('%s: %s: no such file' % (path, m.group(1)))
                    expand(p, depth + 1)
                elif line.startswith('#error'):
                    raise Fail('%s: %s' % (path, line))
                elif line.strip():
                    text.append(line.strip())
        expand(src, 0)
        return {'kind': 'object', 'flags': flags, 'text': text,
                'defs': [t[4:] for t in text if t.startswith('def ')],
                'uses': [t[4:] for t in text if t.startswith('use ')]}, deps

    def compile(self, cwd, srcs, dst, dep, inc, flags):
        src, = srcs
        try:
            obj, deps = self.translate(cwd, src, inc, flags)
        except Fail:
            # gcc leaves no output behind
            if os.path.exists(os.path.join(cwd, dst)):
                os.remove(os.path.join(cwd, dst))
            raise
        save(os.path.join(cwd, dst), obj)
        if dep is not None:
            # as gcc writes it: quoted, and in lines of at most 72 columns or so
            line, out = quote(dst) + ':', ''
            for d in deps:
                q = ' ' + quote(d)
                if len(line) + len(q) > 74:
                    out += line + ' \\\n'
                    line = ''
                line += q
            with open(os.path.join(cwd, dep), 'w') as f:
                f.write(out + line + '\n')
        return b''

    def link(self, cwd, units, lpath, flags, shared):
        parts, needed, defs, uses = [], [], set(), []

        def take(obj):
            parts.append(obj)
            defs.update(obj['defs'])
            uses.extend(obj['uses'])
        def library(p, lib):
            if lib['kind'] == 'archive':
                left = [m for _, m in lib['members']]
                again = True
                while again:
                    again = False
                    for m in list(left):
                        if set(m['defs']) & (set(uses) - defs):
                            left.remove(m)
                            take(m)
                            again = True
            elif set(lib['defs']) & (set(uses) - defs):
                # --as-needed
                needed.append(os.path.basename(p))
                defs.update(lib['defs'])

        for kind, name, obj in units:
            if kind == 'object':
                if obj['kind'] == 'object':
                    take(obj)
                elif obj['kind'] == 'exe':
                    raise Fail('%s is no object' % name)
                else:
                    library(name, obj)
                continue
            for d in lpath:
                for form in ('%s.dll', 'lib%s.a') if b'MINGW' in self.uname else ('lib%s.so', 'lib%s.a'):
                    p = os.path.join(d, form % name)
                    if os.path.exists(os.path.join(cwd, p)):
                        break
                else:
                    continue
                break
            else:
                if name.startswith('sys'):
                    needed.append(name)
                    continue
                raise Fail('cannot find -l' + name)
            library(p, load(os.path.join(cwd, p)))
        if not shared and set(uses) - defs:
            raise Fail('undefined: %s' % sorted(set(uses) - defs))
        return {'kind': 'shared' if shared else 'exe', 'flags': flags, 'parts': parts, 'needed': needed,
                'defs': sorted(set(d for o in parts for d in o['defs']))}

    def exe(self, cmd, cwd, env):
        image = load(os.path.join(cwd, cmd[0]))
        if image['kind'] != 'exe':
            raise Fail('%s is no program' % cmd[0])
        path = [p for p in (env or {}).get(
            'PATH' if b'MINGW' in self.uname else 'LD_LIBRARY_PATH', '').split(':') if p]
        todo, seen = list(image['needed']), set()
        while todo:
            n = todo.pop()
            if n in seen or n.startswith('sys'):
                continue
            seen.add(n)
            for d in path:
                p = os.path.join(cwd, d, n)
                if os.path.exists(p):
                    todo += load(p)['needed']
                    break
            else:
                raise Fail('error while loading shared libraries: %s' % n)
        return b'5'


def quote(p):
    return p.replace('$', '$$').replace(' ', '\\ ').replace('#', '\\#')


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except OSError as e:
        raise Fail('%s: no such file' % path)
    except ValueError:
        raise Fail('%s: file format not recognized' % path)


def save(path, x):
    data = json.dumps(x, sort_keys=True, indent=0)
    try:
        if os.path.exists(path):
            os.remove(path)
        with open(path, 'w') as f:
            f.write(data)
    except OSError as e:
        raise Fail('cannot write %s: %s' % (path, e))


class Popen:
    pid = 0

    def __init__(self, tools, log, cmd, stdin=None, stdout=None, stderr=None, env=None, cwd=None, **kw):
        self.args = (tools, log, [str(c) for c in cmd], cwd or os.getcwd(), env)
        self.returncode = None

    def communicate(self, input=None):
        tools, log, cmd, cwd, env = self.args
        try:
            out, err = tools.run(log, cmd, cwd, env, None), b''
            self.returncode = 0
        except Fail as e:
            out, err = b'', ('fake: %s\n' % e).encode()
            self.returncode = 1
        return out, err

    def wait(self, timeout=None):
        return self.returncode

    def kill(self, *a, **kw):
        pass
