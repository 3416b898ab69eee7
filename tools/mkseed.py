#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec that defines
id, property, edits [(file, old, new)], needs, breaks, demo (python source)."""
import sys, os, json, subprocess, tempfile, shutil
REPO = '/repo'
HEAD = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv-pypy/bin/python; [ -x "$py" ] || py=python3
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
FBUILD_REPO=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/lib timeout 120 "$py" -W ignore "$here/demo.py" "$tmp"
'''
LIB = '''import os, subprocess, sys, time
REPO = os.environ['FBUILD_REPO']
os.chdir(sys.argv[1])

def write(name, text, age=None):
    with open(name, 'w') as f:
        f.write(text)
    if age is not None:
        t = time.time() - age
        os.utime(name, (t, t))

def read(name):
    with open(name) as f:
        return f.read()

def fbuild(*args, ok=True):
    """One build in its own process; returns what the script printed to `log`."""
    if os.path.exists('log'):
        os.remove('log')
    p = subprocess.run([sys.executable, '-W', 'ignore', REPO + '/fbuild-light'] + list(args),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    out = p.stdout.decode(errors='replace')
    if ok and p.returncode:
        print(out)
        sys.exit('the build failed')
    fbuild.rc, fbuild.out = p.returncode, out
    return read('log').split() if os.path.exists('log') else []

def expect(got, want, what):
    if got != want:
        sys.exit('%s: got %r, expected %r' % (what, got, want))

'''
def main():
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        for s in ns['SEEDS']:
            d = '/verif/seeded/' + s['id']
            os.makedirs(d, exist_ok=True)
            diffs = ''
            for path in sorted({e[0] for e in s['edits']}):
                src = open(os.path.join(REPO, path)).read()
                new = src
                for p, a, b in s['edits']:
                    if p == path:
                        assert new.count(a) == 1, (s['id'], path, new.count(a), a)
                        new = new.replace(a, b)
                t = tempfile.mkdtemp()
                for side, text in (('a', src), ('b', new)):
                    f = os.path.join(t, side, path)
                    os.makedirs(os.path.dirname(f)); open(f, 'w').write(text)
                r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + path, 'b/' + path], cwd=t, stdout=subprocess.PIPE)
                diffs += r.stdout.decode()
                shutil.rmtree(t)
            open(d + '/patch.diff', 'w').write(diffs)
            open(d + '/demo.sh', 'w').write(HEAD); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(LIB + s['demo'].lstrip('\n'))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            print('wrote', d)
main()
