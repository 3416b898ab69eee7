"""Shared plumbing: scratch directories, job pool, evidence, verdicts."""
import json
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
NPROC = int(os.environ.get('MC_NPROC', '0')) or (os.cpu_count() or 4)


def setup_path():
    """Make `import fbuild` resolve to the tree under test."""
    lib = os.path.join(REPO, 'lib')
    sys.path[:] = [lib] + [p for p in sys.path if p != lib]
    sys.dont_write_bytecode = True


_scratch_root = None

def scratch_root():
    """One scratch directory per run, on a memory file system when there is one."""
    global _scratch_root
    if _scratch_root is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        _scratch_root = tempfile.mkdtemp(prefix='mcfb-', dir=base)
        os.chmod(_scratch_root, 0o777)
    return _scratch_root


def cleanup_scratch():
    global _scratch_root
    if _scratch_root is not None:
        root = _scratch_root
        _scratch_root = None
        assert os.path.basename(root).startswith('mcfb-')
        shutil.rmtree(root, ignore_errors=True)


def drop_privileges():
    """Workers run as nobody: whatever the code under test does, it can only
    reach the scratch directory.  (Skipped where nobody cannot read the sources.)"""
    if os.getuid() != 0 or not _nobody_can_read():
        return
    os.environ['HOME'] = scratch_root()
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


_readable = None

def _nobody_can_read():
    global _readable
    if _readable is None:
        def mode_ok(path):
            path = os.path.realpath(path)
            st = os.stat(path)
            need = 0o5 if os.path.isdir(path) else 0o4
            if st.st_mode & need != need:
                return False
            while path != '/':
                path = os.path.dirname(path)
                if not os.stat(path).st_mode & 0o1:
                    return False
            return True
        lib = os.path.join(REPO, 'lib', 'fbuild')
        _readable = all(mode_ok(p) for p in (VERIF, lib, os.path.join(lib, 'db'), os.path.join(lib, 'main.py')))
    return _readable


# --------------------------------------------------------------------------
# job pool: forked workers pull job numbers from a pipe, push pickled results.

def _read_exact(fd, n):
    buf = b''
    while len(buf) < n:
        c = os.read(fd, n - len(buf))
        if not c:
            return None
        buf += c
    return buf


def run_jobs(jobs, fn, nproc=None, init=None, deadline=None):
    """Yield (index, result) for fn(job), computed in forked workers.

    A result is the value of fn, or ('__error__', text) when fn raised.  With
    `deadline` (time.monotonic value) remaining jobs are dropped when it passes;
    the caller sees fewer results.
    """
    jobs = list(jobs)
    nproc = min(nproc or NPROC, max(1, len(jobs)))
    import threading
    _nobody_can_read()
    scratch_root()
    jr, jw = os.pipe()
    pids, rfds = [], []
    sys.stdout.flush()
    for w in range(nproc):
        rr, rw = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 0
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(jw)
                os.close(rr)
                for fd in rfds:
                    os.close(fd)
                drop_privileges()
                if init is not None:
                    init(w)
                while True:
                    rec = _read_exact(jr, 4)
                    if rec is None:
                        break
                    i, = struct.unpack('<I', rec)
                    if deadline is not None and time.monotonic() > deadline:
                        res = ('__skipped__',)
                    else:
                        try:
                            res = fn(jobs[i])
                        except BaseException:
                            res = ('__error__', traceback.format_exc())
                    data = pickle.dumps((i, res), 2)
                    data = struct.pack('<I', len(data)) + data
                    while data:
                        n = os.write(rw, data)
                        data = data[n:]
            except BaseException:
                traceback.print_exc()
                status = 70
            finally:
                os._exit(status)
        os.close(rw)
        pids.append(pid)
        rfds.append(rr)
    os.close(jr)

    def feed():
        try:
            for i in range(len(jobs)):
                os.write(jw, struct.pack('<I', i))
        except OSError:
            pass
        finally:
            os.close(jw)
    t = threading.Thread(target=feed, daemon=True)
    t.start()

    import select
    bufs = {fd: b'' for fd in rfds}
    live = set(rfds)
    poller = select.poll()
    for fd in live:
        poller.register(fd, select.POLLIN | select.POLLHUP)
    while live:
        for fd, ev in poller.poll():
            c = os.read(fd, 1 << 16)
            if not c:
                live.discard(fd)
                poller.unregister(fd)
                os.close(fd)
                continue
            b = bufs[fd] + c
            while len(b) >= 4:
                n, = struct.unpack('<I', b[:4])
                if len(b) < 4 + n:
                    break
                rec, b = b[4:4 + n], b[4 + n:]
                yield pickle.loads(rec)
            bufs[fd] = b
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st:
            bad = st
    if bad:
        raise RuntimeError('a worker process died (wait status %r)' % bad)


# --------------------------------------------------------------------------

def load_known():
    """known_findings.txt: lines `open: property=<id> key=<key> <text>`, and
    `fixed: property=...` entries, which suppress nothing."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('open:'):
                parts = line[5:].split(None, 2)
                prop = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                known.setdefault(prop, {})[key] = parts[2] if len(parts) > 2 else ''
    return known


class Report:
    """Collects what a check covered and what it found; writes the evidence."""

    def __init__(self, prop, level, assumptions=()):
        self.prop = prop
        self.level = level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.monotonic()
        self.coverage = {}
        self.samples = []
        self.violations = []      # (key, summary, replay object)
        self.known = load_known().get(prop, {})
        self.known_hit = {}

    def add(self, **counts):
        for k, v in counts.items():
            self.coverage[k] = self.coverage.get(k, 0) + v

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, summary, replay):
        if key in self.known:
            self.known_hit.setdefault(key, summary)
            return
        self.violations.append((key, summary, replay))

    def finish(self):
        wall = time.monotonic() - self.t0
        cov = dict(self.coverage)
        cov['samples'] = self.samples or ['(none)']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        for key, text in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, self.known[key] or text))
        rc = 0
        if self.violations:
            rc = 1
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            shown = 0
            seen = set()
            for n, (key, summary, replay) in enumerate(self.violations):
                if key in seen:
                    continue
                seen.add(key)
                path = os.path.join(rd, '%s-%d.json' % (self.prop, shown))
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'key': key,
                               'summary': summary, 'replay': replay}, f,
                              indent=1, default=repr)
                print('  %s: %s' % (key, summary))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                shown += 1
                if shown >= int(os.environ.get("MC_SHOW", "5")):
                    break
            print('%d violating executions in all' % len(self.violations))
        print('%s %s: %s in %.1f s: %s' % (
            self.prop, self.tier, 'VIOLATED' if rc else 'held', wall,
            ', '.join('%s=%s' % (k, v) for k, v in sorted(cov.items())
                      if isinstance(v, (int, float, bool)))))
        sys.stdout.flush()
        return rc
