"""Runs every case of a finite space in unprivileged forked workers."""
import contextlib
import os
import pickle
import shutil
import signal
import traceback

from . import util


class Bad(Exception):
    """The code under test did not do what the property says."""
    def __init__(self, kind, text):
        super().__init__(kind, text)
        self.kind = kind
        self.text = text


def forked(fn, *args, timeout=120):
    """fn(*args) in a child process: its result, or ('__error__', text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                signal.alarm(timeout)
                res = fn(*args)
            except BaseException:
                res = ('__error__', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('__error__', 'the process died (status %d)' % st)
    return pickle.loads(data)


def run(rep, cases, fn, key, chunk=20, fork=True, init=None, sample_every=None, timeout=600, alone=120):
    """fn(case, wd) -> (states, transitions[, sample]); raises Bad.  `states` is an iterable
    of hashable canonical states, counted once over all cases.

    key(case, kind) names a violation."""
    cases = list(cases)
    root = util.scratch_root()
    jobs = [list(range(i, min(i + chunk, len(cases)))) for i in range(0, len(cases), chunk)]

    def batch(indexes):
        out = []
        for i in indexes:
            wd = os.path.join(root, 'w%d' % os.getpid())
            force_remove(wd)
            os.mkdir(wd)
            try:
                res = fn(cases[i], wd)
                out.append((i, 'ok') + tuple(res))
            except Bad as e:
                out.append((i, 'bad', e.kind, e.text))
            except BaseException as e:
                out.append((i, 'bad', 'failed', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-700:])))
            finally:
                os.chdir(root)
                force_remove(wd)
        return out

    def job(indexes):
        res = forked(batch, indexes, timeout=timeout) if fork else batch(indexes)
        if isinstance(res, tuple):
            # find the case that kills the process
            out = []
            for i in indexes:
                r = forked(batch, [i], timeout=alone)
                out += r if isinstance(r, list) else [(i, 'bad', 'died', r[1])]
            return out
        return res

    states = set()
    for n, res in util.run_jobs(jobs, job, init=init):
        if isinstance(res, tuple):
            raise RuntimeError(res[1])
        for r in res:
            i = r[0]
            rep.add(traces_validated_against_impl=1)
            if r[1] == 'ok':
                states.update(r[2])
                rep.add(transitions=r[3])
                if len(r) > 4 and r[4] and (sample_every is None or i % sample_every == 0):
                    rep.sample(r[4])
            else:
                rep.violation(key(cases[i], r[2]), '%s: %s' % (r[2], r[3]), {'case': cases[i], 'kind': r[2], 'text': r[3]})
    rep.coverage['states'] = rep.coverage.get('states', 0) + len(states)
    return len(cases)


def force_remove(wd):
    if not os.path.lexists(wd):
        return
    for d, ds, fs in os.walk(wd):
        for x in ds:
            p = os.path.join(d, x)
            if not os.path.islink(p):
                with contextlib.suppress(OSError):
                    os.chmod(p, 0o700)
    shutil.rmtree(wd, ignore_errors=True)


def tree(wd, skip=()):
    """{path: (kind, mode, contents)} of everything below wd."""
    out = {}
    for d, ds, fs in os.walk(wd):
        for x in sorted(ds + fs):
            p = os.path.join(d, x)
            rel = os.path.relpath(p, wd)
            if rel.split(os.sep)[0] in skip:
                continue
            st = os.lstat(p)
            if os.path.islink(p):
                out[rel] = ('link', None, os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ('dir', st.st_mode & 0o7777, None)
            else:
                os_mode = st.st_mode & 0o7777
                try:
                    with open(p, 'rb') as f:
                        data = f.read()
                except PermissionError:
                    os.chmod(p, 0o600)
                    with open(p, 'rb') as f:
                        data = f.read()
                    os.chmod(p, os_mode)
                out[rel] = ('file', os_mode, data)
    return out
