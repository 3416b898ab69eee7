"""Explores scenarios on the shimmed modules, in parallel, and reports."""
import gc
import io
import os
import sys
import time

from .. import util
from . import kernel, loader, shims


def load():
    util.setup_path()
    if not any(isinstance(f, loader.Finder) for f in sys.meta_path):
        loader.install(os.path.join(util.REPO, 'lib'))
    import fbuild.sched, fbuild.rpc, fbuild.console      # noqa
    return fbuild


class NullLogger:
    """A logger that takes no part in the schedule."""
    def log_from_thread(self):
        return self
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Run:
    """One execution of a scenario: what its threads did."""

    def __init__(self, scn, k):
        self.scn = scn
        self.k = k
        self.calls = []          # what was called, in the order of the calls
        self.events = []
        self.problems = []
        self.result = None
        self.keep = []           # keeps objects alive until the end
        self.open = {}           # thread -> what build code it is in

    def main(self):
        try:
            self.result = ('ok', self.scn.body(self))
        except kernel.Abort:
            raise
        except BaseException as e:
            self.result = ('exc', e)

    def problem(self, text):
        if text not in self.problems:
            self.problems.append(text)

    # -- for the bodies of tasks
    def point(self):
        kernel.point()

    def judge(self, k, out):
        if out != 'done':
            return '%s: %s still %s' % (out, ', '.join(k.stuck) or '?', 'waiting' if out == 'deadlock' else 'running')
        if k.stuck:
            left = [n for n in k.stuck]
            if not self.scn.may_stay(self, left):
                return 'threads left behind after shutdown: %s' % ', '.join(left)
        if self.problems:
            return '; '.join(self.problems[:3])
        return self.scn.check(self)

    def key(self):
        return self.scn.key(self)

    def close(self):
        self.keep = None


class Scenario:
    name = '?'
    max_steps = 6000

    def start(self, k):
        return Run(self, k)

    def body(self, run):
        raise NotImplementedError

    def check(self, run):
        return None

    def may_stay(self, run, names):
        return False

    def key(self, run):
        r = run.result
        if r is None:
            return 'no result'
        return '%s %r' % (r[0], r[1] if r[0] == 'ok' else (type(r[1]).__name__, str(r[1])))


def describe(scn, policy, dev):
    k, wrong, key = kernel.execute(scn, policy, dict(dev), keep_trace=True)
    out, last = [], None
    for t in k.trace:
        if t == last:
            out[-1][1] += 1
        else:
            out.append([t, 1])
            last = t
    return wrong, ' '.join('%sx%d' % (n, c) for n, c in out)


_first = {}

def explore(report, configs, budget=None):
    """configs: (scenario, policy, bound)."""
    deadline = time.monotonic() + budget if budget else None
    err = sys.stderr
    gc.collect()
    gc.disable()
    # let the JIT see it before forking
    t = time.monotonic()
    for scn, policy, bound in configs[:6]:
        while time.monotonic() - t < 1.0:
            kernel.execute(scn, policy, {})
            break
    for _ in range(3):
        for scn, policy, bound in configs[:20]:
            if time.monotonic() - t < 3.0:
                kernel.execute(scn, policy, {})

    count = [0]
    def collect():
        count[0] += 1
        if count[0] % 20 == 0:
            gc.collect()

    def quiet(w):
        devnull = open(os.devnull, 'w')
        sys.stderr = devnull
        gc.disable()

    def phase1(i):
        scn, policy, bound = configs[i]
        k, wrong, key, firsts = kernel.firsts(scn, policy)
        # a second time: the same execution?
        k2, wrong2, key2, firsts2 = kernel.firsts(scn, policy)
        if k.alts != k2.alts or key != key2:
            return ('__error__', 'replaying %s does not give the same execution' % scn.name)
        if getattr(scn, 'whole', False):
            # preparing it is the expensive part
            res = phase2((i, firsts)) if bound >= 1 and not wrong else None
            gc.collect()
            return k.step, wrong, key, (), res
        collect()
        return k.step, wrong, key, firsts, None

    jobs = []
    nviol = 0
    outcomes = {}

    def record(i, dev, wrong):
        scn, policy, bound = configs[i]
        w, trace = describe(scn, policy, dev)
        key = '%s/%s/%s' % (scn.name, policy, wrong.split('\n')[0][:120])
        report.violation(key.replace(' ', '_'), '%s: %s' % (scn.name, wrong),
                         {'scenario': scn.name, 'policy': policy, 'deviations': dev, 'schedule': trace, 'wrong': w})

    def phase2(job):
        i, part = job
        scn, policy, bound = configs[i]
        tot = kernel.Result()
        for f in part:
            if deadline and time.monotonic() > deadline:
                tot.cut = True
                break
            r = kernel.explore(scn, policy, bound, first=f)
            tot.executions += r.executions
            tot.steps += r.steps
            tot.new += r.new
            tot.max_steps = max(tot.max_steps, r.max_steps)
            tot.violations += r.violations
            tot.outcomes |= r.outcomes
            tot.cut |= r.cut
            if tot.violations:
                break
            collect()
        return tot.executions, tot.steps, tot.new, tot.max_steps, tot.violations[:2], list(tot.outcomes)[:50], tot.cut

    def add(i, res):
        nonlocal nviol
        ex, steps, new, ms, viols, outs, cut = res
        report.add(traces_validated_against_impl=ex, transitions=steps, states=new)
        report.coverage['longest_schedule'] = max(report.coverage.get('longest_schedule', 0), ms)
        outcomes[i].update(outs)
        if cut and not viols:
            report.coverage['cut_short'] = True
        for dev, wrong in viols:
            nviol += 1
            if nviol <= 20:
                record(i, dev, wrong)

    for i, res in util.run_jobs(range(len(configs)), phase1, init=quiet):
        scn, policy, bound = configs[i]
        if res[0] == '__error__':
            raise RuntimeError('harness error in %s:\n%s' % (scn.name, res[1]))
        steps, wrong, key, firsts, more = res
        report.add(traces_validated_against_impl=1, transitions=steps, states=steps)
        outcomes.setdefault(i, set()).add(key)
        if wrong:
            nviol += 1
            record(i, [], wrong)
            continue
        if more:
            add(i, more)
        if bound >= 1 and firsts:
            n = max(1, min(len(firsts), 64 if bound > 1 else 8))
            for c in range(n):
                part = firsts[c::n]
                if part:
                    jobs.append((i, part))
    # the big ones first
    jobs.sort(key=lambda j: -configs[j[0]][2])

    for j, res in util.run_jobs(jobs, phase2, init=quiet):
        i = jobs[j][0]
        if res[0] == '__error__':
            raise RuntimeError('harness error in %s:\n%s' % (configs[i][0].name, res[1]))
        add(i, res)
    report.coverage['configurations'] = report.coverage.get('configurations', 0) + len(configs)
    report.coverage['distinct_outcomes'] = sum(len(o) for o in outcomes.values())
    for i, (scn, policy, bound) in enumerate(configs):
        if i % max(1, len(configs) // 4) == 0:
            report.sample({'scenario': scn.name, 'policy': policy, 'deviations': bound, 'outcomes': sorted(outcomes.get(i, ()))[:2]})
    gc.enable()
    return outcomes
