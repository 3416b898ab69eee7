"""A deterministic scheduler for the threads of the code under test.

The threads are greenlets.  The code under test gets the primitives of shims.py in
place of `threading`, `queue`, `time` and `_thread`, and has a scheduling point in
front of every statement that touches anything but local variables (loader.py).  At
every scheduling point the kernel picks the thread to continue.

One execution is given by a base policy and a set of deviations from it: {step: k}
means that in scheduling step `step` the k-th alternative is taken instead of what the
policy says.  `explore` enumerates all executions with at most n deviations.
"""
import contextvars
import gc
import sys

import greenlet

K = None          # the kernel of the current execution


class Abort(BaseException):
    """Thrown into the threads of an execution that is given up."""


class HarnessError(Exception):
    pass


class Th:
    __slots__ = ('g', 'name', 'ident', 'cond', 'timeout', 'timed_out', 'waitfor', 'done', 'obj', 'pending', 'exc', 'start_fn', 'signalled', 'masked')

    def __init__(self, name, ident):
        self.name = name
        self.ident = ident
        self.cond = None         # what it is blocked on
        self.timeout = False     # a timed wait
        self.timed_out = False
        self.waitfor = None      # threads to let run first, after a yield
        self.done = False
        self.obj = None          # the Thread object
        self.pending = None      # an exception to deliver
        self.exc = None
        self.signalled = 0       # signals to handle
        self.masked = False      # signals have to wait
        self.g = None


class Kernel:
    def __init__(self, policy='run', deviations=(), max_steps=20000, interrupts=0):
        self.policy = policy
        self.deviations = dict(deviations)
        self.max_steps = max_steps
        self.threads = []
        self.current = None
        self.step = 0
        self.alts = []           # number of alternatives in every step
        self.trace = []          # names of the chosen threads, only kept on request
        self.keep_trace = False
        self.outcome = None
        self.aborted = False
        self.next = None
        self.nident = 0
        self.interruptible = interrupts    # how many KeyboardInterrupts the main thread gets
        self.signals = 0         # how many SIGINTs can come
        self.handler = None      # what to do about one
        self.gaps = False        # Python's own operations can be interrupted half way
        self.sent = []           # the steps they came at
        self.rr = 0
        self.monitors = []

    # -- threads -------------------------------------------------------------

    def spawn(self, fn, name, obj=None):
        self.nident += 1
        th = Th(name, self.nident)
        th.obj = obj

        def body():
            try:
                contextvars.Context().run(fn)
            except Abort:
                pass
            except BaseException as e:
                th.exc = e
            th.done = True
            if not self.aborted:
                self.next = self.pick(th)
            # falls back to the hub
        th.g = greenlet.greenlet(body, parent=self.hub)
        self.threads.append(th)
        return th

    def run(self, main):
        """Run main() and everything it starts.  Returns the outcome."""
        global K
        if K is not None:
            raise HarnessError('nested executions')
        self.hub = greenlet.getcurrent()
        K = self
        try:
            th = self.spawn(main, 'MainThread')
            self.main = th
            self.current = th
            self.next = th
            while self.next is not None and self.outcome is None:
                n = self.next
                self.next = None
                self.current = n
                n.g.switch()
            if self.outcome is None:
                self.outcome = 'done'
        finally:
            self.stuck = [t.name for t in self.threads if not t.done]
            self.aborted = True
            for t in self.threads:
                if not t.done and t.g:
                    for _ in range(50):
                        try:
                            t.g.throw(Abort)
                        except BaseException:
                            pass
                        if t.g.dead:
                            break
            K = None
        return self.outcome

    def give_up(self, outcome):
        self.outcome = outcome
        self.hub.switch()
        raise Abort()

    # -- scheduling ------------------------------------------------------------

    def enabled(self, th):
        if th.done:
            return False
        if th.cond is None:
            return True
        if th.pending is not None or th.signalled and not th.masked:
            return True
        return bool(th.cond())

    def candidates(self, cur):
        """Threads that can run, the default one first.  Timed waits can end at any
        time, but by default only when nothing else can happen."""
        ths = self.threads
        n = len(ths)
        ready, yielding, timed = [], [], []
        start = ths.index(cur)
        for i in range(n):
            t = ths[(start + i) % n]
            if t.done:
                continue
            if not self.enabled(t):
                if t.timeout:
                    timed.append(t)
                continue
            if t.waitfor:
                for u in list(t.waitfor):
                    if u.done or not self.enabled(u):
                        t.waitfor.discard(u)
            if t.waitfor:
                yielding.append(t)
            else:
                ready.append(t)
        if not ready:
            ready, yielding = yielding, []
        if not ready:
            ready, timed = timed, []
        if len(ready) > 1:
            p = self.policy
            if p == 'rr':
                # the next thread after the current one
                if ready[0] is cur:
                    ready.append(ready.pop(0))
            elif p == 'new':
                # the youngest thread first
                if ready[0] is not cur or ready[-1].ident > cur.ident:
                    ready.sort(key=lambda t: -t.ident)
            elif p == 'old':
                # when the current thread can't continue, the oldest one
                if ready[0] is not cur:
                    ready.sort(key=lambda t: t.ident)
        return ready, timed

    def pick(self, cur):
        self.step += 1
        if self.step > self.max_steps:
            self.outcome = 'livelock'
            return None
        ready, timed = self.candidates(cur)
        if not ready:
            if self.main.done:
                return None
            self.outcome = 'deadlock'
            return None
        n = len(ready) + len(timed)
        # the last alternative: a signal arrives, which the main thread handles
        signal = self.signals > 0 and not self.main.done and not self.main.masked
        if n == 1 and not signal:
            self.alts.append(1)
            t = ready[0]
        elif signal:
            self.alts.append(n + 1)
            k = self.deviations.get(self.step - 1, 0)
            if k > n:
                raise HarnessError('the execution is not deterministic')
            if k == n:
                self.signals -= 1
                self.sent.append(self.step - 1)
                t = self.main
                t.signalled += 1
            else:
                t = (ready + timed)[k]
        else:
            self.alts.append(n)
            k = self.deviations.get(self.step - 1, 0)
            if k >= n:
                raise HarnessError('the execution is not deterministic')
            t = (ready + timed)[k]
        if t.timeout and t.cond is not None and not t.cond() and not (t.signalled and not t.masked):
            t.timed_out = True
        for u in self.threads:
            if u.waitfor and u is not t:
                u.waitfor.discard(t)
        if t is not cur:
            t.waitfor = None
        if self.keep_trace:
            self.trace.append(t.name)
        return t

    def resched(self):
        """Let the kernel choose; returns when the caller has been chosen."""
        if self.aborted:
            raise Abort()
        cur = self.current
        self.switch(cur)
        while cur.signalled and not cur.masked:
            # Python's signal handlers run in the main thread, whatever it is waiting for
            cur.signalled -= 1
            saved, cur.cond, cur.timeout = (cur.cond, cur.timeout), None, False
            self.handler()
            cur.cond, cur.timeout = saved
            if cur.cond is not None and not cur.cond() and not cur.timed_out:
                self.switch(cur)

    def switch(self, cur):
        t = self.pick(cur)
        if t is None:
            self.hub.switch()
            raise Abort()
        if t is not cur:
            self.current = t
            t.g.switch()
            if self.aborted:
                raise Abort()
        if cur.pending is not None:
            e, cur.pending = cur.pending, None
            cur.cond = None
            raise e

    def block(self, cond, timeout=False):
        """Wait until cond(); with a timeout, returns False if that came first."""
        cur = self.current
        cur.cond = cond
        cur.timeout = timeout
        cur.timed_out = False
        try:
            self.resched()
        finally:
            cur.cond = None
            cur.timeout = False
        return not cur.timed_out

    def yield_(self):
        """The current thread is polling: let the others go first."""
        cur = self.current
        cur.waitfor = {t for t in self.threads if t is not cur and not t.done and self.enabled(t)}
        self.resched()
        cur.waitfor = None


def point():
    k = K
    if k is not None and not k.aborted:
        k.resched()
    elif k is not None:
        raise Abort()


# ---------------------------------------------------------------------------

class Result:
    __slots__ = ('executions', 'steps', 'new', 'max_steps', 'violations', 'outcomes', 'cut')

    def __init__(self):
        self.executions = self.steps = self.new = self.max_steps = 0
        self.violations = []
        self.outcomes = set()
        self.cut = False


def execute(scenario, policy, deviations, keep_trace=False):
    """One execution.  Returns (kernel, what is wrong with it or None, outcome key)."""
    k = Kernel(policy, deviations, max_steps=scenario.max_steps)
    k.keep_trace = keep_trace
    run = scenario.start(k)
    out = k.run(run.main)
    if getattr(k, 'error', None):
        raise k.error
    try:
        wrong = run.judge(k, out)
    finally:
        run.close()
    return k, wrong, run.key()


def explore(scenario, policy, bound, first=None, limit=None):
    """All executions with at most `bound` deviations; with `first` = (step, alt), only
    those whose first deviation that is."""
    res = Result()
    stack = [dict([first]) if first else {}]
    while stack:
        dev = stack.pop()
        k, wrong, key = execute(scenario, policy, dev)
        res.executions += 1
        res.steps += k.step
        # the part of the tree of schedules not seen before
        res.new += k.step - (max(dev) if dev else 0)
        res.max_steps = max(res.max_steps, k.step)
        res.outcomes.add(key)
        if wrong:
            res.violations.append((sorted(dev.items()), wrong))
            if len(res.violations) >= 3:
                res.cut = True
                return res
            continue
        if limit and res.executions >= limit:
            res.cut = True
            return res
        if len(dev) < bound:
            for s in range(max(dev) + 1 if dev else 0, len(k.alts)):
                for a in range(1, k.alts[s]):
                    d = dict(dev)
                    d[s] = a
                    stack.append(d)
    return res


def firsts(scenario, policy):
    """The undeviated execution, and all first deviations."""
    k, wrong, key = execute(scenario, policy, {})
    return k, wrong, key, [(s, a) for s in range(len(k.alts)) for a in range(1, k.alts[s])]
