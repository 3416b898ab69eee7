"""Stand-ins for threading, queue, _thread and time.  Every operation is atomic and
preceded by a scheduling point, as the real ones are atomic to their users."""
import collections
import contextlib
import heapq
import sys
import time as _time
import types

from . import kernel


def _k():
    k = kernel.K
    return k if k is not None and not k.aborted else None


def _point():
    kernel.point()


def _wait(cond, timeout=None):
    """Block until cond().  Returns False on timeout."""
    k = _k()
    if k is None:
        if kernel.K is not None:
            raise kernel.Abort()
        return cond()
    if cond():
        return True
    return k.block(cond, timeout=timeout is not None)


def _me():
    k = kernel.K
    return k.current if k is not None else None


class Lock:
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        _point()
        me = _me() or 'none'
        if self._owner is not None:
            if not blocking:
                return False
            if not _wait(lambda: self._owner is None, None if timeout < 0 else timeout):
                return False
        self._owner = me
        return True

    def release(self):
        # (an interruption comes before or after it, not instead of it)
        try:
            if kernel.K is None or not kernel.K.aborted:
                _point()
        finally:
            if self._owner is None and kernel.K is not None and not kernel.K.aborted:
                raise RuntimeError('release unlocked lock')
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner is not None

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class RLock(Lock):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        _point()
        me = _me() or 'none'
        if self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if not _wait(lambda: self._owner is None, None if timeout < 0 else timeout):
                return False
        self._owner = me
        self._count = 1
        return True

    __enter__ = acquire

    def release(self):
        try:
            if kernel.K is None or not kernel.K.aborted:
                _point()
        finally:
            if self._owner is not (_me() or 'none') and kernel.K is not None and not kernel.K.aborted:
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count <= 0:
                self._owner = None

    def _is_owned(self):
        return self._owner is (_me() or 'none')

    def _release_save(self):
        st = (self._count, self._owner)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        _wait(lambda: self._owner is None)
        self._count, self._owner = st


class Condition:
    def __init__(self, lock=None):
        self._lock = RLock() if lock is None else lock
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = collections.deque()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        if kernel.K is not None and kernel.K.gaps:
            # a function of Python's library: interrupted here, the lock stays locked
            _point()
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        if not self._lock._is_owned():
            raise RuntimeError('cannot wait on un-acquired lock')
        token = [False]
        self._waiters.append(token)
        if hasattr(self._lock, '_release_save'):
            st = self._lock._release_save()
        else:
            self._lock._owner = None
            st = None
        try:
            got = _wait(lambda: token[0], timeout)
            if not got and token in self._waiters:
                self._waiters.remove(token)
            return got
        finally:
            if kernel.K is not None and not kernel.K.aborted:
                me = _me()
                me.masked = True
                try:
                    if st is not None:
                        self._lock._acquire_restore(st)
                    else:
                        _wait(lambda: self._lock._owner is None)
                        self._lock._owner = me
                finally:
                    me.masked = False

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._lock._is_owned():
            raise RuntimeError('cannot notify on un-acquired lock')
        while n > 0 and self._waiters:
            self._waiters.popleft()[0] = True
            n -= 1

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        _point()
        return self._flag

    isSet = is_set

    def set(self):
        _point()
        self._flag = True

    def clear(self):
        _point()
        self._flag = False

    def wait(self, timeout=None):
        _point()
        if self._flag:
            return True
        _wait(lambda: self._flag, timeout)
        return self._flag


class Semaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        _point()
        if self._value <= 0:
            if not blocking:
                return False
            if not _wait(lambda: self._value > 0, timeout):
                return False
        self._value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        _point()
        self._value += n

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._initial = value

    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError('Semaphore released too many times')
        super().release(n)


class Barrier:
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self._n, self._round = parties, 0, 0

    def wait(self, timeout=None):
        _point()
        i, r = self._n, self._round
        self._n += 1
        if self._n == self.parties:
            self._n = 0
            self._round += 1
        else:
            _wait(lambda: self._round != r)
        return i


# -- threads -----------------------------------------------------------------------

class Thread:
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        k = kernel.K
        n = getattr(k, 'thread_names', 0) + 1
        if k is not None:
            k.thread_names = n
        self._name = str(name or 'Thread-%d' % n)
        if daemon is None:
            me = _me()
            daemon = me is not None and me.obj is not None and me.obj.daemon
        self._daemonic = bool(daemon)
        self._th = None
        self._started = Event()

    name = property(lambda s: s._name, lambda s, v: setattr(s, '_name', str(v)))
    daemon = property(lambda s: s._daemonic, lambda s, v: setattr(s, '_daemonic', bool(v)))
    ident = property(lambda s: s._th.ident if s._th is not None else None)
    native_id = ident

    def isDaemon(self): return self.daemon
    def setDaemon(self, v): self.daemon = v
    def getName(self): return self.name
    def setName(self, v): self.name = v

    def __repr__(self):
        return '<%s(%s)>' % (type(self).__name__, self._name)

    def start(self):
        if self._started._flag:
            raise RuntimeError('threads can only be started once')
        _point()
        k = _k()
        if k is None:
            raise kernel.HarnessError('thread started outside of an execution')
        self._th = k.spawn(self._bootstrap, self._name, self)
        self._started.wait()

    def _bootstrap(self):
        self._started.set()
        self.run()

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        _point()
        return self._th is not None and not self._th.done

    isAlive = is_alive

    def join(self, timeout=None):
        if self._th is None:
            raise RuntimeError('cannot join thread before it is started')
        if self._th is _me():
            raise RuntimeError('cannot join current thread')
        _point()
        _wait(lambda: self._th.done, timeout)


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.function, self.args, self.kwargs = function, args or [], kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(1)
        if not self.finished._flag:
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _MainThread(Thread):
    def __init__(self, th):
        super().__init__(name='MainThread', daemon=False)
        self._th = th
        self._started._flag = True


def current_thread():
    me = _me()
    if me is None:
        return _nothread
    if me.obj is None:
        me.obj = _MainThread(me)
    return me.obj

_nothread = Thread(name='NoThread')


def main_thread():
    k = kernel.K
    if k.main.obj is None:
        k.main.obj = _MainThread(k.main)
    return k.main.obj


def get_ident():
    me = _me()
    return me.ident if me is not None else 0


def enumerate_():
    k = kernel.K
    return [t.obj or current_thread() for t in k.threads if not t.done]


def interrupt_main(signum=2):
    k = _k()
    if k is not None and k.handler is not None:
        k.main.signalled += 1
    elif k is not None:
        k.main.pending = KeyboardInterrupt()


class local:
    __slots__ = ('_mc_state', '__dict__')

    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        dicts = {get_ident(): {}}
        object.__setattr__(self, '_mc_state', (args, kw, dicts))
        return self

    @staticmethod
    def _patch(self):
        args, kw, dicts = object.__getattribute__(self, '_mc_state')
        i = get_ident()
        d = dicts.get(i)
        if d is None:
            d = dicts[i] = {}
            object.__setattr__(self, '__dict__', d)
            cls = type(self)
            if cls.__init__ is not object.__init__:
                cls.__init__(self, *args, **kw)
        else:
            object.__setattr__(self, '__dict__', d)

    def __getattribute__(self, name):
        local._patch(self)
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        local._patch(self)
        return object.__setattr__(self, name, value)

    def __delattr__(self, name):
        local._patch(self)
        return object.__delattr__(self, name)


# -- queues -------------------------------------------------------------------------

class Empty(Exception):
    pass


class Full(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.unfinished_tasks = 0
        self._init(maxsize)

    def _init(self, maxsize):
        self.queue = collections.deque()

    def _qsize(self):
        return len(self.queue)

    def _put(self, item):
        self.queue.append(item)

    def _get(self):
        return self.queue.popleft()

    def put(self, item, block=True, timeout=None):
        _point()
        if 0 < self.maxsize <= self._qsize():
            if not block:
                raise Full
            if not _wait(lambda: self._qsize() < self.maxsize, timeout):
                raise Full
        self._put(item)
        self.unfinished_tasks += 1

    def get(self, block=True, timeout=None):
        _point()
        if not self._qsize():
            if not block:
                k = _k()
                if k is not None:
                    k.yield_()
                raise Empty
            if not _wait(lambda: self._qsize(), timeout):
                raise Empty
        return self._get()

    def put_nowait(self, item):
        self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        _point()
        if self.unfinished_tasks <= 0:
            raise ValueError('task_done() called too many times')
        self.unfinished_tasks -= 1

    def join(self):
        _point()
        _wait(lambda: self.unfinished_tasks == 0)

    def qsize(self):
        _point()
        return self._qsize()

    def empty(self):
        _point()
        return not self._qsize()

    def full(self):
        _point()
        return 0 < self.maxsize <= self._qsize()


class LifoQueue(Queue):
    def _init(self, maxsize):
        self.queue = []

    def _get(self):
        return self.queue.pop()


class PriorityQueue(Queue):
    def _init(self, maxsize):
        self.queue = []

    def _put(self, item):
        heapq.heappush(self.queue, item)

    def _get(self):
        return heapq.heappop(self.queue)


class SimpleQueue(Queue):
    pass


# -- modules ------------------------------------------------------------------------

def sleep(seconds):
    _point()
    k = _k()
    if k is not None:
        k.yield_()


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def _start_new_thread(fn, args=(), kwargs={}):
    t = Thread(target=fn, args=args, kwargs=kwargs, daemon=True)
    t.start()
    return t.ident


threading = _module('threading', Lock=Lock, RLock=RLock, Condition=Condition, Event=Event,
    Semaphore=Semaphore, BoundedSemaphore=BoundedSemaphore, Barrier=Barrier, Thread=Thread, Timer=Timer,
    current_thread=current_thread, currentThread=current_thread, main_thread=main_thread, get_ident=get_ident,
    get_native_id=get_ident, enumerate=enumerate_, active_count=lambda: len(enumerate_()), local=local,
    ThreadError=RuntimeError, TIMEOUT_MAX=1e9, excepthook=lambda *a: None, _register_atexit=lambda *a, **k: None,
    _MainThread=_MainThread)

queue = _module('queue', Queue=Queue, LifoQueue=LifoQueue, PriorityQueue=PriorityQueue,
    SimpleQueue=SimpleQueue, Empty=Empty, Full=Full)

_thread = _module('_thread', allocate_lock=Lock, allocate=Lock, LockType=Lock, RLock=RLock, error=RuntimeError,
    get_ident=get_ident, interrupt_main=interrupt_main, start_new_thread=_start_new_thread, _local=local,
    TIMEOUT_MAX=1e9)

time = _module('time', **{n: getattr(_time, n) for n in dir(_time) if not n.startswith('__')})
time.sleep = sleep

MODULES = {'threading': threading, 'queue': queue, '_thread': _thread, 'time': time}
