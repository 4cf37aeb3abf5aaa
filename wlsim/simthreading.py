"""threading facade: threads of a simulated process are kernel tasks."""
import threading as _real
import types


class SimEventPrim(object):
    def __init__(self, k):
        self._k = k
        self._flag = False

    def is_set(self):
        self._k.y()
        return self._flag
    isSet = is_set

    def set(self):
        self._k.y()
        self._flag = True
        self._k.log('event_set')

    def clear(self):
        self._k.y()
        self._flag = False

    def wait(self, timeout=None):
        k = self._k
        k.wait(lambda: self._flag, None if timeout is None else k.now + timeout, 'Event.wait')
        return self._flag


class SimLock(object):
    def __init__(self, k, reentrant=False):
        self._k = k
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        k = self._k
        k.y()
        me = k.current
        if self._re and self._owner is me and self._n:
            self._n += 1
            return True
        if self._n:
            if not blocking:
                return False
            if not k.wait(lambda: self._n == 0, None if timeout is None or timeout < 0 else k.now + timeout, 'Lock'):
                return False
            # nobody can have taken it between the wakeup and here except through a preemption in wait()
            while self._n:
                if not k.wait(lambda: self._n == 0, None, 'Lock'):
                    return False
        self._owner = me
        self._n = 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError('release unlocked lock')
        if self._re and self._owner is not self._k.current:
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None
        self._k.y()

    def locked(self):
        return self._n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimCondition(object):
    def __init__(self, k, lock=None):
        self._k = k
        self._lock = lock if lock is not None else SimLock(k, True)
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        k = self._k
        w = [False]
        self._waiters.append(w)
        n = self._lock._n
        for _ in range(n):
            self._lock.release()
        try:
            ok = k.wait(lambda: w[0], None if timeout is None else k.now + timeout, 'Condition')
        finally:
            if w in self._waiters:
                self._waiters.remove(w)
        for _ in range(n):
            self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else self._k.now + timeout
        r = predicate()
        while not r:
            if end is not None and self._k.now >= end:
                break
            self.wait(None if end is None else end - self._k.now)
            r = predicate()
        return r

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
            self._waiters.remove(w)

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


class SimSemaphore(object):
    def __init__(self, k, value=1):
        self._k = k
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        k = self._k
        k.y()
        if self._v <= 0 and not blocking:
            return False
        end = None if timeout is None else k.now + timeout
        while self._v <= 0:
            if not k.wait(lambda: self._v > 0, end, 'Semaphore'):
                return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n
        self._k.y()
    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def make(proc):
    k = proc.kernel
    m = types.ModuleType('threading')
    counter = [0]

    class Thread(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            counter[0] += 1
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            self.name = name or 'Thread-%d' % counter[0]
            self.daemon = bool(daemon)
            self._task = None
            self.ident = None

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if self._task is not None:
                raise RuntimeError('threads can only be started once')
            k.y()
            f = proc.__dict__.get('thread_fault')
            if f:
                f -= 1
                proc.thread_fault = f
                if f == 0:
                    k.fault('thread_start')
                    raise RuntimeError("can't start new thread")

            def body():
                try:
                    self.run()
                except SystemExit:
                    pass
                except Exception as e:  # printed by threading.excepthook in reality
                    proc.thread_errors.append((self.name, e))
                    k.log('thread_error', type(e).__name__)
            self._task = k.spawn(proc, '%s/%s' % (proc.name, self.name), body)
            self._task_thread = self
            self.ident = self._task.id + 1
            by_task[self._task.id] = self
            proc.__dict__.setdefault('threads', []).append(self)
            k.y()

        def is_alive(self):
            k.y()
            return self._task is not None and not self._task.done
        isAlive = is_alive

        def join(self, timeout=None):
            if self._task is None:
                raise RuntimeError('cannot join thread before it is started')
            if k.current is self._task:
                raise RuntimeError('cannot join current thread')
            k.wait(lambda: self._task.done, None if timeout is None else k.now + timeout, 'Thread.join')

        def setDaemon(self, v):
            self.daemon = bool(v)

        def isDaemon(self):
            return self.daemon

        def getName(self):
            return self.name

        def setName(self, n):
            self.name = n

    by_task = {}

    class _Main(object):
        name = 'MainThread'
        daemon = False
        ident = 0

        def is_alive(self):
            return True

        def join(self, timeout=None):
            raise RuntimeError('cannot join current thread')
    main = _Main()

    def current_thread():
        t = k.current
        return by_task.get(t.id, main) if t is not None else main

    class Timer(Thread):
        def __init__(self, interval, function, args=None, kwargs=None):
            Thread.__init__(self)
            self.interval = interval
            self.function = function
            self.args = args or []
            self.kwargs = kwargs or {}
            self.finished = SimEventPrim(k)

        def cancel(self):
            self.finished.set()

        def run(self):
            self.finished.wait(self.interval)
            if not self.finished.is_set():
                self.function(*self.args, **self.kwargs)
            self.finished.set()

    class local(object):
        def __init__(self):
            object.__setattr__(self, '_d', {})

        def _dict(self):
            return object.__getattribute__(self, '_d').setdefault(k.current.id if k.current else -1, {})

        def __getattribute__(self, n):
            d = object.__getattribute__(self, '_dict')()
            if n == '__dict__':
                return d
            if n in d:
                return d[n]
            return object.__getattribute__(self, n)

        def __setattr__(self, n, v):
            object.__getattribute__(self, '_dict')()[n] = v

        def __delattr__(self, n):
            try:
                del object.__getattribute__(self, '_dict')()[n]
            except KeyError:
                raise AttributeError(n)

    m.Thread = Thread
    m.Timer = Timer
    class Event(SimEventPrim):
        def __init__(self):
            SimEventPrim.__init__(self, k)
    m.Event = Event
    m.Lock = lambda: SimLock(k)
    m.RLock = lambda: SimLock(k, True)
    m.Condition = lambda lock=None: SimCondition(k, lock)
    m.Semaphore = lambda value=1: SimSemaphore(k, value)
    m.BoundedSemaphore = m.Semaphore
    m.local = local
    m.current_thread = m.currentThread = current_thread
    m.main_thread = lambda: main
    m.get_ident = lambda: current_thread().ident
    m.active_count = lambda: 1 + sum(1 for t in by_task.values() if not t._task.done)
    m.enumerate = lambda: [main] + [t for t in by_task.values() if not t._task.done]
    m.ThreadError = RuntimeError
    m.TIMEOUT_MAX = _real.TIMEOUT_MAX
    m.excepthook = None
    return m
