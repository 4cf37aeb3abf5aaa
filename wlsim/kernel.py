"""Deterministic discrete-event kernel.

Every task of every simulated process is a greenlet; exactly one runs at a time and only the kernel
chooses which.  Simulated time advances only when an event fires.  Every scheduling choice is taken at a
numbered decision point; choices that differ from the default (keep running / oldest runnable task) are
recorded as ``[decision_number, choice]`` so that a run is a pure function of (plan, recorded choices, code).
"""
import hashlib
import heapq
import random

from greenlet import greenlet

EPOCH = 1459468800.0  # 2016-04-01T00:00:00Z: where simulated time starts unless a plan says otherwise
BIG = 1 << 60


class SimKill(BaseException):
    """Raised inside tasks of a process that crashed (or at the end of a run)."""


class SimHang(BaseException):
    """The simulated system can make no further progress (or ran out of its step/time budget)."""


class HarnessError(BaseException):
    """The harness itself is wrong or met something it cannot interpret; never a verdict on the code."""


class Stop(Exception):
    pass


class Rng(object):
    """Named independent streams, so that removing one fault does not shift unrelated choices."""

    def __init__(self, seed):
        self.seed = seed
        self._streams = {}

    def __call__(self, name):
        s = self._streams.get(name)
        if s is None:
            h = hashlib.sha256(('%s/%s' % (self.seed, name)).encode()).digest()
            s = self._streams[name] = random.Random(int.from_bytes(h[:8], 'big'))
        return s


class Proc(object):
    """A simulated operating-system process (or host)."""

    def __init__(self, kernel, name):
        self.kernel = kernel
        self.name = name
        self.dead = False
        self.silent = False
        self.sockets = []
        self.files = []
        self.tasks = []
        self.modules = None
        self.thread_errors = []
        self.crash_at = None  # kernel decision number

    def __repr__(self):
        return 'Proc(%s)' % self.name


class Task(object):
    __slots__ = ('kernel', 'proc', 'name', 'fn', 'g', 'state', 'pred', 'deadline', 'pending_exc', 'ready_seq',
                 'result', 'exc', 'what', 'id', 'started', 'is_main')

    def __init__(self, kernel, proc, name, fn, is_main):
        self.kernel = kernel
        self.proc = proc
        self.name = name
        self.fn = fn
        self.state = 'ready'
        self.pred = None
        self.deadline = None
        self.pending_exc = None
        self.result = None
        self.exc = None
        self.what = ''
        self.started = False
        self.is_main = is_main
        self.g = greenlet(self._main)

    def _main(self):
        try:
            self.started = True
            self.result = self.fn()
        except SimKill as e:
            self.exc = e
        except BaseException as e:  # noqa
            self.exc = e
        self.state = 'done'

    @property
    def done(self):
        return self.state == 'done'


class Kernel(object):
    def __init__(self, seed, sched=None, max_decisions=3000000, time_limit=None, start=EPOCH):
        """sched: {'mode': 'random', 'gap': mean decisions between preemptions, 'pick': p}
        or {'mode': 'list', 'choices': [[d, c], ...]}"""
        self.rng = Rng(seed)
        self.now = start
        self.start = start
        self.heap = []
        self.seq = 0
        self.tasks = []
        self.current = None
        self.main_g = greenlet.getcurrent()
        self.d = 0
        self.trace = []
        self.trace_on = True
        self.stats = {}
        self.faults = {}
        self.choices = []
        self.rr = 0
        self.max_decisions = max_decisions
        self.deadline = None if time_limit is None else start + time_limit
        self.procs = {}
        self.probes = {}
        self.finished = False
        self.violations = []
        self.hang = None
        self._ready_counter = 0
        sched = sched or {'mode': 'random', 'gap': 0, 'pick': 0.0}
        self.sched = sched
        if sched['mode'] == 'list':
            self._list = {int(a): b for a, b in sched['choices']}
            self._pts = sorted(self._list)
            self._pi = 0
        else:
            self._list = None
            self._gap = sched.get('gap', 0)
            self._pick = sched.get('pick', 0.0)
            self._srng = self.rng('sched')
        self._crash_pts = []
        self._next_sched()
        self._recompute()

    # ---- decision points -------------------------------------------------------------------------------
    def _next_sched(self):
        if self._list is not None:
            while self._pi < len(self._pts) and self._pts[self._pi] <= self.d:
                self._pi += 1
            self.next_sched = self._pts[self._pi] if self._pi < len(self._pts) else BIG
        elif self._gap:
            self.next_sched = self.d + 1 + int(self._srng.expovariate(1.0 / self._gap))
        else:
            self.next_sched = BIG

    def _recompute(self):
        n = min(self.next_sched, self.max_decisions)
        for p in self._crash_pts:
            if not p.dead and p.crash_at is not None and p.crash_at < n:
                n = p.crash_at
        self.next_pre = n

    def arm_crash(self, proc, after, silent=False):
        proc.crash_at = self.d + after
        proc.silent = silent
        if proc not in self._crash_pts:
            self._crash_pts.append(proc)
        self._recompute()

    def disarm_crash(self, proc):
        proc.crash_at = None
        if proc in self._crash_pts:
            self._crash_pts.remove(proc)
        self._recompute()

    def y(self, value=None):
        """A preemption point.  Returns its argument so it can be wrapped around sub-expressions."""
        self.d += 1
        if self.d >= self.next_pre:
            self._slow()
        return value

    def _slow(self):
        t = self.current
        if t is None:
            return
        if self.finished or t.proc.dead:
            raise SimKill()
        if self.d >= self.max_decisions:
            self.max_decisions += 10000
            self._recompute()
            if self.hang is None:
                self.hang = 'step budget exhausted in task %s' % t.name
            raise SimHang(self.hang)
        p = t.proc
        if p.crash_at is not None and self.d >= p.crash_at:
            self.crash(p, p.silent)
            raise SimKill()
        if self.d >= self.next_sched:
            d = self.d
            others = [o for o in self.tasks if o is not t and self._is_ready(o)]
            if self._list is not None:
                c = self._list.get(d)
            else:
                c = self._srng.randrange(1 << 16)
            options = others + (['event'] if c is not None and self._event_soon(c) else [])
            self._next_sched()
            self._recompute()
            if c is None or not options:
                return
            self.choices.append([d, c])
            pick = options[c % len(options)]
            self.count('preempt')
            if pick == 'event':
                self._fire_next()
                if t.pending_exc is not None:
                    e, t.pending_exc = t.pending_exc, None
                    raise e
                if t.proc.dead:
                    raise SimKill()
            else:
                self._forced = pick
                self._park(t)
        else:
            self._recompute()

    _forced = None

    def calm(self):
        """From here on schedule fairly (no preemption, no starvation): the phase in which liveness is judged."""
        if self._list is not None:
            self._list = {}
            self._pts = []
            self._pi = 0
        self._gap = 0
        self._pick = 0.0
        self._next_sched()
        self._recompute()

    _gap = 0
    _pick = 0.0

    def _event_soon(self, c):
        """May a runnable task be overtaken by the next event?  Only if that stalls it briefly (0.5 s, 1 in 8: 5 s)."""
        return bool(self.heap) and self.heap[0][0] - self.now <= (0.5 if c & 7 else 5.0)

    def _park(self, t):
        """Return to the scheduler while remaining runnable."""
        self._ready_counter += 1
        t.ready_seq = self._ready_counter
        self.main_g.switch()
        self._after_resume(t)

    def _after_resume(self, t):
        if self.finished or t.proc.dead:
            raise SimKill()
        if t.pending_exc is not None:
            e, t.pending_exc = t.pending_exc, None
            raise e

    def _is_ready(self, t):
        s = t.state
        if s == 'ready':
            return True
        if s == 'blocked':
            if t.pending_exc is not None or t.pred():
                return True
            return t.deadline is not None and self.now >= t.deadline
        return False

    def wait(self, pred, deadline=None, what=''):
        """Block the current task until pred() holds (True) or the deadline passes (False)."""
        t = self.current
        if t is None:
            raise HarnessError('wait outside a task: %s' % what)
        self.y()
        if t.proc.dead or self.finished:
            raise SimKill()
        while not pred():
            if deadline is not None and self.now >= deadline:
                return False
            t.state = 'blocked'
            t.pred = pred
            t.deadline = deadline
            t.what = what
            if deadline is not None:
                self.at(deadline, _noop)
            self.main_g.switch()
            t.state = 'ready'
            t.pred = None
            self._after_resume(t)
        self.y()
        return True

    def sleep(self, seconds):
        dl = self.now + seconds
        self.at(dl, _noop)
        self.wait(lambda: self.now >= dl, None, 'sleep')

    # ---- events ---------------------------------------------------------------------------------------
    def at(self, when, fn, *args):
        self.seq += 1
        heapq.heappush(self.heap, (max(when, self.now), self.seq, fn, args))

    def after(self, delay, fn, *args):
        self.at(self.now + delay, fn, *args)

    def _fire_next(self):
        when, _, fn, args = heapq.heappop(self.heap)
        if when > self.now:
            self.now = when
        saved, self.current = self.current, None
        try:
            fn(*args)
        finally:
            self.current = saved

    # ---- tasks and processes ---------------------------------------------------------------------------
    def proc(self, name):
        p = Proc(self, name)
        self.procs[name] = p
        return p

    def spawn(self, proc, name, fn, is_main=False):
        t = Task(self, proc, name, fn, is_main)
        t.id = len(self.tasks)
        self._ready_counter += 1
        t.ready_seq = self._ready_counter
        self.tasks.append(t)
        proc.tasks.append(t)
        self.log('spawn', name)
        return t

    def crash(self, proc, silent=False):
        """Kill every task of the process; the OS (unless silent: the whole host vanished) closes its sockets."""
        if proc.dead:
            return
        proc.dead = True
        proc.silent = silent
        self.fault('crash_silent' if silent else 'crash')
        self.log('crash', proc.name, silent)
        for s in list(proc.sockets):
            s._on_proc_death(silent)
        self.next_pre = -1
        for t in proc.tasks:
            if t is not self.current and t.state != 'done':
                self._kill(t)
        self._recompute()
        if self.current is not None and self.current.proc is proc:
            self.next_pre = -1

    def _kill(self, t):
        saved = self.current
        self.current = t
        n = 0
        try:
            while t.state != 'done':
                if not t.started:
                    t.state = 'done'
                    break
                # run it from here: parent of every task greenlet is the scheduler greenlet
                t.g.parent = greenlet.getcurrent()
                t.g.throw(SimKill())
                n += 1
                if n > 50 and t.state != 'done':
                    t.state = 'done'
                    self.count('unkillable')
        finally:
            t.g.parent = self.main_g if t.g is not self.main_g else None
            self.current = saved

    def run(self, main_task):
        """Schedule until main_task finishes.  Returns None or a hang description."""
        self.main_g = greenlet.getcurrent()
        for t in self.tasks:
            t.g.parent = self.main_g
        last = None
        while not main_task.done:
            if self.deadline is not None and self.now > self.deadline and self.hang is None:
                self.hang = self._describe_hang('simulated time budget exhausted')
            if self.hang is not None:
                break
            f = self._forced
            self._forced = None
            ready = [t for t in self.tasks if t.state != 'done' and self._is_ready(t)]
            if f is not None and f in ready:
                t = f
            elif not ready:
                if not self.heap:
                    self.hang = self._describe_hang('deadlock: nothing runnable and no event pending')
                    break
                self._fire_next()
                continue
            else:
                ready.sort(key=_rs)
                t = ready[0]
                if len(ready) > 1 or self._event_soon(0):
                    self.d += 1
                    c = None
                    if self._list is not None:
                        c = self._list.get(self.d)
                        if self.d >= self.next_sched:
                            self._next_sched()
                            self._recompute()
                    elif self._pick and self._srng.random() < self._pick:
                        c = self._srng.randrange(1 << 16)
                    if c is not None:
                        self.choices.append([self.d, c])
                        c = (c >> 3) % (len(ready) + (1 if self._event_soon(c) else 0))
                        if c == len(ready):
                            self._fire_next()
                            continue
                        t = ready[c]
            self._switch_to(t)
        return self.hang

    def _switch_to(self, t):
        self._ready_counter += 1
        t.ready_seq = self._ready_counter
        prev, self.current = self.current, t
        t.g.parent = self.main_g
        if t.proc.dead:
            self._recompute()
            self.next_pre = -1
        try:
            t.g.switch()
        finally:
            self.current = prev
        if t.proc.dead:
            self._recompute()
        if t.state == 'done':
            self.log('exit', t.name, type(t.exc).__name__ if t.exc is not None else '')
            if t.exc is not None and isinstance(t.exc, (SimHang, HarnessError)):
                raise t.exc

    def _describe_hang(self, why):
        return why + '; blocked: ' + ', '.join(
            '%s(%s)' % (t.name, t.what) for t in self.tasks if t.state == 'blocked')

    def shutdown(self):
        """End of run: unwind every task that is still alive without letting it do anything."""
        self.finished = True
        self.next_pre = -1
        self.trace_on = False
        for t in self.tasks:
            if t.state != 'done':
                self._kill(t)

    # ---- bookkeeping -----------------------------------------------------------------------------------
    def log(self, *what):
        if self.trace_on:
            self.trace.append((round(self.now - self.start, 6),) + what)

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('FAULT', kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def violation(self, kind, detail):
        self.violations.append({'kind': kind, 'detail': detail})
        self.log('VIOLATION', kind)

    def digest(self):
        h = hashlib.sha256()
        for e in self.trace:
            h.update(repr(e).encode('utf-8', 'backslashreplace'))
        return h.hexdigest()[:20]


def _rs(t):
    return t.ready_seq


def _noop():
    pass
