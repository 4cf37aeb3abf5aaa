"""One simulated run: kernel + network + processes + servers, built from a plan."""
import gc
import traceback

from . import net as netmod
from . import simfs
from .kernel import Kernel, SimKill, SimHang, HarnessError
from .loader import modules_for

PROGRAMMING = (TypeError, AttributeError, NameError, IndexError, UnboundLocalError, RecursionError,
               NotImplementedError, ZeroDivisionError)


class Outcome(object):
    """What one operation of the code under test did."""
    __slots__ = ('value', 'exc', 'crashed', 't0', 't1', 'd0', 'd1')

    def __init__(self, value, exc, crashed, t0, t1, d0, d1):
        self.value = value
        self.exc = exc
        self.crashed = crashed
        self.t0 = t0
        self.t1 = t1
        self.d0 = d0
        self.d1 = d1

    @property
    def ok(self):
        return self.exc is None and not self.crashed

    @property
    def programming_error(self):
        return isinstance(self.exc, PROGRAMMING)

    def describe(self):
        if self.crashed:
            return 'crashed'
        if self.exc is None:
            return 'ok'
        return '%s: %s' % (type(self.exc).__name__, str(self.exc)[:200])


class World(object):
    def __init__(self, plan, sched=None, limits=None):
        limits = limits or {}
        self.plan = plan
        self.k = Kernel(plan['seed'], sched, max_decisions=limits.get('decisions', 3000000),
                        time_limit=limits.get('time', 10 * 86400.0), start=plan.get('start', 1459468800.0))
        self.net = self.k.net = netmod.Network(self.k, plan.get('net'))
        for f in plan.get('faults', ()):
            at = f.get('at')
            if at == 'conn':
                self.net.conn_faults.setdefault(f['n'], []).append(
                    {'dir': f['dir'], 'at': f['pos'], 'kind': f['kind'], 'secs': f.get('secs', 30.0)})
            elif at == 'connect':
                self.net.connect_faults[f['n']] = f['kind']
            elif at == 'dns':
                self.net.dns_faults.add(f['n'])
        self.harness = self.k.proc('harness')
        self.profile = {}
        self.n_proc = 0
        self.fs = simfs.Fs(self.k, plan['fs'], plan.get('faults', ())) if 'fs' in plan else None

    # -- running code under test --------------------------------------------------------------------------
    def process(self, name):
        self.n_proc += 1
        p = self.k.proc(name)
        if self.fs:
            modules_for(p, self.fs.opener(p), self.fs.os_facade(p))
        else:
            modules_for(p)
        return p

    def module(self, proc, name):
        return modules_for(proc).get(name)

    def call(self, proc, fn, name=None, timeout=None):
        """Run fn() as (the main thread of) proc and wait for it."""
        k = self.k
        t0, d0 = k.now, k.d
        task = k.spawn(proc, name or proc.name + '/main', fn, is_main=True)
        if not k.wait(lambda: task.done, None if timeout is None else k.now + timeout, 'call'):
            return None
        return self.outcome(task, t0, d0)

    def start(self, proc, fn, name=None):
        task = self.k.spawn(proc, name or proc.name + '/main', fn, is_main=True)
        task_t0 = (self.k.now, self.k.d)
        return task, task_t0

    def join(self, started):
        task, (t0, d0) = started
        self.k.wait(lambda: task.done, None, 'join')
        return self.outcome(task, t0, d0)

    def outcome(self, task, t0, d0):
        crashed = isinstance(task.exc, SimKill) or (task.proc.dead and task.exc is not None)
        return Outcome(task.result, None if crashed else task.exc, crashed, t0, self.k.now, d0, self.k.d)

    def check(self, cond, kind, detail=''):
        if not cond:
            self.k.violation(kind, detail() if callable(detail) else detail)
        return cond

    def run(self, driver):
        """driver() runs as the harness task.  Violations end up in self.k.violations."""
        k = self.k
        netmod.KERNEL[0] = k
        task = k.spawn(self.harness, 'driver', driver, is_main=True)
        try:
            try:
                hang = k.run(task)
            except SimHang as e:
                hang = str(e)
            if hang is not None:
                k.violation('hang', hang)
            elif task.exc is not None and not isinstance(task.exc, Abort):
                if not isinstance(task.exc, Exception):
                    raise HarnessError('driver failed: %r' % (task.exc,)) from task.exc
                # what the code under test left behind is not of the kind the checks can even look at (an attribute
                # missing, None in place of a list, ...)
                at = traceback.extract_tb(task.exc.__traceback__)[-1]
                k.violation('unusable-result', '%s: %s (%s: %s)' % (
                    type(task.exc).__name__, str(task.exc)[:200], at.name, (at.line or '')[:120]))
            k.hang = hang
        finally:
            try:
                k.shutdown()
            finally:
                netmod.KERNEL[0] = None
        return k


class Abort(Exception):
    """Raised by a driver to end the run early (after recording a violation)."""


def gc_setup():
    gc.disable()
