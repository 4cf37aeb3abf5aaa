"""C01-C07: the console over IP - connection lifecycle, acknowledgement, configuration, foreground and background
polling."""
import errno
import gc
import random
import socket
import struct
import weakref

from .. import refcodec as R
from ..console import Console
from ..runner import Prop, swarm_net, swarm_sched
from ..world import World, Abort, PROGRAMMING

REAL = ['weatherlink.serial', 'weatherlink.poller', 'weatherlink.models', 'io.BufferedReader/SocketIO (interpreter)']
STUB = ['TCP/IP sockets (simulated)', 'Vantage Pro2 console behind WeatherLinkIP (simulated)',
        'threading (cooperative facade over the simulator)', 'time (simulated)']
ASSUME = ['TCP delivers each direction in order without duplication; damage happens on the serial line behind the adapter',
          'preemption points are statement boundaries and self-attribute loads of the weatherlink sources, and every '
          'socket, event, lock and thread operation']


def hexs(rng, n):
    s = '%X' % n
    r = rng.random()
    if r < 0.3:
        s = s.lower()
    if rng.random() < 0.4:
        s = s.zfill(2)
    return s


class Bench(object):
    """One client process with one poller against one console."""

    def __init__(self, plan, sched):
        self.plan = plan
        self.w = World(plan, sched)
        self.k = self.w.k
        self.console = Console(self.w, plan.get('console'), [f for f in plan.get('faults', ())
                                                             if f['at'] in ('instr', 'packet', 'reply', 'write')])
        self.app = self.w.process('app')
        self.serial = self.w.module(self.app, 'weatherlink.serial')
        self.poller_m = self.w.module(self.app, 'weatherlink.poller')
        self.models = self.w.module(self.app, 'weatherlink.models')
        self.lock_ops = None

    def fail(self, kind, detail):
        self.k.violation(kind, detail)
        raise Abort()

    def need(self, cond, kind, detail=''):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    def new_poller(self):
        o = self.w.call(self.app, lambda: self.poller_m.IPPoller('console'))
        self.need(o.ok, 'constructor-failed', o.describe())
        return o.value

    def op(self, fn, name='op'):
        return self.w.call(self.app, fn, 'app/' + name)

    def run(self, driver):
        k = self.w.run(driver)
        return k

    def live_conns(self):
        return [s for s in self.app.sockets if s.conn is not None and not s.really_closed]

    def settle(self, secs=3.0):
        self.k.sleep(secs)

    def session(self):
        return self.console.sessions[-1] if self.console.sessions else None

    def conn(self):
        s = self.session()
        return s.conn if s else None

    def link_ok(self):
        c = self.conn()
        return c is not None and not c.dead and not c.rx_eof and c.server_open and c.client_open and not c.hole

    def stale(self):
        c = self.conn()
        return bool(c.rx) if c is not None else False

    def ensure_link(self, p):
        """Bring the poller to a fresh, working link (only ever after a failure or with leftovers)."""
        try:
            for _ in range(6):
                if self.link_ok() and not self.stale() and self.held(p):
                    return
                o = self.op(p.disconnect, 'disconnect')
                if o.exc is not None and not isinstance(o.exc, (ValueError, OSError)):
                    self.fail('disconnect-error', o.describe())
                o = self.op(p.connect, 'connect')
                if o.ok:
                    self.settle(1.0)
                    self.need(self.session() is not None, 'connected-without-connection')
                    return
                if not isinstance(o.exc, OSError):
                    self.fail('connect-error', o.describe())
            self.fail('no-reconnect', 'six attempts to reconnect failed')
        finally:
            pass

    def held(self, p):
        return bool(self.live_conns())


class SerialProp(Prop):
    real = REAL
    stub = STUB
    assumptions = ASSUME

    def base(self, seed):
        rng = random.Random(seed * 7919 + int(self.id[1:]))
        plan = {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [],
                'console': {'period': rng.choice([2.0, 2.5, 0.5]), 'first': rng.choice([0.01, 0.05, 1.0]),
                            'ack_delay': rng.choice([0.001, 0.01, 0.3])}}
        return rng, plan

    def simplify(self, plan):
        out = []
        for i, o in enumerate(plan['ops']):
            for key, small in (('n', 1), ('len', 1)):
                if isinstance(o.get(key), int) and o[key] > small:
                    p = _copy(plan)
                    p['ops'][i][key] = small
                    out.append(p)
        return out


def _copy(x):
    import json
    return json.loads(json.dumps(x))


def unreferenced(app, outcome, *lists):
    """Drop sockets that nothing but the harness refers to any more: the interpreter closes those. Only an interrupt may leave
    a socket to it, as it does in socket.create_connection()."""
    refs = [weakref.ref(x) for x in lists[0]]
    exc = outcome.exc
    while exc is not None:
        exc.__traceback__ = None
        exc = exc.__context__
    for xs in lists + (app.sockets,):
        xs[:] = [x for x in xs if not any(r() is x for r in refs)]
    for _ in range(3):
        gc.collect()
    for r in refs:
        if r() is not None:
            for xs in lists + (app.sockets,):
                xs.append(r())


# ---------------------------------------------------------------------------------------------------------
class C01(SerialProp):
    id = 'C01'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('Seeded random sequences of connect / disconnect / context-manager blocks (with ok, raising, interrupted, '
            'self-disconnecting bodies) and uses on one or two communicators, with faults in socket creation, '
            'connecting, closing and the link, compared step by step with a two-state model and the socket table.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        n = rng.randint(2, 9) if rng.random() > 0.04 else rng.randint(20, 60)
        who = rng.choice([1, 1, 1, 2])
        plan['kinds'] = [rng.choice(['poller', 'poller', 'plain']) for _ in range(who)]
        conn = 0
        for _ in range(n):
            o = rng.choice(['connect', 'connect', 'connect', 'disconnect', 'disconnect', 'with', 'with', 'with', 'use'])
            d = {'op': o, 'who': rng.randrange(who)}
            if o == 'with':
                d['body'] = rng.choice(['ok', 'ok', 'use', 'raise', 'raise', 'base', 'disconnect', 'disconnect_raise',
                                        'nested', 'interrupt', 'use_fail', 'value'])
            if rng.random() < 0.3:
                d['close_fault'] = rng.choice([1, 1, 2])
            if rng.random() < 0.08:
                d['emfile'] = rng.choice([1, 1, 2])
            if o in ('connect', 'with') and rng.random() < 0.35:
                d['connect_fault'] = rng.choice(['refuse', 'timeout', 'unreachable', 'interrupt'])
            plan['ops'].append(d)
            conn += 1
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan['faults'].append({'at': 'conn', 'n': rng.randrange(3), 'dir': rng.choice(['c2s', 's2c']),
                                   'pos': rng.choice([0, 1, 2, 12, 50, 150]), 'kind': rng.choice(['rst', 'fin'])})
        if rng.random() < 0.3:
            plan['faults'].append({'at': 'instr', 'n': rng.randrange(3), 'kind': rng.choice(['nak', 'ack_eof', 'garbage']),
                                   'val': rng.randrange(7, 21)})
        if rng.random() < 0.2:
            plan['bg'] = rng.choice([0.0, 0.1, rng.random() * 5])
            plan['bg_with'] = rng.random() < 0.5
        return [plan]

    def execute(self, plan, sched):
        b = Bench(plan, sched)
        k = b.k
        shape = []

        class Boom(Exception):
            pass

        class BaseBoom(BaseException):
            pass

        def driver():
            objs = []
            for kind in plan['kinds']:
                if kind == 'poller':
                    objs.append(b.new_poller())
                else:
                    plain = type('Plain', (b.serial.SerialIPCommunicator, b.serial.ConfigurationSettingMixin), {})
                    o = b.op(lambda: plain('console', 22222))
                    b.need(o.ok, 'constructor-failed', o.describe())
                    objs.append(o.value)
            connected = [None] * len(objs)    # SimSocket held by communicator i
            for d in plan['ops']:
                i = d['who'] % len(objs)
                c = objs[i]
                kind = d['op']
                before = list(b.app.sockets)
                marks = dict(k.faults)
                b.app.close_fault = d.get('close_fault')
                b.app.socket_fault = d.get('emfile')
                if d.get('connect_fault'):
                    b.w.net.connect_faults[b.w.net.n_connects] = d['connect_fault']
                ran = []

                def fired(x):
                    return k.faults.get(x, 0) > marks.get(x, 0)

                if kind == 'connect':
                    o = b.op(c.connect, 'connect')
                elif kind == 'disconnect':
                    o = b.op(c.disconnect, 'disconnect')
                elif kind == 'use':
                    o = b.op(lambda: use(b, c, False), 'use') if connected[i] is not None else None
                else:
                    body = d['body']
                    if body == 'interrupt':
                        b.app.recv_interrupt = 2

                    def go():
                        with c:
                            ran.append(len([s for s in b.app.sockets if s not in before]))
                            if body == 'use':
                                use(b, c, False)
                            elif body in ('use_fail', 'interrupt'):
                                use(b, c, True)
                            elif body == 'raise':
                                raise Boom('boom')
                            elif body == 'value':
                                raise ValueError('mine')
                            elif body == 'base':
                                raise BaseBoom('boom')
                            elif body == 'disconnect':
                                c.disconnect()
                            elif body == 'disconnect_raise':
                                c.disconnect()
                                raise Boom('boom')
                            elif body == 'nested':
                                c.connect()
                            ran.append('end')
                    o = b.op(go, 'with')
                b.app.recv_interrupt = None
                b.app.close_fault = b.app.socket_fault = None
                b.w.net.connect_faults.pop(b.w.net.n_connects, None)
                label = kind + ':' + d.get('body', '')
                if o is None:
                    continue
                now = list(b.app.sockets)
                new = [s for s in now if s not in before]
                shape.append([label, o.describe()[:40], len(new)])
                was = connected[i]
                others = [s for j, s in enumerate(connected) if j != i and s is not None]
                for s in others:
                    b.need(s in now, 'other-link-closed', label)
                detail = {'step': label, 'connected_before': was is not None, 'outcome': o.describe(),
                          'open_links': len(now), 'faults': {f: n for f, n in k.faults.items()
                                                             if n > marks.get(f, 0)}}

                def expect_connect_error(exc):
                    if fired('close_eio') and isinstance(exc, OSError) and exc.errno == errno.EIO:
                        return True     # two failures in one call: either may be the one reported
                    if fired('emfile'):
                        return isinstance(exc, OSError) and exc.errno == errno.EMFILE
                    if fired('connect_refuse'):
                        return isinstance(exc, OSError) and exc.errno == errno.ECONNREFUSED
                    if fired('connect_unreachable'):
                        return isinstance(exc, OSError) and exc.errno == errno.EHOSTUNREACH
                    if fired('connect_timeout'):
                        return isinstance(exc, OSError) and exc.errno in (errno.ETIMEDOUT, None)
                    if fired('connect_interrupt'):
                        return isinstance(exc, KeyboardInterrupt)
                    return False
                connect_failed = any(fired(x) for x in ('emfile', 'connect_refuse', 'connect_unreachable',
                                                        'connect_timeout', 'connect_interrupt'))
                if kind == 'use':
                    b.need(was in now, 'link-dropped-by-use', detail)
                    continue
                if kind == 'connect':
                    if was is not None:
                        b.need(isinstance(o.exc, ValueError), 'double-connect-accepted', detail)
                        b.need(was in now and not new, 'double-connect-changed-link', detail)
                    elif connect_failed:
                        b.need(o.exc is not None, 'failed-connect-reported-ok', detail)
                        b.need(expect_connect_error(o.exc), 'connect-error-replaced', detail)
                        if new and fired('connect_interrupt'):
                            unreferenced(b.app, o, new, now)
                        b.need(not new, 'link-leaked-by-failed-connect', detail)
                    else:
                        b.need(o.ok, 'connect-failed', detail)
                        b.need(len(new) == 1 and new[0].conn is not None, 'connect-link-count', detail)
                        connected[i] = new[0]
                elif kind == 'disconnect':
                    if was is None:
                        b.need(isinstance(o.exc, ValueError), 'disconnect-when-not-connected-accepted', detail)
                        b.need(now == before, 'disconnect-misuse-changed-links', detail)
                    else:
                        b.need(o.exc is None or (isinstance(o.exc, OSError) and fired('close_eio')),
                               'disconnect-failed', detail)
                        b.need(was not in now, 'link-not-released', detail)
                        connected[i] = None
                else:
                    body = d['body']
                    if was is not None:
                        b.need(isinstance(o.exc, ValueError) and not ran, 'double-connect-accepted', detail)
                        b.need(was in now and not new, 'double-connect-changed-link', detail)
                    elif connect_failed and not ran:
                        b.need(expect_connect_error(o.exc), 'connect-error-replaced', detail)
                        if new and fired('connect_interrupt'):
                            unreferenced(b.app, o, new, now)
                        b.need(not new, 'link-leaked-by-failed-connect', detail)
                    else:
                        b.need(bool(ran) and ran[0] == 1, 'body-without-link', detail)
                        b.need(not new, 'link-leaked-by-context-manager', detail)
                        finished = ran[-1] == 'end'
                        if body in ('raise', 'disconnect_raise'):
                            # disconnect inside may itself have failed: then that is the body's exception
                            b.need(isinstance(o.exc, Boom) or (body == 'disconnect_raise' and fired('close_eio')
                                                               and isinstance(o.exc, OSError)),
                                   'exception-replaced', detail)
                        elif body == 'value':
                            b.need(isinstance(o.exc, ValueError) and str(o.exc) == 'mine', 'exception-replaced', detail)
                        elif body == 'base':
                            b.need(isinstance(o.exc, BaseBoom), 'exception-replaced', detail)
                        elif body == 'nested':
                            b.need(isinstance(o.exc, ValueError), 'double-connect-accepted', detail)
                        elif body == 'interrupt' and fired('interrupt'):
                            b.need(isinstance(o.exc, KeyboardInterrupt), 'exception-replaced', detail)
                        elif body == 'disconnect':
                            b.need(o.exc is not None, 'second-disconnect-accepted', detail)
                            b.need(isinstance(o.exc, (ValueError, OSError)), 'exception-replaced', detail)
                        elif not finished:
                            b.need(o.exc is not None and not o.programming_error, 'exception-swallowed', detail)
                        elif fired('close_eio'):
                            b.need(isinstance(o.exc, OSError), 'disconnect-error-swallowed', detail)
                        else:
                            b.need(o.ok, 'context-manager-failed', detail)
                b.settle(1.0 + 2 * (plan['net'].get('jitter') or 0))
                if connected[i] is None:
                    # the console must have seen the link go (unless the link itself was already gone)
                    live = [s for s in b.console.open_sessions()]
                    held = [s.conn for s in connected if s is not None]
                    for s in live:
                        if s.conn not in held and not s.conn.hole and not s.conn._gates:
                            b.fail('console-still-connected', detail)
                else:
                    s = connected[i]
                    if not any(f['at'] == 'conn' for f in plan['faults']) and 'console_instr_ack_eof' not in k.faults:
                        b.need(s.conn.server_open and not s.conn.dead, 'link-closed-early', detail)
            # whatever happened, a healthy network must allow a fresh start
            b.w.net.connect_faults.clear()
            for i, c in enumerate(objs):
                if connected[i] is not None:
                    o = b.op(c.disconnect)
                    b.need(o.ok, 'disconnect-failed', o.describe())
                    connected[i] = None
                if plan.get('bg') is not None and plan['kinds'][i] == 'poller':
                    # letting go of the link while a background poll is reading from it
                    b.console.faults.clear()
                    b.w.net.conn_faults.clear()
                    o = b.op(c.connect)
                    b.need(o.ok, 'cannot-connect-again', o.describe())
                    o = b.op(lambda: c.start_background_polling(6, lambda rec: k.y()))
                    b.need(o.ok, 'start-failed', o.describe())
                    k.sleep(plan['bg'])
                    if plan.get('bg_with'):
                        o = b.op(lambda: c.__exit__(None, None, None))
                    else:
                        o = b.op(c.disconnect)
                    b.need(o.ok, 'disconnect-failed', o.describe())
                    k.calm()
                    b.settle(5.0)
                    others = [s for s in connected if s is not None]
                    b.need([s for s in b.app.sockets if s not in others] == [], 'link-not-released-while-polling',
                           {'open': len(b.app.sockets)})
                    b.need(len(b.console.open_sessions()) <= len(others), 'console-still-connected', 'while polling')
                    C02.wait_threads(b)
                b.need(len(b.app.sockets) == len([s for s in connected[i + 1:] if s is not None]),
                       'link-leaked', {'open': len(b.app.sockets)})
                o = b.op(c.connect)
                b.need(o.ok, 'cannot-connect-again', o.describe())
                o = b.op(c.disconnect)
                b.need(o.ok, 'disconnect-failed', o.describe())
            b.need(not b.app.sockets, 'link-leaked', {'open': len(b.app.sockets)})
        b.run(driver)
        return k, {'shape': shape}


def use(b, c, want_fail):
    """Some traffic; failures of the link are the caller's problem, so they are raised."""
    if want_fail:
        if hasattr(c, 'poll'):
            c.poll(2)
        else:
            c.read_setup_bit(0x30)
        raise IOError('done')
    c.read_config_setting('10', '04')


# ---------------------------------------------------------------------------------------------------------
def session_ops(rng, n, kinds):
    ops = []
    for _ in range(n):
        kind = rng.choice(kinds)
        ln = rng.choice([1, 1, 2, 4, rng.randint(1, 16), rng.randint(1, 176), 255])
        addr = rng.choice([0x10, 0x2B, rng.randint(0, 0xFFF - ln), rng.randint(0, 200)])
        d = {'op': kind, 'addr': addr, 'len': ln, 'hs': rng.randint(0, 1 << 30)}
        if kind in ('read', 'read_nocrc'):
            d['return_crc'] = rng.random() < 0.4
            d['style'] = rng.choice(['pos', 'kw', 'default'])
        if kind == 'write':
            d['data'] = rng.choice(['random', 'random', 'zeros', 'ff', 'ctl', 'crc'])
        if kind in ('poll', 'bg'):
            d['n'] = rng.choice([1, 1, 2, 3, rng.randint(1, 6)])
        ops.append(d)
    return ops


def strs(d):
    rng = random.Random(d['hs'])
    return hexs(rng, d['addr']), hexs(rng, d['len'])


def value_of(d):
    rng = random.Random(d['hs'] + 1)
    n = d['len']
    if d.get('data') == 'crc':
        # a value whose checksum has a special byte: zero, or one that means something to the console
        want = rng.choice([0, 0, 0x06, 0x0a, 0x0d, 0x15, 0x18, 0x21])
        at = rng.choice([8, 8, 0])
        v = bytearray(rng.getrandbits(8) for _ in range(n))
        i = rng.randrange(n)
        for x in range(256):
            v[i] = x
            if R.crc16(bytes(v)) >> at & 0xFF == want:
                break
        return bytes(v)
    return {'random': lambda: bytes(bytearray(rng.getrandbits(8) for _ in range(n))),
            'zeros': lambda: b'\0' * n, 'ff': lambda: b'\xff' * n,
            'ctl': lambda: bytes(bytearray(rng.choice([0x06, 0x15, 0x18, 0x21, 0x0a, 0x0d]) for _ in range(n)))
            }[d.get('data', 'random')]()


def op_bytes(d):
    """(client->server, server->client) byte counts of one healthy operation."""
    a, l = strs(d)
    if d['op'] in ('read', 'read_nocrc'):
        return len('EEBRD %s %s\n' % (a, l)), 1 + d['len'] + 2
    if d['op'] in ('setup', 'rain'):
        return len('EEBRD 2B 01\n'), 4
    if d['op'] == 'write':
        return len('EEBWR %s %s\n' % (a, l)) + d['len'] + 2, 2
    if d['op'] in ('poll', 'bg'):
        return len('LPS 2 %d\n' % d['n']), 1 + 99 * d['n']
    return 0, 0


def conn_fault(rng, ops, kinds=('rst', 'fin', 'stall')):
    """A fault at an exact byte of the first connection, inside a random operation and biased to its edges."""
    i = rng.randrange(len(ops))
    c = sum(op_bytes(o)[0] for o in ops[:i])
    s = sum(op_bytes(o)[1] for o in ops[:i])
    cn, sn = op_bytes(ops[i])
    direction = rng.choice(['s2c', 's2c', 'c2s'])
    size = sn if direction == 's2c' else cn
    off = rng.choice([0, 1, 2, size - 2, size - 1, rng.randint(0, max(size, 1)), rng.randint(0, max(size, 1))])
    off = max(0, off)
    return {'at': 'conn', 'n': 0, 'dir': direction, 'pos': (c if direction == 'c2s' else s) + off,
            'kind': rng.choice(kinds), 'secs': rng.choice([3.0, 40.0, 400.0])}


class Session(object):
    """Executes configuration / poll operations and knows what the console did during each."""

    def __init__(self, bench):
        self.b = bench
        self.p = None

    def open(self):
        b = self.b
        self.p = b.new_poller()
        for _ in range(5):
            o = b.op(self.p.connect, 'connect')
            if o.ok:
                return
        b.fail('connect-failed', o.describe())

    def do(self, d, **kw):
        b, p = self.b, self.p
        a, l = strs(d)
        kind = d['op']
        if kind == 'read':
            st = d.get('style', 'default')
            if d.get('return_crc'):
                if st == 'pos':
                    f = lambda: p.read_config_setting(a, l, True, True)
                else:
                    f = lambda: p.read_config_setting(a, l, return_crc=True)
            else:
                f = (lambda: p.read_config_setting(a, l)) if st != 'kw' else \
                    (lambda: p.read_config_setting(setting_address=a, setting_length=l, confirm_crc=True))
        elif kind == 'read_nocrc':
            f = (lambda: p.read_config_setting(a, l, False, True)) if d.get('return_crc') else \
                (lambda: p.read_config_setting(a, l, confirm_crc=False))
        elif kind == 'setup':
            m = d['hs'] & 0xFF
            f = lambda: p.read_setup_bit(m)
        elif kind == 'rain':
            f = p.read_rain_collector_type
        elif kind == 'write':
            v = value_of(d)
            f = lambda: p.write_config_setting(a, l, v)
        elif kind == 'badwrite':
            v = value_of(d) + b'x' if d['hs'] & 1 else value_of(d)[1:]
            f = lambda: p.write_config_setting(a, l, v)
        elif kind == 'poll':
            n = d['n']
            f = lambda: p.poll(n)
        elif kind == 'bg':
            n = d['n']
            f = lambda: p.start_background_polling(n, kw['callback'])
        else:
            raise AssertionError(kind)
        con = b.console
        mark = len(con.history)
        faults0 = dict(b.k.faults)
        o = b.op(f, kind)
        hist = con.history[mark:]
        fired = {x: n for x, n in b.k.faults.items() if n > faults0.get(x, 0)}
        return o, hist, fired


def parse(line):
    """The instruction the console received, as (verb, number, number); spelling of numbers is free."""
    try:
        v, a, c = line.strip().split(b' ')
        base = 10 if v == b'LPS' else 16
        return (v.decode(), int(a, base), int(c, base))
    except ValueError:
        return ('?', line, None)


def wanted(d):
    if d['op'] in ('setup', 'rain'):
        return ('EEBRD', 0x2B, 1)
    if d['op'] in ('read', 'read_nocrc'):
        return ('EEBRD', d['addr'], d['len'])
    if d['op'] == 'write':
        return ('EEBWR', d['addr'], d['len'])
    return ('LPS', 2, d['n'])


LINK_FAULTS = ('net_rst', 'net_fin')


# ---------------------------------------------------------------------------------------------------------
class C02(SerialProp):
    id = 'C02'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('Sessions of 1-5 instructions (configuration read/write, poll, background start) in which the console '
            'answers instructions with NAK, "!", every other byte value (alone or before a late ACK), answers late, '
            'never, or loses the link before answering; the exception type, the bytes sent afterwards and the '
            'threads started are checked against the answer given.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        ops = plan['ops'] = session_ops(rng, rng.randint(1, 5), ['read', 'write', 'poll', 'bg', 'rain'])
        for o in ops:
            if 'n' in o:
                o['n'] = min(o['n'], 3)
        r = rng.random()
        if r < 0.85:
            for i in range(len(ops)):
                if rng.random() < 0.6:
                    f = {'at': 'instr', 'n': i, 'kind': rng.choice(
                        ['nak', 'bang', 'garbage', 'garbage', 'garbage', 'garbage_ack', 'garbage_ack', 'mute', 'slow',
                         'slow', 'ack_eof'])}
                    v = rng.choice([rng.randrange(256), rng.randrange(256), 0x0a, 0x0d, 0x18, 0x00, 0x86, 0x16, 0x05,
                                    0x07, 0x26, 0x36])
                    while v in (0x06, 0x15, 0x21):
                        v = rng.randrange(256)
                    f['val'] = v
                    f['secs'] = rng.choice([5.0, 30.0, 61.0, 300.0])
                    plan['faults'].append(f)
        if rng.random() < 0.25:
            c = conn_fault(rng, ops, ('rst', 'fin'))
            plan['faults'].append(c)
        return [plan]

    def execute(self, plan, sched):
        b = Bench(plan, sched)
        k = b.k
        shape = []

        def driver():
            s = Session(b)
            s.open()
            for d in plan['ops']:
                b.ensure_link(s.p)
                sess = b.session()
                got = []
                stray0 = len(sess.stray)
                rx0 = sess.conn.delivered['c2s']
                n_instr = b.console.n_instr
                threads0 = len(b.app.__dict__.get('threads', []))
                o, hist, fired = s.do(d, callback=got.append)
                b.settle(0.5)
                instrs = [h for h in b.console.history if h[0] == 'instr'][-(b.console.n_instr - n_instr):] \
                    if b.console.n_instr > n_instr else []
                kind = instrs[0][3] if instrs else None
                detail = {'op': d['op'], 'answer': kind, 'outcome': o.describe(), 'faults': fired}
                if kind in ('garbage', 'garbage_ack'):
                    detail['byte'] = [f['val'] for f in plan['faults'] if f['at'] == 'instr' and f['n'] == n_instr]
                shape.append([d['op'], kind, o.describe()[:30]])
                b.need(len(instrs) <= 1, 'instruction-repeated', detail)
                if instrs:
                    b.need(parse(instrs[0][2]) == wanted(d), 'wrong-instruction',
                           {'sent': repr(instrs[0][2]), 'wanted': wanted(d)})
                link = any(f in fired for f in LINK_FAULTS)
                refused = kind in ('nak', 'bang', 'garbage', 'garbage_ack', 'mute', 'ack_eof')
                if refused and not link:
                    b.need(o.exc is not None, 'proceeded-without-ack', detail)
                    if kind in ('nak', 'bang'):
                        b.need(isinstance(o.exc, b.serial.NotAcknowledgedError), 'wrong-refusal-error', detail)
                    elif kind in ('garbage', 'garbage_ack'):
                        b.need(isinstance(o.exc, b.serial.InvalidAcknowledgementError), 'wrong-refusal-error', detail)
                    else:
                        b.need(isinstance(o.exc, IOError), 'wrong-dead-link-error', detail)
                    ln = len(instrs[0][2]) + 1
                    b.settle(2.0)
                    b.need(sess.conn.delivered['c2s'] - rx0 == ln, 'sent-after-refusal',
                           dict(detail, extra=sess.conn.delivered['c2s'] - rx0 - ln))
                    b.need(not got, 'data-after-refusal', detail)
                    b.need(len(b.app.__dict__.get('threads', [])) == threads0
                           or all(t._task is None or t._task.done for t in b.app.threads[threads0:]),
                           'work-started-after-refusal', detail)
                    if kind in ('nak', 'bang', 'garbage'):
                        pass
                    else:
                        self.relink(b, s)
                elif link:
                    # the link died somewhere inside the operation
                    answered = k.now  # noqa: F841
                    if o.exc is not None:
                        b.need(isinstance(o.exc, Exception) and not o.programming_error, 'wrong-dead-link-error', detail)
                        if sess.conn.delivered['s2c'] == 0 or not self._acked(b, sess, d, instrs):
                            b.need(isinstance(o.exc, IOError), 'wrong-dead-link-error', detail)
                    self.wait_threads(b)
                    self.relink(b, s)
                else:
                    b.need(o.ok, 'accepted-instruction-failed', detail)
                    if d['op'] == 'bg':
                        self.wait_threads(b)
                        if link or any(f in k.faults for f in LINK_FAULTS):
                            self.relink(b, s)
                        else:
                            b.need(len(got) == d['n'], 'accepted-poll-not-delivered', dict(detail, got=len(got)))
            self.wait_threads(b)
        b.run(driver)
        return k, {'shape': shape}

    def _acked(self, b, sess, d, instrs):
        # conservative: only when nothing at all came back on this connection is the error type demanded
        return sess.conn.delivered['s2c'] > 0

    def relink(self, b, s):
        self.wait_threads(b)
        b.op(s.p.disconnect)
        b.need(not b.live_conns(), 'link-not-released', '')
        for _ in range(5):
            o = b.op(s.p.connect)
            if o.ok:
                break
        b.need(o.ok, 'cannot-connect-again', o.describe())

    @staticmethod
    def wait_threads(b):
        for t in b.app.__dict__.get('threads', []):
            if t._task is not None:
                b.k.wait(lambda: t._task.done, None, 'thread')


# ---------------------------------------------------------------------------------------------------------
class ConfigProp(SerialProp):
    def execute(self, plan, sched):
        b = Bench(plan, sched)
        shape = []

        def driver():
            s = Session(b)
            s.open()
            con = b.console
            for d in plan['ops']:
                b.ensure_link(s.p)
                before = bytes(con.eeprom)
                n_instr = con.n_instr
                o, hist, fired = s.do(d)
                link = any(f in fired for f in LINK_FAULTS)
                detail = {'op': d['op'], 'addr': d['addr'], 'len': d['len'], 'outcome': o.describe(), 'faults': fired}
                shape.append([d['op'], o.describe()[:30], sorted(fired)])
                if o.exc is not None:
                    b.need(isinstance(o.exc, Exception) and not o.programming_error, 'crash-in-client', detail)
                instr = [h for h in hist if h[0] == 'instr']
                refused = [h for h in instr if h[3] in ('nak', 'bang', 'garbage', 'garbage_ack', 'mute', 'ack_eof')]
                failed = o.exc is not None
                if d['op'] in ('read', 'setup', 'rain', 'read_nocrc'):
                    b.settle(1.0)
                    b.need(bytes(con.eeprom) == before, 'read-changed-memory', detail)
                    addr, ln = (0x2B, 1) if d['op'] in ('setup', 'rain') else (d['addr'], d['len'])
                    true = before[addr:addr + ln]
                    damaged = [h for h in hist if h[0] == 'read' and h[4]]
                    if not failed:
                        v = o.value
                        if d['op'] == 'setup':
                            want = true[0] & (d['hs'] & 0xFF)
                        elif d['op'] == 'rain':
                            want = true[0] & 0x30
                        elif d.get('return_crc'):
                            want = R.with_crc(true)
                        else:
                            want = true
                        ok = [want]
                        if damaged:
                            # what a receiver that trusts the checksum may legitimately have got
                            ok = []
                            arrived = bytes(damaged[-1][3])
                            dd = self.damage_of(plan, con, damaged[-1])
                            if dd is not None and len(dd) >= ln + 2 and R.crc16(dd[:ln + 2]) == 0:
                                a = dd[:ln]
                                ok = [a[0] & (d['hs'] & 0xFF) if d['op'] == 'setup' else a[0] & 0x30
                                      if d['op'] == 'rain' else dd[:ln + 2] if d.get('return_crc') else a]
                            del arrived
                            if d['op'] == 'read_nocrc':
                                # what is damaged may be returned then, but not another number of bytes
                                ok = [v] if len(v) == ln + (2 if d.get('return_crc') else 0) else [want]
                        b.need(not refused, 'refused-read-returned', detail)
                        b.need(any(x == v for x in ok), 'wrong-data' if not damaged else 'damaged-data-returned',
                               lambda: dict(detail, got=repr(v), want=repr(ok)))
                        b.need(len(instr) == 1 and parse(instr[0][2]) == wanted(d), 'wrong-instruction',
                               lambda: dict(detail, sent=repr([h[2] for h in instr])))
                    else:
                        b.need(link or damaged or refused, 'read-failed-without-cause', detail)
                    if damaged or link or failed:
                        self.relink(b, s)
                    else:
                        b.need(b.link_ok(), 'link-lost', detail)
                elif d['op'] == 'badwrite':
                    b.settle(1.0)
                    b.need(isinstance(o.exc, ValueError), 'bad-length-accepted', detail)
                    b.need(con.n_instr == n_instr and bytes(con.eeprom) == before and not hist,
                           'bad-length-sent', detail)
                elif d['op'] == 'write':
                    val = value_of(d)
                    after_call = bytes(con.eeprom)
                    goal = before[:d['addr']] + val + before[d['addr'] + d['len']:]
                    wf = [h for h in hist if h[0] in ('write_fault', 'write_rejected')]
                    written = [h for h in hist if h[0] == 'written']
                    for h in wf:
                        if h[0] == 'write_rejected':
                            b.need(h[3] == val + struct.pack('>H', R.crc16(val)), 'wrong-data-sent',
                                   lambda: dict(detail, sent=repr(h[3]), want=repr(val)))
                    if not failed:
                        b.need(not refused, 'refused-write-returned', detail)
                        b.need(not wf, 'rejected-write-returned', dict(detail, console=repr(wf)))
                        b.need(after_call == goal, 'write-not-stored',
                               lambda: dict(detail, stored=repr(after_call[d['addr']:d['addr'] + d['len']]),
                                            want=repr(val)))
                        b.need(len(instr) == 1 and parse(instr[0][2]) == wanted(d), 'wrong-instruction',
                               lambda: dict(detail, sent=repr([h[2] for h in instr])))
                        b.settle(1.0)
                        b.need(bytes(con.eeprom) == goal, 'memory-changed-later', detail)
                        b.need(not b.stale(), 'answer-left-unread', detail)
                        b.need(not b.session().stray, 'stray-bytes', repr(bytes(b.session().stray)))
                    else:
                        b.need(link or wf or refused, 'write-failed-without-cause', detail)
                        b.settle(5.0)
                        now = bytes(con.eeprom)
                        b.need(now in (before, goal), 'memory-corrupted', detail)
                        if written:
                            b.need(now == goal, 'memory-corrupted', detail)
                        self.relink(b, s)
            # at the end the session is in step: one more read reports its own result
            b.ensure_link(s.p)
            if not any(f['at'] == 'conn' and f['n'] >= len(b.console.sessions) - 1 for f in plan['faults']):
                d = {'op': 'read', 'addr': 0x40, 'len': 5, 'hs': 1}
                o, hist, fired = s.do(d)
                if not fired:
                    b.need(o.ok and o.value == bytes(con.eeprom[0x40:0x45]), 'out-of-step',
                           lambda: {'outcome': o.describe(), 'got': repr(o.value)})
        b.run(driver)
        return b.k, {'shape': shape}

    def damage_of(self, plan, con, h):
        return h[5] if len(h) > 5 else None

    def relink(self, b, s):
        C02.relink(self, b, s)
    wait_threads = staticmethod(C02.wait_threads)

    def instr_faults(self, rng, plan, ops, p):
        for i in range(len(ops)):
            if rng.random() < p:
                f = {'at': 'instr', 'n': i, 'kind': rng.choice(['nak', 'bang', 'garbage', 'slow', 'slow', 'ack_eof',
                                                                'mute']),
                     'val': rng.choice([0, 0x0a, 0x41, 0x18]), 'secs': rng.choice([5.0, 61.0, 300.0])}
                plan['faults'].append(f)


class C03(ConfigProp):
    id = 'C03'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('Sessions of 1-7 configuration operations on random addresses, lengths and memory contents (including all-'
            'zero memory), with reply damage (bit flips, bursts up to 16 bits, lost, duplicated and missing bytes), '
            'link loss and stalls at exact bytes and random segmentation; each result is compared with the memory of '
            'the simulated console.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        n = rng.randint(1, 7)
        ops = plan['ops'] = session_ops(rng, n, ['read'] * 6 + ['setup', 'rain', 'write', 'read_nocrc'])
        plan['console']['zeros'] = rng.random() < 0.3
        kinds = rng.choice([[], ['reply'], ['reply'], ['conn'], ['conn'], ['instr'], ['reply', 'instr']])
        if 'reply' in kinds:
            reads = [o for o in ops if o['op'] != 'write']
            for i, o in enumerate(reads):
                if rng.random() < 0.5:
                    ln = 1 if o['op'] in ('setup', 'rain') else o['len']
                    plan['faults'].append({
                        'at': 'reply', 'n': i, 'kind': rng.choice(['flip', 'flip', 'burst', 'crc', 'drop', 'dup', 'short']),
                        'pos': rng.choice([0, 1, ln, ln + 1, rng.randrange(ln + 2)]), 'bit': rng.randrange(8),
                        'val': rng.randrange(1, 65536)})
        if 'conn' in kinds:
            plan['faults'].append(conn_fault(rng, ops))
        if 'instr' in kinds:
            self.instr_faults(rng, plan, ops, 0.3)
        return [plan]


class C04(ConfigProp):
    id = 'C04'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('Sessions of 1-7 configuration writes and reads (random, all-zero, all-FF and control-character values, '
            'values of the wrong length) where the console refuses instructions or data, data is damaged on the '
            'serial line, answers are late or missing, and the link dies or stalls at exact bytes; the console '
            'memory and the following operations are checked.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        n = rng.randint(1, 7)
        ops = plan['ops'] = session_ops(rng, n, ['write'] * 5 + ['read', 'read', 'badwrite', 'rain'])
        plan['console']['zeros'] = rng.random() < 0.2
        for o in ops:
            if o['op'] == 'write' and rng.random() < 0.3:
                o['op'] = 'write'
        kinds = rng.choice([[], ['write'], ['write'], ['write'], ['conn'], ['conn'], ['instr'], ['write', 'instr']])
        if 'write' in kinds:
            for i in range(len([o for o in ops if o['op'] == 'write'])):
                if rng.random() < 0.5:
                    plan['faults'].append({
                        'at': 'write', 'n': i, 'kind': rng.choice(['flip', 'burst', 'nak', 'bang', 'garbage', 'mute',
                                                                   'slow', 'eof', 'nak15']),
                        'pos': rng.randrange(300), 'bit': rng.randrange(8), 'val': rng.randrange(1, 65536),
                        'secs': rng.choice([5.0, 61.0, 300.0])})
        if 'conn' in kinds:
            plan['faults'].append(conn_fault(rng, [o for o in ops if o['op'] != 'badwrite'] or ops))
        if 'instr' in kinds:
            self.instr_faults(rng, plan, ops, 0.3)
        return [plan]


# ---------------------------------------------------------------------------------------------------------
class C05(SerialProp):
    id = 'C05'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('Sequences of 1-4 foreground polls of 1-12 packets with random sensor values on one communicator, with '
            'damaged, lost, duplicated and inserted bytes, stalls, resets and ends of stream at exact bytes and '
            'random segmentation; results are compared with an independent decoding of the bytes the console sent.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        ops = plan['ops'] = []
        for _ in range(rng.randint(1, 4)):
            ops.append({'op': 'poll', 'n': rng.choice([1, 2, 3, 5, rng.randint(1, 12), 0]), 'addr': 0, 'len': 1,
                        'hs': rng.randrange(1 << 30)})
            if rng.random() < 0.01:
                ops[-1]['n'] = rng.choice([60, 130, 260, 400])
            if rng.random() < 0.25:
                ops.append({'op': 'read', 'addr': rng.randrange(200), 'len': rng.randint(1, 8),
                            'hs': rng.randrange(1 << 30)})
        total = sum(o.get('n', 0) for o in ops)
        kinds = rng.choice([[], ['packet'], ['packet'], ['conn'], ['conn'], ['packet', 'conn'], ['instr']])
        if 'packet' in kinds and total:
            for _ in range(rng.randint(1, 3)):
                plan['faults'].append({
                    'at': 'packet', 'n': rng.randrange(total), 'kind': rng.choice(['flip', 'flip', 'flip', 'burst', 'crc', 'drop',
                                                                                   'dup', 'noise']),
                    'pos': rng.choice([0, 3, 95, 96, 97, 98, rng.randrange(99), rng.randrange(99)]),
                    'bit': rng.randrange(8), 'val': rng.randrange(1, 65536)})
        if 'conn' in kinds:
            plan['faults'].append(conn_fault(rng, ops))
        if 'instr' in kinds:
            plan['faults'].append({'at': 'instr', 'n': rng.randrange(len(ops)), 'kind': rng.choice(['nak', 'slow',
                                                                                                    'ack_eof']),
                                   'secs': 61.0})
        return [plan]

    def execute(self, plan, sched):
        b = Bench(plan, sched)
        shape = []

        def driver():
            s = Session(b)
            s.open()
            con = b.console
            for d in plan['ops']:
                b.ensure_link(s.p)
                sess = b.session()
                npoll = len(sess.polls)
                o, hist, fired = s.do(d)
                link = any(f in fired for f in LINK_FAULTS)
                detail = {'op': d['op'], 'n': d.get('n'), 'outcome': o.describe(), 'faults': fired}
                shape.append([d['op'], d.get('n'), o.describe()[:30]])
                if o.exc is not None:
                    b.need(isinstance(o.exc, Exception) and not o.programming_error, 'crash-in-client', detail)
                instr = [h for h in hist if h[0] == 'instr']
                refused = [h for h in instr if h[3] in ('nak', 'ack_eof')]
                if d['op'] == 'read':
                    if o.exc is None:
                        b.need(o.value == bytes(con.eeprom[d['addr']:d['addr'] + d['len']]), 'wrong-data', detail)
                    else:
                        b.need(link or refused, 'read-failed-without-cause', detail)
                        C02.relink(self, b, s)
                    continue
                polls = sess.polls[npoll:]
                wire = bytes(sess.wire[polls[0]['start']:]) if polls else b''
                n = d['n']
                blocks = [wire[i * 99:(i + 1) * 99] for i in range(n)]
                damaged = any(f.startswith('console_packet') for f in fired)
                valid = bool(polls) and all(R.loop2_valid(x) for x in blocks)
                if o.exc is None:
                    b.need(not refused and polls or (n == 0 and not refused), 'poll-without-stream', detail)
                    b.need(len(polls) == 1 and polls[0]['requested'] == n, 'wrong-poll-instruction',
                           lambda: dict(detail, polls=[p['requested'] for p in polls]))
                    v = o.value
                    b.need(isinstance(v, (list, tuple)) and len(v) == n, 'wrong-packet-count',
                           lambda: dict(detail, got=len(v) if v is not None else None))
                    for i, rec in enumerate(v):
                        x = blocks[i]
                        b.need(len(x) == 99, 'packet-from-nowhere', dict(detail, i=i))
                        if not R.loop2_valid(x):
                            shifted = any(f in fired for f in ('console_packet_drop', 'console_packet_dup',
                                                               'console_packet_noise'))
                            b.need(not shifted and not rec.get('crc_match', True), 'misframed-packet-returned',
                                   dict(detail, i=i))
                            continue
                        bad = R.diff(R.loop2_decode(x), rec)
                        b.need(not bad, 'wrong-packet', lambda: dict(detail, i=i, diff=bad[:4]))
                else:
                    b.need(link or refused or (damaged and not valid), 'poll-failed-without-cause', detail)
                    if damaged:
                        b.k.probe('framing_error_raised')
                if o.exc is not None or damaged or link:
                    C02.relink(self, b, s)
                else:
                    b.settle(3.0)
                    b.need(not b.stale(), 'packets-left-unread', detail)
                    b.need(not sess.stray and not [h for h in hist if h[0] in ('cancel', 'stray', 'unknown')],
                           'stray-bytes', lambda: dict(detail, stray=repr(bytes(sess.stray))))
        b.run(driver)
        return b.k, {'shape': shape}

    wait_threads = staticmethod(C02.wait_threads)


# ---------------------------------------------------------------------------------------------------------
CB_ERRORS = [RuntimeError, IOError, ValueError, AssertionError, socket.timeout, KeyError, StopIteration, struct.error, EOFError,
             SystemExit]


class Run(object):
    """One background run as seen from outside."""

    def __init__(self, b, n, cfg):
        self.b = b
        self.n = n
        self.cfg = cfg
        self.got = []
        self.active = 0
        self.overlap = False
        self.sess = None
        self.poll = None
        self.after_stop = 0
        self.stop_done = False
        self.threads = []
        self.started_at = None
        self.foreign = 0

    def callback(self, rec):
        k = self.b.k
        if self.active:
            self.overlap = True
        self.active += 1
        i = len(self.got)
        self.got.append(rec)
        k.log('callback', i)
        if self.stop_done:
            self.after_stop += 1
        try:
            dur = self.cfg.get('cb_sleep', 0)
            if dur:
                k.sleep(dur)
            else:
                k.y()
            if self.cfg.get('cb_raise') == i:
                raise CB_ERRORS[self.cfg.get('cb_error', 0)]('callback failed')
            if self.cfg.get('cb_stop') == i:
                self.cfg['do_stop'](self)
        finally:
            self.active -= 1


class BgProp(SerialProp):
    def start(self, b, p, n, cfg):
        run = Run(b, n, cfg)
        t0 = len(b.app.__dict__.get('threads', []))
        n_polls = {id(s): len(s.polls) for s in b.console.sessions}
        run.t0 = b.k.now
        o = b.op(lambda: p.start_background_polling(n, run.callback), 'bgstart')
        run.t1 = b.k.now
        run.threads = b.app.__dict__.get('threads', [])[t0:]
        run.sess = b.session()
        if run.sess is not None:
            new = run.sess.polls[n_polls.get(id(run.sess), 0):]
            run.poll = new[0] if new else None
            run.polls = new
        run.outcome = o
        run.rx0 = run.sess.conn.delivered['c2s'] if run.sess else 0
        return run

    def wait_done(self, b, run, limit=None):
        for t in run.threads:
            ok = b.k.wait(lambda: t._task is None or t._task.done, None if limit is None else b.k.now + limit, 'bg')
            if not ok:
                return False
        return True

    def over(self, b, run):
        """True if the run was over but for the last statements of its thread, which may follow the one that says so."""
        had = len(run.got)
        return not run.active and self.wait_done(b, run, 2.0) and len(run.got) == had

    def check_packets(self, b, run, detail):
        """Everything delivered is an in-order prefix of the stream, each packet once, none misframed."""
        b.need(not run.overlap, 'concurrent-callbacks', detail)
        if not run.got:
            return True
        b.need(run.poll is not None, 'packets-without-poll', detail)
        wire = bytes(run.sess.wire[run.poll['start']:])
        for i, rec in enumerate(run.got):
            x = wire[i * 99:(i + 1) * 99]
            b.need(len(x) == 99, 'packet-from-nowhere', dict(detail, i=i, delivered=len(run.got)))
            if not R.loop2_valid(x):
                b.need(not rec.get('crc_match', True), 'misframed-packet-delivered', dict(detail, i=i))
                continue
            bad = R.diff(R.loop2_decode(x), rec)
            b.need(not bad, 'wrong-packet', lambda: dict(detail, i=i, diff=bad[:4]))
        b.need(len(run.got) <= run.n, 'too-many-packets', dict(detail, delivered=len(run.got)))


def stops(rng, period, most=4):
    """A moment to stop, biased to packet boundaries."""
    k = rng.randint(0, most)
    return max(0.0, rng.choice([0.0, 0.001, rng.random() * 6, k * period, k * period + 0.02, k * period + 0.05,
                                k * period + rng.random() * 0.4]))


class C06(BgProp):
    id = 'C06'
    quick_runs = 3000
    thorough_runs = 80000
    rule = ('One background polling run per simulated run: 1-8 packets, callback durations up to several packet '
            'periods, callback exceptions, a stop at a random or boundary-biased instant (from the caller, another '
            'thread or the callback), stream faults and random preemption of caller, background thread and packet '
            'arrivals; callback history and console-side bytes are checked against the stream.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        n = rng.choice([1, 2, 3, 4, 8]) if rng.random() > 0.02 else rng.choice([60, 130, 260])
        d = {'op': 'bg', 'n': n, 'addr': 0, 'len': 1, 'hs': 0}
        d['cb_sleep'] = rng.choice([0, 0, 0.01, 1.0, 2.0, 5.0])
        if rng.random() < 0.1:
            d['cb_raise'] = rng.randrange(n)
            d['cb_error'] = rng.randrange(len(CB_ERRORS))
        r = rng.random()
        if r < 0.65:
            d['stop_after'] = stops(rng, plan['console']['period'], max(4, n // 2))
            if rng.random() < 0.15:
                d['stop_twice'] = True
        elif r < 0.75:
            d['cb_stop'] = rng.randrange(n)
        plan['ops'] = [d]
        kinds = rng.choice([[], [], [], ['packet'], ['conn'], ['slow']])
        if 'packet' in kinds:
            plan['faults'].append({
                'at': 'packet', 'n': rng.randrange(n), 'kind': rng.choice(['flip', 'flip', 'drop', 'dup', 'noise']),
                'pos': rng.choice([0, 96, 98, rng.randrange(99)]), 'bit': rng.randrange(8), 'val': rng.randrange(1, 256)})
        if 'conn' in kinds:
            plan['faults'].append(conn_fault(rng, [d]))
        if 'slow' in kinds:
            plan['faults'].append({'at': 'instr', 'n': 0, 'kind': 'slow', 'secs': 30.0})
        plan['net']['jitter'] = rng.choice([0.0, 0.01, 0.3])
        if rng.random() < 0.25:
            plan['calm'] = True
            plan['sched'] = {'mode': 'random', 'gap': 0, 'pick': 0.0}
        return [plan]

    def execute(self, plan, sched):
        b = Bench(plan, sched)
        k = b.k
        shape = []

        def driver():
            s = Session(b)
            s.open()
            p = s.p
            d = dict(plan['ops'][0]) if plan['ops'] else {'n': 1}
            n = d['n']
            stop_out = []

            def stop_from_callback(run):
                try:
                    p.stop_background_polling()
                    stop_out.append(None)
                except Exception as e:  # noqa
                    stop_out.append(e)
                run.stop_done = True
            d['do_stop'] = stop_from_callback
            run = self.start(b, p, n, d)
            o = run.outcome
            detail = {'n': n, 'start': o.describe(), 'faults': dict(k.faults)}
            conn_faulty = any(f['at'] == 'conn' for f in plan['faults'])
            slow = any(f['at'] == 'instr' for f in plan['faults'])
            if not o.ok:
                b.need(any(x in k.faults for x in LINK_FAULTS), 'start-failed-without-cause', detail)
                b.need(isinstance(o.exc, IOError), 'start-wrong-error', detail)
                b.settle(5.0)
                b.need(not run.got, 'packets-after-failed-start', detail)
                return
            calm = plan.get('calm') and not conn_faulty and not slow
            if calm:
                b.need(run.t1 - run.t0 < plan['console']['ack_delay'] + 16 * (plan['net']['latency'] +
                       plan['net']['jitter']) + 0.5, 'start-blocked-caller', dict(detail, seconds=run.t1 - run.t0))
            stopped_at = None
            late = False
            if 'stop_after' in d:
                k.sleep(d['stop_after'])
                ts = k.now
                so = b.op(p.stop_background_polling, 'bgstop')
                run.stop_done = True
                stopped_at = k.now
                detail['stop'] = so.describe()
                if so.exc is not None:
                    # only refused when the run had finished by itself
                    b.need(isinstance(so.exc, ValueError), 'stop-wrong-error', detail)
                    b.need(self.over(b, run), 'stop-refused-while-running', detail)
                    late = True
                if calm:
                    b.need(stopped_at - ts < 0.25, 'stop-blocked-caller', detail)
                if d.get('stop_twice') and not late:
                    so = b.op(p.stop_background_polling, 'bgstop2')
                    b.need(so.exc is None or isinstance(so.exc, ValueError), 'stop-wrong-error', so.describe())
            done = self.wait_done(b, run, 1000.0 + n * (plan['console']['period'] + d.get('cb_sleep', 0)))
            b.need(done, 'thread-did-not-end', detail)
            b.settle(5.0)
            b.need(done and not run.active, 'thread-did-not-end', detail)
            n_end = len(run.got)
            k.sleep(30.0)
            b.need(len(run.got) == n_end, 'delivery-after-end', detail)
            detail.update(delivered=len(run.got), faults=dict(k.faults))
            self.check_packets(b, run, detail)
            shape.append([n, len(run.got), run.after_stop, run.poll['ended'] if run.poll else None])
            if stop_out:
                b.need(stop_out[0] is None, 'stop-from-callback-failed', dict(detail, error=repr(stop_out[0])))
            damaged = any(x.startswith('console_packet') for x in k.faults)
            shifted = any(x in k.faults for x in ('console_packet_drop', 'console_packet_dup', 'console_packet_noise'))
            link = any(x in k.faults for x in LINK_FAULTS)
            raised = 'cb_raise' in d and len(run.got) > d['cb_raise']
            stopped = (stopped_at is not None and not late) or bool(stop_out)
            if run.stop_done:
                b.need(run.after_stop <= 1, 'packets-after-stop', dict(detail, after=run.after_stop))
                k.probe('stopped_with_%d_after' % min(run.after_stop, 2))
            if not stopped and not damaged and not link and not raised:
                b.need(len(run.got) == n, 'packets-missing', detail)
            # what the console saw (once everything sent has arrived)
            for _ in range(200):
                if run.sess.conn.dead or run.sess.conn.delivered['c2s'] >= run.sess.conn.queued['c2s']:
                    break
                k.sleep(5.0)
            extra = bytes(run.sess.stray) + b''.join(h[2] for h in b.console.history if h[0] == 'cancel')
            nrx = run.sess.conn.queued['c2s'] - len('LPS 2 %d\n' % n)
            b.need(len([h for h in b.console.history if h[0] == 'instr']) == 1 and
                   len([h for h in b.console.history if h[0] == 'unknown']) == 0, 'unexpected-instruction', detail)
            if not link:
                b.need(nrx == len(extra), 'unexpected-bytes', dict(detail, sent=nrx, seen=repr(extra)))
            if len(run.got) >= n or not stopped:
                b.need(extra == b'', 'cancel-not-wanted', dict(detail, sent=repr(extra)))
            elif raised:
                pass
            elif not damaged and not link:
                b.need(extra == b'\r', 'cancel-missing-or-wrong', dict(detail, sent=repr(extra)))
                k.probe('cancelled')
            # the communicator itself must still be able to let go of the link
            o = b.op(p.disconnect)
            b.need(o.ok or link, 'disconnect-failed', o.describe())
            b.need(not b.app.sockets, 'link-not-released', detail)
            for name, e in b.app.thread_errors:
                if not (damaged or link or raised):
                    b.fail('thread-died', {'error': '%s: %s' % (type(e).__name__, e), **detail})
                if isinstance(e, PROGRAMMING) and not shifted:
                    b.fail('thread-died-of-bug', {'error': '%s: %s' % (type(e).__name__, e), **detail})
        b.run(driver)
        return k, {'shape': shape}


class C07(BgProp):
    id = 'C07'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('Sequences of 2-7 operations (start, stop, stop at once, wait for the end, second start, foreground poll, '
            'configuration read, reconnect, a start by two threads at once) on one poller with refused and interrupted starts, thread-creation '
            'failure, broken streams and random preemption, checked against a two-state model of "a run is in '
            'progress" derived from the background thread itself.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        ops = plan['ops']
        for _ in range(rng.randint(2, 7) if rng.random() > 0.03 else rng.randint(12, 30)):
            o = rng.choice(['start', 'start', 'start', 'start', 'stop', 'stop', 'wait', 'poll', 'read', 'stop_now'])
            d = {'op': o}
            if o == 'start':
                d['n'] = rng.choice([1, 2, 3, 5])
                d['cb_sleep'] = rng.choice([0, 0, 0.5, 3.0])
                d['link'] = rng.choice(['same', 'same', 'fresh'])
                if rng.random() < 0.1:
                    d['cb_raise'] = 0
                    d['cb_error'] = rng.randrange(len(CB_ERRORS))
                if rng.random() < 0.06:
                    d['thread_fault'] = True
                elif rng.random() < 0.12:
                    d['rival'] = True
            elif o == 'poll':
                d['n'] = rng.choice([1, 2, 3])
            if o in ('stop', 'poll', 'start', 'wait'):
                d['delay'] = rng.choice([0.0, 0.0, rng.random() * 5, plan['console']['period'] * rng.randint(0, 3)])
            ops.append(d)
        kinds = rng.choice([[], [], ['instr'], ['packet'], ['conn'], ['instr', 'packet']])
        if 'instr' in kinds:
            plan['faults'].append({'at': 'instr', 'n': rng.randrange(3), 'kind': rng.choice(['nak', 'bang', 'garbage',
                                                                                            'ack_eof', 'slow']),
                                   'val': 0x41, 'secs': 20.0})
        if 'packet' in kinds:
            plan['faults'].append({'at': 'packet', 'n': rng.randrange(4), 'kind': rng.choice(['drop', 'dup', 'noise']),
                                   'pos': rng.randrange(99), 'val': 0x30})
        if 'conn' in kinds:
            plan['faults'].append({'at': 'conn', 'n': rng.randrange(2), 'dir': 's2c', 'kind': rng.choice(['rst', 'fin']),
                                   'pos': rng.choice([0, 1, 50, 100, 150, 250])})
        plan['net']['jitter'] = rng.choice([0.0, 0.01, 0.3])
        return [plan]

    @staticmethod
    def rival(b, p, box, rx0):
        """Another thread of the program starts a run, too, once the instruction of the first one is on its way."""
        c = b.conn()
        b.k.wait(lambda: c.queued['c2s'] > rx0 or box['done'] or c.dead, b.k.now + 1000.0, 'rival')
        if box['done']:
            return
        exc = None
        try:
            p.start_background_polling(2, Run(b, 2, {}).callback)
        except Exception as e:  # noqa
            exc = e
        box['open'] = not box['done']
        box['exc'] = exc

    def execute(self, plan, sched):
        b = Bench(plan, sched)
        k = b.k
        shape = []

        def driver():
            s = Session(b)
            s.open()
            p = s.p
            runs = []

            def busy():
                return bool(runs) and any(t._task is not None and not t._task.done for t in runs[-1].threads)

            def finish():
                if runs:
                    b.need(self.wait_done(b, runs[-1], 2000.0), 'thread-did-not-end', '')

            for d in plan['ops']:
                k.sleep(d.get('delay', 0.0))
                kind = d['op']
                if kind == 'start':
                    was = busy()
                    if not was:
                        b.settle(3.0)
                        if d.get('link') == 'fresh' or not b.link_ok() or b.stale() or \
                                (runs and runs[-1].poll is not None and runs[-1].poll['live']):
                            C02.relink(self, b, s)
                    mark = dict(k.faults)
                    if d.get('thread_fault') and not was:
                        b.app.thread_fault = 1
                    prev = runs[-1] if runs else None
                    instr0 = b.console.n_instr
                    rx0 = b.conn().queued['c2s']
                    box = {'done': False}
                    rival = None
                    if d.get('rival') and not was:
                        rival = b.w.start(b.app, lambda: self.rival(b, p, box, rx0), 'app/rival')
                    run = self.start(b, p, d['n'], d)
                    b.app.thread_fault = None
                    box['done'] = True
                    if rival is not None:
                        b.w.join(rival)
                        if 'exc' in box:
                            k.probe('rival_starts')
                            b.need(not box['open'] or isinstance(box['exc'], ValueError), 'second-start-accepted',
                                   {'step': 'start', 'during': 'start', 'outcome': repr(box['exc'])})
                            if not isinstance(box['exc'], ValueError):
                                # it came when the first start had failed already, and is a run of its own
                                C02.wait_threads(b)
                                return
                            b.need(not box['open'] or b.console.n_instr <= instr0 + 1, 'second-start-disturbed',
                                   {'step': 'start', 'during': 'start', 'instructions': b.console.n_instr - instr0})
                    fired = [f for f in k.faults if k.faults[f] > mark.get(f, 0)]
                    o = run.outcome
                    detail = {'step': 'start', 'busy': was, 'outcome': o.describe(), 'faults': fired,
                              'previous': prev.how if prev else None}
                    shape.append(['start', was, o.describe()[:30]])
                    if was and busy() and (isinstance(o.exc, ValueError) or not self.over(b, prev)):
                        # was in progress for the whole call
                        b.need(isinstance(o.exc, ValueError), 'second-start-accepted', detail)
                        if not prev.stop_done:
                            b.need(b.console.n_instr == instr0 and b.conn().queued['c2s'] == rx0,
                                   'second-start-disturbed', detail)
                        continue
                    if was:
                        # ended by itself during the call: either answer is right
                        if o.exc is not None:
                            b.need(isinstance(o.exc, (ValueError, IOError)), 'start-wrong-error', detail)
                            if not isinstance(o.exc, ValueError):
                                run.how = 'refused'
                                C02.relink(self, b, s)
                            continue
                    if o.exc is not None:
                        cause = [f for f in fired if f.startswith('console_instr') or f in LINK_FAULTS
                                 or f == 'thread_start']
                        b.need(cause or any(f in k.faults for f in LINK_FAULTS), 'start-refused-without-cause', detail)
                        b.need(isinstance(o.exc, (IOError, RuntimeError)), 'start-wrong-error', detail)
                        run.how = 'failed-start'
                        b.settle(2.0)
                        b.need(not run.got, 'packets-after-failed-start', detail)
                        if not [f for f in fired if f in ('console_instr_nak', 'console_instr_bang',
                                                         'console_instr_garbage')]:
                            C02.relink(self, b, s)
                        runs.append(run)
                        continue
                    run.how = 'started'
                    runs.append(run)
                elif kind in ('stop', 'stop_now'):
                    was = busy()
                    run = runs[-1] if runs else None
                    o = b.op(p.stop_background_polling, 'bgstop')
                    still = busy()
                    detail = {'step': 'stop', 'busy': was, 'outcome': o.describe(),
                              'previous': run.how if run else None}
                    shape.append(['stop', was, o.describe()[:30]])
                    if was and still:
                        b.need(o.ok or isinstance(o.exc, ValueError) and self.over(b, run), 'stop-refused-while-running', detail)
                    elif was:
                        b.need(o.ok or isinstance(o.exc, ValueError), 'stop-wrong-error', detail)
                    else:
                        b.need(isinstance(o.exc, ValueError), 'stop-accepted-while-idle', detail)
                    if was and o.ok:
                        run.stop_done = True
                        run.how = 'stopped'
                elif kind == 'wait':
                    finish()
                else:
                    finish()
                    b.settle(3.0)
                    run = runs[-1] if runs else None
                    if not b.link_ok() or b.stale() or (run and run.poll is not None and run.poll['live']):
                        C02.relink(self, b, s)
                    sess = b.session()
                    np = len(sess.polls)
                    dd = {'op': kind, 'n': d.get('n', 1), 'addr': 0x20, 'len': 4, 'hs': 2}
                    o, hist, fired = s.do(dd)
                    detail = {'step': kind, 'outcome': o.describe(), 'faults': fired,
                              'previous': run.how if run else None}
                    shape.append([kind, o.describe()[:30]])
                    if not fired and not sess.conn.dead and not sess.conn.rx_eof:
                        b.need(o.ok, 'foreground-failed', detail)
                        if kind == 'poll':
                            w = bytes(sess.wire[sess.polls[np]['start']:])
                            b.need(isinstance(o.value, (list, tuple)) and len(o.value) == d['n'],
                                   'foreground-wrong-count', dict(detail, got=repr(o.value)[:60]))
                            for i, rec in enumerate(o.value):
                                bad = R.diff(R.loop2_decode(w[i * 99:i * 99 + 99]), rec)
                                b.need(not bad, 'foreground-wrong-packet', dict(detail, diff=bad[:3]))
                        else:
                            b.need(o.value == bytes(b.console.eeprom[0x20:0x24]), 'foreground-wrong-data', detail)
                    else:
                        C02.relink(self, b, s)
            finish()
            b.settle(30.0)
            for i, run in enumerate(runs):
                detail = {'run': i, 'how': run.how, 'delivered': len(run.got), 'n': run.n}
                self.check_packets(b, run, detail)
                clean = not any(f.startswith('console_packet') or f in LINK_FAULTS for f in k.faults)
                if run.how == 'started' and clean and 'cb_raise' not in run.cfg:
                    b.need(len(run.got) == run.n, 'packets-missing', detail)
                k.probe('runs_completed' if len(run.got) == run.n else 'runs_cut')
            # and one final start/stop cycle from whatever state was reached
            C02.relink(self, b, s)
            b.console.faults.clear()
            b.w.net.conn_faults.clear()
            fin = self.start(b, p, 2, {})
            if not [f for f in plan['faults'] if f['at'] == 'conn']:
                b.need(fin.outcome.ok, 'cannot-start-again', {'outcome': fin.outcome.describe(),
                                                              'previous': runs[-1].how if runs else None})
                b.need(self.wait_done(b, fin, 100.0) and len(fin.got) == 2, 'cannot-start-again',
                       {'delivered': len(fin.got)})
                self.check_packets(b, fin, {'run': 'final'})
            else:
                self.wait_done(b, fin)
        b.run(driver)
        return k, {'shape': shape}

    wait_threads = staticmethod(C02.wait_threads)


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07)}
