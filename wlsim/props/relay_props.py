"""C19: a station program that passes the packets of its consoles on to Weather Underground as they arrive."""
import collections
import datetime
import random

from .. import refcodec as R
from ..console import Console
from ..runner import Prop, swarm_net, swarm_sched
from ..tz import ZONES
from ..world import World, Abort, Outcome, PROGRAMMING
from ..wu import WU
from . import serial_props as sp
from . import wu_props as wp

LINK = sp.LINK_FAULTS + ('net_stall', 'net_hole')


class Bench(sp.Bench):
    """One station: a console, a poller and an exporter; several may share one program."""

    def __init__(self, prop, plan, world, app, wu, i):
        self.prop = prop
        self.plan = plan
        self.st = plan['stations'][i]
        self.w = world
        self.k = world.k
        self.app = app
        self.modules = [world.module(app, m) for m in ('weatherlink.poller', 'weatherlink.exporter.wunderground')]
        self.wu = wu
        self.i = i
        self.name = 'console%d' % i
        self.console = Console(world, self.st['console'], [f for f in plan['faults'] if f.get('st') == i],
                               self.name, '10.1.0.%d' % (10 + i), self.st['port'])
        self.history = []
        self.sent = 0           # requests that reached the service for this station
        self.accepted = 0
        self.submitted = 0
        self.sending = 0

    def make(self):
        pm, wm = self.modules

        def f():
            p = pm.IPPoller(self.name) if self.st['port'] == 22222 else pm.IPPoller(self.name, self.st['port'])
            e = wm.WundergroundExporter(self.st['station'], self.st['password'])
            if self.st['zone']:
                e.station_time_zone = self.st['zone']
            return p, e
        o = self.op(f, 'make')
        self.need(o.ok, 'constructor-failed', o.describe())
        self.p, self.exp = o.value

    def live_conns(self):
        return [s for s in self.app.sockets if s.conn is not None and not s.really_closed and
                getattr(s.conn.handler, 'c', None) is self.console]

    def now(self):
        base = datetime.datetime.strptime(self.st['base'], '%Y-%m-%dT%H:%M:%S')
        return base + datetime.timedelta(seconds=int(self.k.now - self.k.start))

    # -- one update, in whatever thread of the program
    def send(self, rec, ref):
        k = self.k
        self.need(not self.sending, 'harness', '')
        self.sending += 1
        when = self.now()
        rec['date'] = when
        self.history.insert(0, (ref['wind_speed'], ref['wind_direction_degrees']))
        self.submitted += 1
        mark, t0, d0 = len(self.wu.log), k.now, k.d
        exc = None
        try:
            self.exp.send_rapid_update(rec)
        except Exception as e:  # noqa
            exc = e
        self.sending -= 1
        out = Outcome(None, exc, False, t0, k.now, d0, k.d)
        sid = self.st['station']
        n0 = len(self.wu.log)
        self.prop.judge(k, self.w, self.wu, self.st, self.st['zone'] or 'America/Chicago', 'rapid', ref, when,
                        self.history, out, mark, t0, self.fail, [], lambda e: dict(e['query']).get('ID') == sid)
        self.sent += len([e for e in self.wu.log[mark:n0] if dict(e['query']).get('ID') == sid])
        if exc is None:
            self.accepted += 1
            k.probe('relayed')
        if isinstance(exc, PROGRAMMING):
            self.fail('send-failed-of-bug', {'error': repr(exc)})
        return exc


class RelayRun(sp.Run):
    """Background polling whose callback passes each record on."""

    def __init__(self, b, n, cfg):
        sp.Run.__init__(self, b, n, cfg)
        self.queue = collections.deque()
        self.handled = 0
        self.abandoned = False

    def callback(self, rec):
        b, k = self.b, self.b.k
        if self.active:
            self.overlap = True
        self.active += 1
        self.got.append(rec)
        k.log('callback', b.i, len(self.got))
        if self.stop_done:
            self.after_stop += 1
        try:
            i = len(self.got) - 1
            if self.cfg['mode'] == 'cb':
                self.deliver(i, rec)
            else:
                self.queue.append((i, rec))
                k.y()
        finally:
            self.active -= 1

    def deliver(self, i, rec):
        """Pass one record on (records that arrived damaged are left out)."""
        b = self.b
        self.handled += 1
        if not rec.get('crc_match'):
            b.k.probe('damaged_left_out')
            return
        s = b.session()
        b.need(s is not None and self.start_polls[id(s)] < len(s.polls) if s is not None else False, 'packet-from-nowhere', '')
        p = s.polls[self.start_polls[id(s)]]
        x = bytes(s.wire[p['start'] + i * 99:p['start'] + i * 99 + 99])
        b.need(R.loop2_valid(x), 'damaged-packet-called-intact', {'i': i})
        ref = R.loop2_decode(x)
        bad = R.diff(ref, rec)
        b.need(not bad, 'wrong-packet', lambda: {'i': i, 'diff': bad[:4]})
        e = b.send(rec, ref)
        if e is not None and self.cfg['policy'] == 'raise':
            self.abandoned = True
            raise e


class C19(Prop):
    id = 'C19'
    quick_runs = 1500
    thorough_runs = 40000
    real = sorted(set(sp.REAL + wp.REAL))
    stub = sorted(set(sp.STUB + wp.STUB))
    assumptions = sp.ASSUME + wp.ASSUME + ['the program that passes the records on is part of the harness: it sets the date '
                                           'of each record and leaves out those whose checksum did not match']
    list_fields = ('ops', 'faults', 'stations')
    rule = ('A station program for one or two consoles: background or foreground polling whose records are passed on by the '
            'callback, by a second thread or afterwards, with stops, restarts, failing callbacks, damaged packets, broken '
            'console links and every kind of failure of the service; each packet is submitted in stream order, reaches the '
            'service at most once with its own values and the wind history of its own station, failures of the service '
            'never disturb the polling, and everything works again once faults stop.')

    judge = wp.WUProp.judge
    request = wp.WUProp.request
    gust = staticmethod(wp.WUProp.gust)
    net_faults = wp.WUProp.net_faults
    start = sp.BgProp.start
    wait_done = sp.BgProp.wait_done
    over = sp.BgProp.over
    check_packets = sp.BgProp.check_packets

    def make(self, seed, index, tier):
        rng = random.Random(seed * 7919 + 19)
        plan = {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [], 'stations': [],
                'wu': {'framing': rng.choice(['length', 'length', 'chunked', 'close']),
                       'idle': rng.choice([None, 1.0, 30.0]), 'delay': rng.choice([0.0, 0.05, 1.0, 6.0]),
                       'close': rng.random() < 0.15, 'ctype': 'text/html'}}
        ns = rng.choice([1, 1, 2])
        apart = rng.random() < 0.5
        near = rng.randint(1, 99)
        total = 0
        for i in range(ns):
            zone = rng.choice(ZONES + [None])
            plan['stations'].append({
                'station': 'K%sX%d' % ('ABC'[i], rng.randint(1, 99)) if apart else 'KTNFRANK%d' % (near + i),
                'password': 'pw %d' % rng.randint(0, 99), 'zone': zone,
                'base': wp.when(rng, zone), 'port': rng.choice([22222, 22222, 5001]),
                'console': {'period': rng.choice([2.0, 2.5, 0.5]), 'first': rng.choice([0.01, 1.0]),
                            'ack_delay': rng.choice([0.001, 0.3])}})
        for i in range(rng.randint(1, 4) * ns):
            d = {'st': i % ns, 'mode': rng.choice(['cb', 'cb', 'queue', 'fg']),
                 'n': rng.choice([1, 2, 3, 5, rng.randint(6, 30)]), 'policy': rng.choice(['drop', 'drop', 'raise']),
                 'link': rng.choice(['same', 'fresh'])}
            if d['mode'] != 'fg' and rng.random() < 0.35:
                d['stop_after'] = sp.stops(rng, 2.0)
            if rng.random() < 0.2:
                d['delay'] = rng.choice([1.0, 100.0])
            total += d['n']
            plan['ops'].append(d)
        kinds = rng.choice([[], ['wu'], ['wu'], ['wu', 'console'], ['console']])
        if 'wu' in kinds:
            self.net_faults(rng, plan, rng.choice([1, 2, 4]), max(1, min(total, 12)))
        if 'console' in kinds:
            for _ in range(rng.choice([1, 2])):
                st = rng.randrange(ns)
                r = rng.random()
                if r < 0.35:
                    plan['faults'].append({'at': 'packet', 'st': st, 'n': rng.randrange(min(8, total)),
                                           'kind': rng.choice(['flip', 'flip', 'flip', 'burst', 'drop', 'dup']),
                                           'pos': rng.randrange(99), 'bit': rng.randrange(8), 'val': rng.randrange(1, 256)})
                elif r < 0.65:
                    plan['faults'].append({'at': 'instr', 'st': st, 'n': rng.randrange(3), 'val': 0x41, 'secs': 20.0,
                                           'kind': rng.choice(['nak', 'bang', 'garbage', 'ack_eof', 'slow'])})
                else:
                    plan['faults'].append({'at': 'conn', 'n': rng.randrange(3), 'dir': 's2c', 'secs': 5.0,
                                           'pos': rng.choice([0, 1, 99, rng.randrange(600)]),
                                           'kind': rng.choice(['rst', 'fin', 'stall'])})
        return [plan]

    def execute(self, plan, sched):
        w = World(plan, sched)
        k = w.k
        wu = WU(w, plan['wu'], [f for f in plan['faults'] if 'st' not in f])
        app = w.process('app')
        shape = []
        starting = [False]
        benches = [Bench(self, plan, w, app, wu, i) for i in range(len(plan['stations']))]

        def down(b):
            o = b.op(b.p.disconnect, 'disconnect')
            b.need(o.exc is None or isinstance(o.exc, (ValueError, OSError)), 'disconnect-error', o.describe())
            b.need(not b.live_conns(), 'link-not-released', o.describe())

        def up(b, tries=6):
            for _ in range(tries):
                o = b.op(b.p.connect, 'connect')
                if o.ok:
                    b.need(b.session() is not None, 'connected-without-connection')
                    return True
                b.need(isinstance(o.exc, OSError), 'connect-error', o.describe())
                k.sleep(3.0)
            b.fail('no-reconnect', '%d attempts to connect failed' % tries)

        def step(b, d, final=False):
            k.sleep(d.get('delay', 0.0))
            fresh = d['link'] == 'fresh'
            s = b.session()
            if s is not None and s.polls and s.polls[-1]['live'] or fresh or not b.link_ok() or b.stale() or not b.live_conns():
                down(b)
                up(b)
            s = b.session()
            sub0, acc0 = b.submitted, b.accepted
            f0 = dict(k.faults)
            detail = {'station': b.i, 'mode': d['mode'], 'n': d['n'], 'policy': d['policy']}

            def fired():
                return [f for f in k.faults if k.faults[f] > f0.get(f, 0)]
            run = RelayRun(b, d['n'], d)
            run.start_polls = {id(x): len(x.polls) for x in b.console.sessions}
            run.sess = s
            if d['mode'] == 'fg':
                o = b.op(lambda: b.p.poll(d['n']), 'poll')
                run.poll = s.polls[run.start_polls[id(s)]] if len(s.polls) > run.start_polls[id(s)] else None
                detail['outcome'] = o.describe()
                ended = o.exc
                if o.ok:
                    b.need(isinstance(o.value, (list, tuple)) and len(o.value) == d['n'], 'foreground-wrong-count', detail)
                    run.got = list(o.value)
                    self.check_packets(b, run, detail)

                    def rest():
                        for i, rec in enumerate(run.got):
                            try:
                                run.deliver(i, rec)
                            except Abort:
                                raise
                            except Exception:
                                break
                    o2 = b.op(rest, 'relay')
                    b.need(o2.ok, 'harness', o2.describe())
            else:
                # the threads of a start are told apart by when they were created
                k.wait(lambda: not starting[0], None, 'turn')
                starting[0] = True
                t0 = len(app.__dict__.get('threads', []))
                o = b.op(lambda: b.p.start_background_polling(d['n'], run.callback), 'bgstart')
                run.threads = app.__dict__.get('threads', [])[t0:]
                starting[0] = False
                detail['outcome'] = o.describe()
                run.poll = s.polls[run.start_polls[id(s)]] if len(s.polls) > run.start_polls[id(s)] else None
                ended = o.exc
                sender = None
                if o.ok:
                    if d['mode'] == 'queue':
                        def pump():
                            while True:
                                if run.queue:
                                    i, rec = run.queue.popleft()
                                    try:
                                        run.deliver(i, rec)
                                    except Abort:
                                        raise
                                    except Exception:
                                        return
                                elif all(t._task is None or t._task.done for t in run.threads):
                                    return
                                else:
                                    k.sleep(0.3)
                        sender = w.start(app, pump, 'app/sender%d' % b.i)
                    if 'stop_after' in d:
                        k.sleep(d['stop_after'])
                        so = b.op(b.p.stop_background_polling, 'bgstop')
                        if so.ok:
                            run.stop_done = True
                        else:
                            b.need(isinstance(so.exc, ValueError), 'stop-wrong-error', dict(detail, stop=so.describe()))
                            b.need(self.over(b, run), 'stop-refused-while-running', detail)
                    b.need(self.wait_done(b, run, 100000.0), 'thread-did-not-end', detail)
                    if sender:
                        so = w.join(sender)
                        b.need(so.ok, 'harness', so.describe())
                    if k.violations:
                        raise Abort()
                    b.need(run.after_stop <= 1, 'packets-after-stop', dict(detail, after=run.after_stop))
                    self.check_packets(b, run, detail)
            if k.violations:
                raise Abort()
            hit = fired()
            detail.update(faults=hit, delivered=len(run.got), submitted=b.submitted - sub0, accepted=b.accepted - acc0)
            shape.append([d['mode'], d['n'], len(run.got), b.submitted - sub0, b.accepted - acc0, sorted(hit)[:2]])
            console = any(f in LINK or f.startswith('console_') for f in k.faults)
            cut = ended is not None or run.abandoned or run.stop_done
            if ended is not None:
                b.need(console, 'poll-failed-without-cause', detail)
            if not console and not cut:
                b.need(len(run.got) == d['n'], 'packets-missing', detail)
                b.need(run.handled == len(run.got), 'harness', detail)
            if d['mode'] != 'queue' and not run.abandoned and not console:
                b.need(b.submitted - sub0 == len(run.got), 'harness', detail)
            if final:
                b.need(len(run.got) == d['n'] and b.accepted - acc0 == d['n'], 'does-not-work-after-failure', detail)
            if cut or console:
                down(b)

        def program(b):
            def go():
                b.make()
                for d in plan['ops']:
                    if d['st'] == b.i:
                        step(b, d)
            return go

        def driver():
            ts = [k.spawn(w.harness, 'program%d' % b.i, program(b)) for b in benches]
            k.wait(lambda: all(t.done for t in ts), None, 'programs')
            for t in ts:
                if t.exc is not None:
                    raise t.exc
            wu.faults.clear()
            wu.server.idle = None       # a service that hangs up on idle clients may do so just as they write
            w.net.conn_faults.clear()
            w.net.connect_faults.clear()
            w.net.dns_faults.clear()
            for b in benches:
                b.console.faults.clear()
            for c in w.net.conns:
                for f in c.faults:
                    f['_done'] = True
            k.calm()
            k.sleep(4000.0)
            for b in benches:
                step(b, {'st': b.i, 'mode': 'cb', 'n': 3, 'policy': 'drop', 'link': 'fresh'}, True)
            for b in benches:
                mine = [e for e in wu.log if dict(e['query']).get('ID') == b.st['station']]
                b.need(len(mine) == b.sent and len(mine) <= b.submitted, 'unexpected-request',
                       {'station': b.i, 'service': len(mine), 'judged': b.sent})
            if len(wu.log) != sum(b.sent for b in benches):
                benches[0].fail('unexpected-request', {'service': len(wu.log), 'judged': sum(b.sent for b in benches)})
            for name, e in app.thread_errors:
                if isinstance(e, PROGRAMMING):
                    benches[0].fail('thread-died-of-bug', {'error': repr(e)})
        w.run(driver)
        return k, {'shape': shape}


PROPS = {'C19': C19()}
