"""C16, C17: updates sent to Weather Underground."""
import datetime
import io
import random
from decimal import Decimal as D

from .. import derived
from .. import refcodec as R
from ..runner import Prop, swarm_net, swarm_sched
from ..tz import utc_candidates, ZONES
from ..world import World, Abort
from ..wu import WU, HOSTS
from .web_props import NASTY

REAL = ['weatherlink.exporter.wunderground', 'weatherlink.models', 'weatherlink.utils', 'requests', 'urllib3',
        'http.client', 'pytz']
STUB = ['TCP/IP sockets (simulated)', 'Weather Underground update service (simulated)', 'DNS, time (simulated)']
ASSUME = ['a response body without a length that is cut short by an orderly close cannot be detected by any client and is '
          'not injected', 'zone rules are those of the system tz database, for which pytz and zoneinfo agree']

SIMPLE = {'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_prevailing_degrees',
          'windgustmph': 'wind_speed_high', 'windgustdir': 'wind_direction_speed_high_degrees',
          'humidity': 'humidity_outside', 'tempf': 'temperature_outside', 'baromin': 'barometric_pressure',
          'solarradiation': 'solar_radiation', 'UV': 'uv_index', 'indoortempf': 'temperature_inside',
          'indoorhumidity': 'humidity_inside'}
RAPID = {'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_degrees',
         'windspdmph_avg2m': 'wind_speed_2_minute_average', 'windgustmph_10m': 'wind_speed_10_minute_gust',
         'windgustdir_10m': 'wind_speed_10_minute_gust_direction_degrees', 'humidity': 'humidity_outside',
         'dewptf': 'dew_point', 'tempf': 'temperature_outside', 'rainin': 'rain_amount_1_hour',
         'dailyrainin': 'rain_amount_today', 'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation',
         'UV': 'uv_index', 'indoortempf': 'temperature_inside', 'indoorhumidity': 'humidity_inside'}


class WUProp(Prop):
    real = REAL
    stub = STUB
    assumptions = ASSUME

    def base(self, seed):
        rng = random.Random(seed * 7919 + int(self.id[1:]))
        plan = {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [],
                'wu': {'framing': rng.choice(['length', 'length', 'chunked', 'close']),
                       'idle': rng.choice([None, None, 1.0, 30.0]), 'delay': rng.choice([0.0, 0.05, 1.0]),
                       'close': rng.random() < 0.15, 'ctype': rng.choice(['text/html', 'text/plain',
                                                                          'text/html; charset=UTF-8'])},
                'station': rng.choice(['KTNFRANK%d' % rng.randint(1, 99), 'IBAYERN%d' % rng.randint(1, 99)] * 2 +
                                      ['K ' + rng.choice(NASTY)]),
                'password': rng.choice(['pw%d' % rng.randint(0, 9999), 'p' + rng.choice(NASTY) + rng.choice(NASTY)]),
                'zone': rng.choice(ZONES + [None]), 'zone_as': rng.choice(['name', 'pytz', 'zoneinfo'])}
        return rng, plan

    def net_faults(self, rng, plan, n, span):
        for _ in range(n):
            r = rng.random()
            if r < 0.6:
                plan['faults'].append({
                    'at': 'http', 'n': rng.randrange(span),
                    'kind': rng.choice(['mute', 'slow', 'status', 'status', 'body', 'body', 'cut', 'cut']),
                    'secs': rng.choice([2.0, 45.0]),
                    'status': rng.choice([100 + 99, 202, 299, 300, 400, 401, 404, 500, 503, 204 - 1]),
                    'body': rng.choice(['', 'INVALIDPASSWORDID|Password or key and/or id are incorrect', 'fail',
                                        'Success!', 'successful', 'not success', 'error: success', 'unsuccess',
                                        'RapidFire Server', '<html>success</html>', 'SUCCESS']),
                    'pos': rng.randrange(400), 'how': rng.choice(['fin', 'rst'])})
            elif r < 0.85:
                plan['faults'].append({'at': 'conn', 'n': rng.randrange(3), 'dir': rng.choice(['c2s', 's2c', 's2c']),
                                       'pos': rng.choice([0, 1, 100, rng.randrange(500), rng.randrange(4000)]),
                                       'kind': rng.choice(['rst', 'fin', 'stall', 'hole']),
                                       'secs': rng.choice([5.0, 90.0])})
            elif r < 0.95:
                plan['faults'].append({'at': 'connect', 'n': rng.randrange(3),
                                       'kind': rng.choice(['refuse', 'timeout', 'unreachable'])})
            else:
                plan['faults'].append({'at': 'dns', 'n': rng.randrange(3)})
        for f in plan['faults']:
            if f.get('kind') == 'status' and f['status'] == 199:
                f['status'] = 404

    def execute(self, plan, sched):
        w = World(plan, sched)
        k = w.k
        wu = WU(w, plan['wu'], plan['faults'])
        app = w.process('app')
        mod = w.module(app, 'weatherlink.exporter.wunderground')
        models = w.module(app, 'weatherlink.models')
        shape = []
        zone = plan['zone'] or 'America/Chicago'

        def fail(kind, detail):
            k.violation(kind, detail)
            raise Abort()

        def make():
            e = mod.WundergroundExporter(plan['station'], plan['password'])
            if plan['zone']:
                z = plan['zone']
                if plan['zone_as'] == 'pytz':
                    import pytz
                    z = pytz.timezone(z)
                elif plan['zone_as'] == 'zoneinfo':
                    import zoneinfo
                    z = zoneinfo.ZoneInfo(z)
                e.station_time_zone = z
            return e

        def driver():
            o = w.call(app, make)
            if not o.ok:
                fail('constructor-failed', o.describe())
            exp = o.value
            history = []    # newest first: (speed, direction) of every packet submitted by rapid updates
            last = None

            def send(op):
                nonlocal last
                kind = op['op']
                rng = random.Random('%s/%s' % (plan['seed'], op['r']))
                when = datetime.datetime.strptime(op['when'], '%Y-%m-%dT%H:%M:%S')
                again = op.get('again') and last is not None and last[0] == kind
                if again:
                    _, rec, ref, when = last
                elif kind == 'simple':
                    raw = R.download_random(rng)
                    for name, v in (op.get('set') or {}).items():
                        raw[name] = v
                    when = when.replace(second=0)
                    rec = models.ArchiveIntervalRecord.load_from_download(
                        io.BytesIO(R.download_encode(when, raw, rng)), 5)
                    ref = R.download_decode(when, raw, 5)
                else:
                    v = self.packet(rng, op)
                    pkt = R.loop2_encode(v, 0, rng)
                    rec = models.LoopRecord.load_loop_2_from_connection(io.BytesIO(pkt))
                    ref = R.loop2_decode(pkt)
                    rec['date'] = when
                last = (kind, rec, ref, when)
                if kind == 'rapid':
                    history.insert(0, (ref['wind_speed'], ref['wind_direction_degrees']))
                mark = len(wu.log)
                t0 = k.now
                fn = exp.send_simple_update if kind == 'simple' else exp.send_rapid_update
                out = w.call(app, lambda: fn(rec))
                self.judge(k, w, wu, plan, zone, kind, ref, when, history, out, mark, t0, fail, shape)
                q = getattr(exp, 'record_queue', None)
                if q is not None and len(q) > 50:
                    fail('history-too-long', {'length': len(q)})
                return out

            for op in plan['ops']:
                if op.get('delay'):
                    k.sleep(op['delay'])
                send(op)
            wu.faults.clear()
            w.net.conn_faults.clear()
            w.net.connect_faults.clear()
            w.net.dns_faults.clear()
            for c in w.net.conns:
                for f in c.faults:
                    f['_done'] = True
            k.calm()
            k.sleep(2000.0)
            for kind in plan.get('final', ['rapid']):
                last = None
                out = send({'op': kind, 'r': 'final', 'when': '2016-04-01T00:00:00'})
                if not out.ok:
                    fail('next-send-failed', out.describe())
        w.run(driver)
        return k, {'shape': shape}

    def packet(self, rng, op):
        v = {}
        pkt = R.loop2_random(rng, rng.choice([32767, 650, 0, -15, rng.randint(400, 900)]))
        for name, off, t, _, _ in R.LOOP2:
            v[name] = R._get(pkt, off, t)
        if rng.random() < 0.5:
            v['dew_point'] = rng.choice([255, -20, 0, 45])
        if 'ws' in op:
            v['wind_speed'] = op['ws']
        if 'wd' in op:
            v['wind_direction_degrees'] = op['wd']
        return v

    def judge(self, k, w, wu, plan, zone, kind, ref, when, history, out, mark, t0, fail, shape, mine=None):
        reqs = [e for e in wu.log[mark:] if mine is None or mine(e)]
        used = [c for c in w.net.conns if any(t0 <= t <= k.now for t in c.sends)]
        cause = [e['kind'] for e in reqs if e['kind']] + [f[1] for c in used for f in c.fired] + \
            [e[2] for e in k.trace if len(e) > 2 and e[1] == 'FAULT' and e[0] + k.start >= t0 - 1e-3 and
             (e[2].startswith('connect_') or e[2] == 'dns')]
        detail = {'op': kind, 'outcome': out.describe(), 'causes': cause[:5], 'requests': len(reqs)}
        shape.append([kind, out.describe()[:20], len(reqs), cause[:1]])
        if len(reqs) > 1:
            fail('sent-more-than-once', detail)
        if out.exc is not None:
            if not isinstance(out.exc, Exception):
                fail('wrong-error', detail)
            if reqs and reqs[0]['accepted'] and not cause:
                fail('accepted-but-raised', detail)
            if not cause:
                fail('failed-without-cause', detail)
            k.probe('send_failed')
        else:
            if not reqs:
                fail('returned-without-sending', detail)
            if not reqs[-1]['accepted']:
                fail('returned-though-not-accepted', dict(detail, answer=repr(wu.faults.get(reqs[-1]['n']))))
            k.probe('send_ok')
        for e in reqs:
            self.request(k, e, plan, zone, kind, ref, when, history, detail, fail)

    def request(self, k, e, plan, zone, kind, ref, when, history, detail, fail):
        q = {}
        for a, b in e['query']:
            if a in q:
                fail('parameter-repeated', dict(detail, parameter=a))
            q[a] = b
        if HOSTS.get(e['host']) != kind or e['method'] not in ('GET', 'POST') or \
                e['path'] != '/weatherstation/updateweatherstation.php':
            fail('wrong-target', dict(detail, host=e['host'], path=e['path']))
        want = {'action': 'updateraw', 'ID': plan['station'], 'PASSWORD': plan['password']}
        for a, v in want.items():
            if q.get(a) != v:
                fail('wrong-' + a.lower(), dict(detail, wanted=v, got=q.get(a)))
        times = [t.strftime('%Y-%m-%d %H:%M:%S') for t in utc_candidates(when, zone)]
        if q.get('dateutc') not in times:
            fail('wrong-utc-time', dict(detail, zone=zone, local=str(when), wanted=times, got=q.get('dateutc')))
        table = SIMPLE if kind == 'simple' else RAPID
        expect = {a: ref[f] for a, f in table.items()}
        tol = {}
        if kind == 'simple':
            t, h = ref['temperature_outside'], ref['humidity_outside']
            expect['dewptf'] = derived.dew_point(t, h) if t is not None and h else None
            tol['dewptf'] = 0.06
        else:
            gust, gdir = self.gust(history)
            expect['windgustmph'], expect['windgustdir'] = gust, gdir
            ds = [d for _, d in history[:49] if d is not None]
            expect['winddir_avg2m'] = sum(ds) / float(len(ds)) if ds else None
            tol['winddir_avg2m'] = 1e-6
            if gust is not None and gust != ref['wind_speed']:
                k.probe('gust_from_history')
            if len(history) > 25 and any(s is not None and (gust is None or s > gust) for s, _ in history[25:]):
                k.probe('gust_aged_out')
            if len(history) > 49 and ds:
                k.probe('direction_window_full')
        for a in sorted(expect):
            v = expect[a]
            if v is None:
                if a in q:
                    fail('absent-value-sent', dict(detail, parameter=a, got=q[a]))
            elif v is R.ZERO_OR_NONE:
                if a in q and not _num(q[a]) == 0:
                    fail('wrong-value', dict(detail, parameter=a, wanted='0', got=q[a]))
            else:
                if a not in q:
                    fail('value-missing', dict(detail, parameter=a, wanted=str(v)))
                n = _num(q[a])
                if n is None or abs(float(n) - float(v)) > tol.get(a, 1e-9):
                    fail('wrong-value', dict(detail, parameter=a, wanted=str(v), got=q[a]))

    @staticmethod
    def gust(history):
        best = None
        d = None
        for s, wd in history[:25]:
            if s is not None and (best is None or s > best):
                best, d = s, wd
        return best, d


def _num(s):
    try:
        v = D(s)
    except ArithmeticError:
        return None
    return v if v.is_finite() else None


def when(rng, zone):
    from ..tz import transitions
    t = transitions(zone or 'America/Chicago')
    if t and rng.random() < 0.5:
        d = rng.choice(t) + datetime.timedelta(minutes=5 * rng.randint(-40, 40), seconds=rng.choice([0, 0, 7]))
    else:
        d = datetime.datetime(rng.randint(2002, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                              rng.randint(0, 59), rng.choice([0, 0, rng.randint(0, 59)]))
    return d.strftime('%Y-%m-%dT%H:%M:%S')


class C16(WUProp):
    id = 'C16'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('1-6 simple and rapid updates of seeded records (values, absences, zeros, negatives), stations, passwords, '
            'time zones and times around daylight-saving changes, with refusing, wrong, cut, stalled and silent answers '
            'and link faults; every request the simulated service received is decoded and compared with the record.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        kinds = rng.choice([['simple'], ['rapid'], ['simple', 'rapid']])
        for i in range(rng.randint(1, 6)):
            op = {'op': rng.choice(kinds), 'r': rng.randrange(1 << 30), 'when': when(rng, plan['zone']),
                  'delay': rng.choice([0, 0, 2.5, 40.0])}
            if rng.random() < 0.15:
                op['again'] = True
            if op['op'] == 'simple' and rng.random() < 0.3:
                op['set'] = {rng.choice(['temperature_outside', 'humidity_outside', 'wind_speed', 'temperature_inside',
                                         'solar_radiation']): 0}
            plan['ops'].append(op)
        plan['final'] = kinds
        self.net_faults(rng, plan, rng.choice([0, 1, 1, 2]), len(plan['ops']))
        return [plan]


class C17(WUProp):
    id = 'C17'
    quick_runs = 900
    thorough_runs = 25000
    rule = ('3-75 rapid updates whose wind speeds and directions are drawn from calm, steady, gusty, ageing-peak, '
            'tied-peak and sensor-gap patterns, with failing sends in between, compared with a direct computation over '
            'the submitted history.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        n = rng.choice([rng.randint(3, 12), rng.randint(26, 32), rng.randint(48, 60), rng.randint(60, 75)])
        pattern = rng.choice(['random', 'peak', 'tied', 'gaps', 'all_gaps', 'calm', 'falling', 'zeros'])
        for i in range(n):
            op = {'op': 'rapid', 'r': rng.randrange(1 << 30), 'when': '2016-04-01T10:%02d:%02d' % (i // 24, i % 24 * 2)}
            if pattern == 'peak':
                op['ws'] = 60 if rng.random() < 0.06 else rng.randint(0, 20)
            elif pattern == 'tied':
                op['ws'] = rng.choice([9, 10, 10])
            elif pattern == 'gaps':
                op['ws'] = rng.choice([255, 255, rng.randint(0, 30)])
                op['wd'] = rng.choice([0, 0, rng.randint(1, 360)])
            elif pattern == 'all_gaps':
                op['ws'], op['wd'] = (255, 0) if rng.random() < 0.97 else (3, 40)
            elif pattern == 'calm':
                op['ws'], op['wd'] = 0, rng.choice([0, 90])
            elif pattern == 'falling':
                op['ws'] = max(0, 200 - 3 * i)
            elif pattern == 'zeros':
                op['ws'] = rng.choice([0, 0, 255])
            if rng.random() < 0.04:
                op['again'] = True
            plan['ops'].append(op)
        self.net_faults(rng, plan, rng.choice([0, 1, 2, 4]), n)
        return [plan]


PROPS = {c.id: c() for c in (C16, C17)}
