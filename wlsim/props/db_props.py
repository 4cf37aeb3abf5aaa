"""C11-C15: the MySQL exporter against a simulated database server."""
import datetime
import io
import os
import random
import re
from decimal import Decimal

from .. import dbref
from .. import loader
from .. import refcodec as R
from .. import sqlengine as S
from ..mysqlsrv import MySQL
from ..runner import Prop, swarm_net, swarm_sched
from ..tz import ZONES, transitions
from ..world import World, Abort

REAL = ['weatherlink.exporter.mysql', 'weatherlink.models', 'weatherlink.utils', 'mysql.connector (pure Python)', 'pytz']
STUB = ['TCP/IP sockets (simulated)', 'MySQL server (simulated: wire protocol, SQL, InnoDB snapshots, row locks)',
        'DNS, time (simulated)']
ASSUME = ['the server behaves like MySQL 8 with InnoDB, strict mode and its default isolation level; gap locks are not modelled',
          'the tables are those of weatherlink/exporter/mysql.sql']
ARCH, SUMM, RAIN = 'weather_archive_record', 'weather_calculated_summary', 'weather_rain_event'
DATA_ERRORS = {1264, 1265, 1366, 1406, 1048, 1292, 3819, 1690}
SERVER_ERRORS = {1205, 1213, 1114, 1021, 1317, 3024, 1180, 1290, 1040, 1053, 1927, 4031}
INJECT = [1205, 1213, 1114, 1021, 1317, 3024, 1290]
MIN = datetime.timedelta(minutes=1)
FMT = '%Y-%m-%dT%H:%M'
_SCHEMA = {}


def schema_text():
    with io.open(os.path.join(loader.REPO, 'weatherlink', 'exporter', 'mysql.sql'), encoding='utf-8') as h:
        return h.read()


def tables():
    if not _SCHEMA:
        _SCHEMA['t'] = S.parse_schema(schema_text())
    return _SCHEMA['t']


def dt(s):
    return datetime.datetime.strptime(s, FMT)


def make_record(models, spec):
    """spec: when, r, span, kind, set -> (record object of the code under test, independent reference record)"""
    rng = random.Random('rec/%s' % spec['r'])
    when = dt(spec['when'])
    if spec.get('kind') == 'wlk':
        past = when.hour * 60 + when.minute
        day = when
        if past == 0 and spec.get('late'):
            past, day = 1440, when - datetime.timedelta(days=1)
        raw = R.wlk_random(rng, spec['span'], past)
        raw.update(spec.get('set') or {})
        rec = models.ArchiveIntervalRecord.load_from_wlk(io.BytesIO(R.wlk_encode(raw, rng)), day.year, day.month, day.day)
        ref = R.wlk_decode(raw, day.year, day.month, day.day)
    else:
        raw = R.download_random(rng, spec.get('tame', False))
        raw.update(spec.get('set') or {})
        rec = models.ArchiveIntervalRecord.load_from_download(io.BytesIO(R.download_encode(when, raw, rng)), spec['span'])
        ref = R.download_decode(when, raw, spec['span'])
    return rec, ref


class Env(object):
    """One simulated database server and its clients."""

    def __init__(self, plan, sched, table_list=None):
        self.plan = plan
        self.w = World(plan, sched)
        self.k = self.w.k
        d = plan['db']
        self.cfg = {'tables': table_list or tables(), 'user': d['user'], 'password': d['password'],
                    'database': d['database'], 'plugin': d['plugin'], 'delay': d['delay'],
                    'lock_timeout': d.get('lock_timeout', 50.0), 'idle': d.get('idle'), 'idle_error': d.get('idle_error')}
        self.db = MySQL(self.w, self.cfg, plan['faults'], port=d.get('port', 3306))
        self.eng = self.db.engine
        self.clients = []
        self.shape = []
        self.monitors = []
        self.eng.on_commit = self._on_commit
        self.broken = None
        self.calm = False

    def _on_commit(self, rec):
        if self.broken is None:
            for m in self.monitors:
                r = m(rec)
                if r is not None:
                    self.broken = r
                    self.k.violation(*r)
                    return

    def fail(self, kind, detail):
        if not self.k.violations:
            self.k.violation(kind, detail)
        raise Abort()

    def check_broken(self):
        if self.k.violations:
            raise Abort()

    def rowdict(self, table, row):
        return {c.lname: v for c, v in zip(self.eng.tables[table].columns, row)}

    def rows(self, table, state=None):
        return self.eng.rows(table, self.eng.state if state is None else state)

    def insert(self, table, rows):
        """Rows that are in the database for some other reason (committed atomically)."""
        s = self.eng.open()
        for r in rows:
            cols = [c for c in r if r[c] is not None]
            self.eng.execute(s, 'INSERT INTO %s (%s) VALUES (%s)' % (table, ', '.join(cols),
                                                                     ', '.join(literal(r[c]) for c in cols)))
        self.eng.commit(s)
        self.eng.close(s)

    def client(self, name):
        c = Client(self, name)
        self.clients.append(c)
        return c

    def crash_server(self, down):
        if not self.calm:
            self.db.crash(down)

    def quiet(self):
        """Faults cease; the server is up; the network settles."""
        w, k = self.w, self.k
        self.calm = True
        self.db.clear_faults()
        self.cfg.update(idle=None)
        w.net.conn_faults.clear()
        w.net.connect_faults.clear()
        w.net.dns_faults.clear()
        for c in w.net.conns:
            for f in c.faults:
                f['_done'] = True
        for c in self.clients:
            k.disarm_crash(c.proc)
        k.calm()
        k.wait(lambda: self.db.up, k.now + 4000.0, 'server')
        if not self.db.up:
            raise RuntimeError('server still down')

    def run_scripts(self, scripts):
        """scripts: list of callables, run concurrently as harness tasks."""
        if len(scripts) == 1:
            scripts[0]()
            return
        ts = [self.k.spawn(self.w.harness, 'script%d' % i, s) for i, s in enumerate(scripts)]
        self.k.wait(lambda: all(t.done for t in ts), None, 'scripts')
        for t in ts:
            if t.exc is not None:
                raise t.exc
        self.check_broken()

    def run(self, driver):
        self.w.run(driver)
        return self.k, {'shape': self.shape}


def literal(v):
    if v is None:
        return 'NULL'
    if isinstance(v, (datetime.datetime, datetime.date, str)):
        return "'%s'" % v
    return str(v)


class Client(object):
    """A station program using one exporter (a process that may crash and be started again)."""

    def __init__(self, env, name):
        self.env = env
        self.name = name
        self.boots = 0
        self.boot()

    def boot(self):
        e = self.env
        self.boots += 1
        self.proc = e.w.process('%s%d' % (self.name, self.boots))
        self.mod = e.w.module(self.proc, 'weatherlink.exporter.mysql')
        self.models = e.w.module(self.proc, 'weatherlink.models')
        self.first_conn = len(e.w.net.conns)
        self.connected = False
        self.make()

    def make(self):
        d = self.env.plan['db']
        z = self.env.plan.get('zone')

        def build():
            if d.get('port', 3306) != 3306:
                x = self.mod.MySQLExporter(d['user'], d['password'], d['database'], 'db', d['port'])
            else:
                x = self.mod.MySQLExporter(d['user'], d['password'], d['database'], host='db')
            if z:
                how = self.env.plan.get('zone_as', 'name')
                if how == 'pytz':
                    import pytz
                    x.station_time_zone = pytz.timezone(z)
                elif how == 'zoneinfo':
                    import zoneinfo
                    x.station_time_zone = zoneinfo.ZoneInfo(z)
                else:
                    x.station_time_zone = z
            t = self.env.plan.get('table')
            if t:
                if t['name']:
                    x.archive_table_name = t['name']
                if t['map'] is not None:
                    x.archive_table_column_map = real_map(t, self.mod.COLUMN_MAP_DO_NOT_INSERT)
            return x
        o = self.env.w.call(self.proc, build)
        if o.crashed:
            return self.boot()
        if not o.ok:
            self.env.fail('constructor-failed', o.describe())
        self.exp = o.value

    # -- state of the link
    def conns(self):
        return [c for c in self.env.w.net.conns[self.first_conn:] if c.proc is self.proc]

    def session(self):
        for s in self.env.db.sessions:
            if s.conn.proc is self.proc and s.conn.client_open and not s.conn.dead and s.es is not None:
                return s
        return None

    def alive(self):
        """Does the connection of the exporter still exist on both sides, with nothing lost?"""
        s = self.session()
        if s is None or not self.connected:
            return False
        c = s.conn
        return c is self.conns()[-1] and not c.rx_eof and c.client_err is None and not c.hole and s.open and \
            not c.server_closed and not c.drop_s2c and not c.server_closed_hard

    # -- operations
    def call(self, fn, name):
        """Run one operation.  Returns (outcome, causes that could explain a failure, error codes it met)."""
        e = self.env
        k = e.k
        if self.proc.dead:
            raise RuntimeError('process is dead')
        t0 = k.now
        mark = len(e.db.log)
        nd = len(e.db.down_at)
        ft = len(k.trace)
        up0 = e.db.up
        o = e.w.call(self.proc, fn, '%s/%s' % (self.proc.name, name))
        codes = []
        for t, n, sql, res in e.db.log[mark:]:
            if isinstance(res, str) and res.startswith('error') and e.db.conn_of[n].proc is self.proc:
                codes.append(int(res.split()[1]))
        causes = [f[1] for c in self.conns() for f in c.fired]
        if not up0 or len(e.db.down_at) > nd:
            causes.append('server_down')
        causes += [x[2] for x in k.trace[ft:] if len(x) > 2 and x[1] == 'FAULT' and
                   (x[2].startswith('connect_') or x[2] == 'dns')]
        return o, causes, codes

    def connect(self, how='same'):
        """Returns the outcome; how: same (disconnect first), over (without disconnecting), fresh (new exporter)."""
        self.connected = False
        if self.proc.dead:
            self.boot()
        if how == 'fresh':
            self.env.w.call(self.proc, self._quietly_disconnect)
            if self.proc.dead:
                self.boot()
            else:
                self.make()
        first = len(self.env.w.net.conns)

        def f():
            if how != 'over':
                self._quietly_disconnect()
            self.exp.connect()
        keep = self.first_conn
        self.first_conn = first
        o, causes, codes = self.call(f, 'connect')
        if o.crashed:
            self.env.shape.append('crash')
            return o
        if o.ok:
            self.connected = True
        else:
            self.first_conn = first if len(self.env.w.net.conns) > first else keep
            if not causes and not (set(codes) & SERVER_ERRORS):
                self.env.fail('connect-failed-without-cause', {'client': self.name, 'outcome': o.describe(), 'codes': codes})
        return o

    def _quietly_disconnect(self):
        try:
            self.exp.disconnect()
        except Exception:
            pass

    def ensure(self, tries=4):
        """Connected, or False when faults prevent it."""
        if self.proc.dead:
            self.boot()
        for i in range(tries):
            if self.connected:
                return True
            o = self.connect()
            if o.ok:
                return True
            if self.proc.dead:
                self.boot()
            self.env.k.sleep(7.0 * (i + 1))
        return False

    def pending(self):
        s = self.session()
        return s is not None and s.es.trx is not None and bool(s.es.trx.writes())


def swarm_db(rng):
    return {'user': rng.choice(['wx', 'weather', 'w x']), 'password': rng.choice(['pw', 's3cret', 'p\u00e4 %s\'"', '']),
            'database': rng.choice(['weather', 'station_1']),
            'plugin': rng.choice(['caching_sha2_password', 'mysql_native_password']),
            'delay': rng.choice([0.0005, 0.01, 0.3]), 'lock_timeout': rng.choice([50.0, 50.0, 3.0]),
            'port': rng.choice([3306, 3306, 3307])}


def db_faults(rng, plan, n, spans, conns=3, link=0.4, crash=0.15):
    """n faults: statement errors, kills and server crashes by statement category, link faults, failing connects."""
    for _ in range(n):
        r = rng.random()
        if r < link:
            plan['faults'].append({'at': 'conn', 'n': rng.randrange(conns), 'dir': rng.choice(['c2s', 's2c', 's2c']),
                                   'pos': rng.choice([rng.randrange(400), rng.randrange(1500), rng.randrange(6000),
                                                      rng.randrange(plan.get('bytes', 20000))]),
                                   'kind': rng.choice(['rst', 'rst', 'fin', 'stall', 'hole']),
                                   'secs': rng.choice([5.0, 90.0])})
        elif r < link + 0.08:
            plan['faults'].append({'at': 'connect', 'n': rng.randrange(conns),
                                   'kind': rng.choice(['refuse', 'timeout', 'unreachable'])})
        elif r < link + 0.1:
            plan['faults'].append({'at': 'dns', 'n': rng.randrange(conns)})
        else:
            cat = rng.choice(sorted(spans))
            kind = rng.choice(['error', 'error', 'error', 'kill', 'kill_fin', 'lost_reply', 'slow'])
            if rng.random() < crash:
                kind = rng.choice(['crash', 'crash_after'])
            f = {'at': 'sql', 'cat': cat, 'n': rng.randrange(spans[cat]), 'kind': kind}
            if kind == 'error':
                f['code'] = rng.choice(INJECT + ([1180, 1180] if cat == 'commit' else []))
            f['secs'] = rng.choice([2.0, 30.0])
            plan['faults'].append(f)


DERIVED = [a for a in dbref.KEYS if a not in dbref.SIMPLE and not a.startswith('summary_') and a != 'timestamp_utc']
SKIPPABLE = sorted(set(DERIVED) | {'temperature_inside', 'humidity_inside', 'rain_rate_clicks', 'uv_index', 'uv_index_high',
                                   'solar_radiation_high', 'evapotranspiration', 'wind_direction_speed_high', 'summary_year',
                                   'summary_month', 'summary_day', 'timestamp_utc', 'minutes_covered', 'wind_speed_high'})


def real_map(t, skip):
    return {a: skip if c is None else c for a, c in t['map'].items()}


def swarm_table(rng):
    """A table name and/or column map of the operator's own."""
    cm = None
    if rng.random() < 0.75:
        cm = {}
        for a, c in dbref.KEYS.items():
            r = rng.random()
            cm[a] = c if r < 0.6 else 'my_' + c
        if rng.random() < 0.5:      # columns may swap their roles
            a, b = rng.sample(sorted(DERIVED), 2)
            cm[a], cm[b] = cm[b], cm[a]
        for a in rng.sample(SKIPPABLE, rng.choice([0, 1, 4])):
            cm[a] = None
        for a in rng.sample(DERIVED, rng.choice([0, 1, 3])):
            cm.pop(a, None)
    return {'name': rng.choice([None, 'my_records', 'wx2']) if cm else 'my_records', 'map': cm}


def own_table(t):
    """(name of the table, all tables) for an operator's own table."""
    base = next(x for x in tables() if x.name == ARCH)
    back = {c: a for a, c in dbref.KEYS.items()}
    cols, keep = [], []
    cm = dbref.KEYS if t['map'] is None else t['map']
    for c in base.columns:
        new = c.lname
        if c.lname in back:
            new = cm.get(back[c.lname])
            if new is None:
                if c.notnull:
                    continue
                new = c.lname
                if new in cm.values():
                    continue
        cols.append(S.Column(new, c.type, c.notnull, c.default, c.has_default, c.auto))
        keep.append(c.lname)
    u = [(n, [keep.index(base.columns[p].lname) for p in ps]) for n, ps in base.uniques]
    own = S.Table(t['name'] or ARCH, cols, u)
    return own.name, [x for x in tables() if x.name != own.name] + [own]


class DBProp(Prop):
    real = REAL
    stub = STUB
    assumptions = ASSUME
    list_fields = ('ops', 'faults', 'recs')

    def base(self, seed):
        rng = random.Random(seed * 7919 + int(self.id[1:]))
        return rng, {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [],
                     'db': swarm_db(rng), 'zone': rng.choice(ZONES + [None]),
                     'zone_as': rng.choice(['name', 'pytz', 'zoneinfo'])}


# ---- C11 -------------------------------------------------------------------------------------------------
PHYSICAL = ['timestamp_weatherlink', 'timestamp_station', 'minutes_covered', 'summary_year', 'summary_month', 'summary_day',
            'temperature_outside', 'temperature_inside', 'humidity_outside', 'barometric_pressure', 'wind_speed',
            'rain_total', 'rain_clicks', 'solar_radiation']


class C11(DBProp):
    id = 'C11'
    quick_runs = 1500
    thorough_runs = 40000
    rule = ('1-2 station programs exporting 2-10 seeded records (some twice, some with equal timestamps, some with values no '
            'column can hold), with statement errors, killed connections, lost replies, link faults, failing connects, '
            'crashes of the program and of the server, idle time-outs, every way of reconnecting and with statements left normally and by errors; every commit and '
            'the state after every call are checked, then every record is exported again.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        base = datetime.datetime(rng.randint(2004, 2028), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 0)
        span = rng.choice([1, 5, 10, 30, 60])
        n = rng.randint(2, 8)
        recs = []
        for i in range(n):
            when = base + datetime.timedelta(minutes=span * (i + 1))
            if recs and rng.random() < 0.12:
                when = dt(recs[-1]['when'])
            s = {'r': rng.randrange(1 << 30), 'when': when.strftime(FMT), 'span': span, 'tame': rng.random() < 0.6,
                 'kind': rng.choice(['dl', 'dl', 'dl', 'wlk'])}
            if rng.random() < 0.1:
                s['kind'] = 'dl'
                s['set'] = {'temperature_inside': rng.choice([12345, -12000]), 'humidity_inside': 255}
            recs.append(s)
        plan['recs'] = recs
        clients = rng.choice([1, 1, 2])
        plan['clients'] = clients
        plan['concurrent'] = clients > 1 and rng.random() < 0.7
        plan['policy'] = rng.choice(['keep', 'keep', 'reconnect', 'fresh'])
        ops = plan['ops']
        for i in range(n + rng.randint(0, 5)):
            c = rng.randrange(clients)
            r = rng.random()
            if r < 0.08:
                ops.append({'c': c, 'op': 'reconnect', 'how': rng.choice(['same', 'over', 'fresh'])})
            elif r < 0.13:
                ops.append({'c': c, 'op': 'sleep', 'secs': rng.choice([1.0, 60.0, 2000.0])})
            elif r < 0.2:
                ops.append({'c': c, 'op': 'newest'})
            if rng.random() < 0.1:
                ops.append({'c': c, 'op': 'server_crash', 'after': rng.choice([0.0, 0.01, 0.2, 1.0]) * rng.random(),
                            'down': rng.choice([0.5, 20.0, 300.0])})
            if rng.random() < 0.12:
                ops.append({'c': c, 'op': 'crash', 'after': rng.choice([rng.randrange(40), rng.randrange(200)]),
                            'silent': rng.random() < 0.25})
            ops.append({'c': c, 'op': 'export', 'rec': i if i < n and rng.random() < 0.85 else rng.randrange(n)})
            if rng.random() < 0.12:
                # the exporter as a context manager
                ops[-1] = {'c': c, 'op': 'session', 'recs': [ops[-1]['rec']] * rng.choice([0, 1, 1, 1]) +
                           [rng.randrange(n) for _ in range(rng.choice([0, 0, 1]))], 'boom': rng.choice([None, None, 0, 1])}
        if rng.random() < 0.15:
            plan['db']['idle'] = rng.choice([30.0, 900.0])
            plan['db']['idle_error'] = rng.random() < 0.5
        plan['bytes'] = 4000 * n
        db_faults(rng, plan, rng.choice([0, 0, 1, 1, 2, 3]), {'insert': n + 2, 'commit': n + 2, 'any': 4 * n + 10}, clients + 1)
        return [plan]

    def execute(self, plan, sched):
        env = Env(plan, sched)
        k = env.k
        refs = {}           # timestamp -> list of acceptable contents
        expect = []
        stored = {}
        zone = plan['zone'] or 'America/Chicago'
        arch = env.eng.tables[ARCH]

        def monitor(rec):
            for rid, (old, new) in rec[2].get(ARCH, {}).items():
                if old is not None:
                    return 'stored-row-changed', {'was': repr(env.rowdict(ARCH, old)['timestamp_weatherlink']),
                                                  'deleted': new is None}
                row = env.rowdict(ARCH, new)
                key = row['timestamp_weatherlink']
                bad = [partial(want, row) for want in refs.get(key, [])]
                if not bad:
                    return 'unknown-row-stored', {'timestamp': key}
                if all(bad):
                    return 'partial-row-stored', {'timestamp': key, 'difference': min(bad, key=len)[:4]}
                stored[key] = row
            for t in rec[2]:
                if t != ARCH:
                    return 'other-table-changed', {'table': t}
        env.monitors.append(monitor)

        def partial(want, row):
            if want is None:
                return ['not storable']
            return ['%s: expected %r, got %r' % (c, want[c], row[c]) for c in PHYSICAL if not dbref.matches(want[c], row[c])]

        def export(cl, i, final=None):
            rec, ref = make_record(cl.models, plan['recs'][i]) if i is not None else make_record(cl.models, final)
            want = dbref.archive_row(ref, zone, arch)
            key = ref['timestamp']
            if i is None:
                refs.setdefault(key, []).append(want)
            before = key in stored
            o, causes, codes = cl.call(lambda: cl.exp.export_record(rec), 'export')
            env.check_broken()
            detail = {'client': cl.name, 'timestamp': key, 'outcome': o.describe(), 'codes': codes, 'causes': causes[:4]}
            env.shape.append([o.describe()[:24], sorted(set(codes))[:2], causes[:1]])
            if o.crashed:
                return o
            if o.ok:
                if before:
                    env.fail('stored-record-accepted-again', detail)
                if key not in stored:
                    env.fail('returned-but-not-committed', detail)
                if partial(want, stored[key]):
                    env.fail('returned-but-other-row-stored', dict(detail, difference=partial(want, stored[key])[:4]))
                k.probe('exported')
            else:
                if not isinstance(o.exc, Exception):
                    env.fail('wrong-error', detail)
                ok = bool(causes) or bool(set(codes) & SERVER_ERRORS) or (1062 in codes and key in stored) or \
                    (want is None and bool(set(codes) & DATA_ERRORS))
                if not ok:
                    env.fail('failed-without-cause', detail)
                if 1062 in codes:
                    k.probe('duplicate_rejected')
                if want is None:
                    k.probe('unstorable_rejected')
            if cl.pending():
                env.fail('change-left-pending', detail)
            return o

        def session(cl, op):
            """A with statement: it releases the connection and lets every error of its body through."""
            if cl.proc.dead:
                cl.boot()
            recs = [make_record(cl.models, plan['recs'][i]) for i in op['recs']]
            done = []
            boom = [None, RuntimeError('stop'), KeyError('stop')][0 if op['boom'] is None else op['boom'] + 1]
            raised = []

            def f():
                cl._quietly_disconnect()
                with cl.exp:
                    try:
                        for rec, ref in recs:
                            before = ref['timestamp'] in stored
                            cl.exp.export_record(rec)
                            done.append(ref)
                            if before:
                                env.fail('stored-record-accepted-again', {'client': cl.name, 'timestamp': ref['timestamp']})
                            if ref['timestamp'] not in stored:
                                env.fail('returned-but-not-committed', {'client': cl.name, 'timestamp': ref['timestamp']})
                        if boom is not None:
                            raise boom
                    except Exception as e:
                        raised.append(e)
                        raise
            cl.connected = False
            cl.first_conn = first = len(env.w.net.conns)
            o, causes, codes = cl.call(f, 'session')
            env.check_broken()
            detail = {'client': cl.name, 'outcome': o.describe(), 'raised': repr(raised[:1])[:80], 'codes': codes,
                      'causes': causes[:4]}
            env.shape.append(['session', o.describe()[:24], bool(raised)])
            if o.crashed:
                return
            if raised and o.exc is not raised[0]:
                env.fail('exception-lost', detail)
            if o.exc is not None and o.exc is not boom:
                if not isinstance(o.exc, Exception):
                    env.fail('wrong-error', detail)
                key, want = None, True
                if len(done) < len(recs) and raised:
                    key, want = recs[len(done)][1]['timestamp'], dbref.archive_row(recs[len(done)][1], zone, arch)
                if not (causes or set(codes) & SERVER_ERRORS or (1062 in codes and key in stored) or
                        (want is None and set(codes) & DATA_ERRORS)):
                    env.fail('failed-without-cause', detail)
            if any(c.proc is cl.proc and c.client_open for c in env.w.net.conns[first:]):
                env.fail('connection-left-open', detail)
            k.probe('sessions')

        def step(cl, op):
            if op['op'] == 'sleep':
                k.sleep(op['secs'])
                return
            if op['op'] == 'server_crash':
                k.after(op['after'], env.crash_server, op['down'])
                return
            if op['op'] == 'reconnect':
                cl.connect(op['how'])
                return
            if op['op'] == 'session':
                session(cl, op)
                return
            if not cl.ensure():
                return
            if op['op'] == 'crash':
                k.arm_crash(cl.proc, op['after'], op['silent'])
                return
            if op['op'] == 'newest':
                o, causes, codes = cl.call(lambda: cl.exp.get_newest_timestamp(), 'newest')
            else:
                o = export(cl, op['rec'])
            if o.crashed or cl.proc.dead:
                return
            if not o.ok and (plan['policy'] != 'keep' or not cl.alive()):
                cl.connect('fresh' if plan['policy'] == 'fresh' else 'same')

        def driver():
            models = None
            for i in range(plan['clients']):
                cl = env.client('station%d_' % i)
                models = cl.models
            for s in plan['recs']:
                _, ref = make_record(models, s)
                want = dbref.archive_row(ref, zone, arch)
                refs.setdefault(ref['timestamp'], []).append(want)
                expect.append((ref['timestamp'], want))
            if plan['concurrent']:
                def script(i):
                    def run():
                        for op in plan['ops']:
                            if op['c'] == i:
                                step(env.clients[i], op)
                    return run
                env.run_scripts([script(i) for i in range(plan['clients'])])
            else:
                for op in plan['ops']:
                    step(env.clients[op['c']], op)
            env.quiet()
            last = max(dt(s['when']) for s in plan['recs']) if plan['recs'] else datetime.datetime(2016, 1, 1)
            for j, cl in enumerate(env.clients):
                spec = {'r': 'final%d' % j, 'when': (last + datetime.timedelta(minutes=90 * (j + 1))).strftime(FMT), 'span': 30,
                        'tame': True}
                alive = not cl.proc.dead and cl.alive()
                if alive:
                    k.probe('kept_connection')
                else:
                    if cl.proc.dead:
                        cl.boot()
                    k.sleep(4000.0)
                    if not cl.connect().ok:
                        env.fail('cannot-reconnect', {'client': cl.name})
                o = export(cl, None, spec)
                if not o.ok:
                    if alive and (cl.session() is None or not cl.alive()):
                        pass
                    elif env.db.log and any(isinstance(x[3], str) and x[3] == 'error 1205' for x in env.db.log[-3:]):
                        pass
                    else:
                        env.fail('does-not-work-after-failure', {'client': cl.name, 'outcome': o.describe()})
                    k.sleep(4000.0)
                    if not cl.connect().ok or not (export(cl, None, spec).ok or dt(spec['when']) in [
                            r['timestamp_station'] for r in stored.values()]):
                        env.fail('does-not-work-after-failure', {'client': cl.name, 'second': True})
            k.sleep(4000.0)
            if env.eng.pending():
                env.fail('change-left-pending', {'sessions': len(env.eng.pending())})
            cl = env.clients[-1]
            for i, (key, want) in enumerate(expect):
                if not cl.alive():
                    if not cl.connect().ok:
                        env.fail('cannot-reconnect', {'client': cl.name})
                there = key in stored
                o = export(cl, i)
                if not o.ok and not there and want is not None:
                    env.fail('re-export-failed', {'timestamp': key, 'outcome': o.describe()})
            rows = env.rows(ARCH)
            keys = [r['timestamp_weatherlink'] for r in rows]
            storable = {key for key, want in expect if want is not None}
            if len(set(keys)) != len(keys):
                env.fail('record-stored-twice', {})
            if not storable <= set(keys):
                env.fail('record-missing', {'missing': len(storable - set(keys))})
        return env.run(driver)


# ---- C12 -------------------------------------------------------------------------------------------------
class C12(DBProp):
    id = 'C12'
    quick_runs = 1500
    thorough_runs = 40000
    rule = ('1-3 station programs in turn exporting 2-10 seeded records of either source (absent and zero values, times '
            'around daylight-saving transitions) in one of 9 time zones given by name, as a pytz or a zoneinfo zone, half '
            'of the runs with a table name and column map of their own; every committed row is compared, column by column, '
            'with an independent decoding, UTC conversion and recomputation of the derived values, and every newest '
            'timestamp with the stored ones.')
    list_fields = ('ops', 'faults', 'recs')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        zone = plan['zone'] or 'America/Chicago'
        span = rng.choice([1, 5, 10, 15, 30, 60, 120])
        n = rng.randint(2, 10)
        if rng.random() < 0.6 and transitions(zone):
            base = rng.choice(transitions(zone)) - datetime.timedelta(minutes=rng.randint(0, 300))
        else:
            base = datetime.datetime(rng.randint(2001, 2036), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 0)
        base -= datetime.timedelta(minutes=base.minute % 5)
        recs = []
        for i in range(n):
            when = base + datetime.timedelta(minutes=span * (i + 1))
            if rng.random() < 0.1:
                when = (when + datetime.timedelta(days=1)).replace(hour=0, minute=0)
                base = when - datetime.timedelta(minutes=span * (i + 1))
            s = {'r': rng.randrange(1 << 30), 'when': when.strftime(FMT), 'span': span, 'tame': rng.random() < 0.4,
                 'kind': rng.choice(['dl', 'dl', 'dl', 'wlk'])}
            if s['kind'] == 'wlk':
                s['late'] = True
            if rng.random() < 0.35:
                s['set'] = extremes(rng, s['kind'])
            recs.append(s)
        if rng.random() < 0.3:
            rng.shuffle(recs)
        plan['recs'] = recs
        plan['clients'] = rng.choice([1, 1, 2, 3])
        plan['table'] = swarm_table(rng) if rng.random() < 0.5 else None
        for i in range(n):
            c = rng.randrange(plan['clients'])
            if rng.random() < 0.3:
                plan['ops'].append({'c': rng.randrange(plan['clients']), 'op': 'newest'})
            if rng.random() < 0.06:
                plan['ops'].append({'c': c, 'op': 'reconnect', 'how': rng.choice(['same', 'over', 'fresh'])})
            plan['ops'].append({'c': c, 'op': 'export', 'rec': i})
        plan['ops'].append({'c': rng.randrange(plan['clients']), 'op': 'newest'})
        plan['bytes'] = 4000 * n
        db_faults(rng, plan, rng.choice([0, 0, 0, 1]), {'insert': n, 'commit': n, 'any': 4 * n + 10}, plan['clients'] + 1)
        return [plan]

    def execute(self, plan, sched):
        t = plan.get('table')
        name, tl = own_table(t) if t else (ARCH, None)
        env = Env(plan, sched, tl)
        k = env.k
        zone = plan['zone'] or 'America/Chicago'
        tab = env.eng.tables[name]
        cm = dict(dbref.KEYS)
        if t and t['map'] is not None:
            cm = real_map({'map': {a: t['map'].get(a) for a in dbref.KEYS}}, '-')
        key_col = cm['timestamp']
        wants = {}
        stored = set()

        def monitor(rec):
            for tn, ch in rec[2].items():
                if tn != name:
                    return 'other-table-changed', {'table': tn}
                for rid, (old, new) in ch.items():
                    if old is not None:
                        return 'stored-row-changed', {'deleted': new is None}
                    row = env.rowdict(name, new)
                    want = wants.get(row[key_col])
                    if want is None:
                        return 'unknown-row-stored', {'timestamp': row[key_col]}
                    d = dbref.row_diff(want, row)
                    if d:
                        return 'wrong-row-stored', {'timestamp': row[key_col], 'zone': zone, 'difference': d[:4]}
                    stored.add(row[key_col])
        env.monitors.append(monitor)

        def step(cl, op):
            if op['op'] == 'reconnect':
                cl.connect(op['how'])
                return
            if not cl.ensure():
                return
            if op['op'] == 'newest':
                o, causes, codes = cl.call(lambda: cl.exp.get_newest_timestamp(), 'newest')
                detail = {'outcome': o.describe(), 'codes': codes, 'causes': causes[:3], 'greatest': max(stored) if stored else None}
                if o.ok and o.value != (max(stored) if stored else None):
                    env.fail('wrong-newest-timestamp', detail)
                want = object()
            else:
                rec, ref = make_record(cl.models, plan['recs'][op['rec']])
                want = dbref.archive_row(ref, zone, tab, cm, '-')
                wants[ref['timestamp']] = want
                o, causes, codes = cl.call(lambda: cl.exp.export_record(rec), 'export')
                env.check_broken()
                detail = {'timestamp': ref['timestamp'], 'outcome': o.describe(), 'codes': codes, 'causes': causes[:3]}
                if o.ok and ref['timestamp'] not in stored:
                    env.fail('returned-but-not-stored', detail)
                if o.ok:
                    k.probe('stored')
                if t:
                    k.probe('own_table')
            env.shape.append(o.describe()[:24])
            if o.crashed:
                return
            if not o.ok:
                ok = bool(causes) or bool(set(codes) & SERVER_ERRORS) or (want is None and bool(set(codes) & DATA_ERRORS)) or \
                    1062 in codes
                if not ok:
                    env.fail('failed-without-cause', detail)
                if not cl.alive():
                    cl.connected = False

        def driver():
            for i in range(plan['clients']):
                env.client('station%d_' % i)
            for op in plan['ops']:
                step(env.clients[op['c']], op)
        return env.run(driver)


def extremes(rng, kind):
    """Raw values at the edges: zeros, absent sensors, hot, cold, calm, saturated."""
    out = {}
    none = {'dl': {'temperature_outside': 32767, 'temperature_outside_high': -32768, 'temperature_outside_low': 32767,
                   'temperature_inside': 32767, 'humidity_outside': 255, 'humidity_inside': 255, 'barometric_pressure': 0,
                   'wind_speed': 255, 'solar_radiation': 32767},
            'wlk': {'temperature_outside': 32767, 'temperature_outside_high': -32768, 'temperature_outside_low': 32767,
                    'temperature_inside': 32767, 'wind_speed': 255}}[kind]
    mul = 10 if kind == 'wlk' else 1
    r = rng.random()
    if r < 0.35:
        for a in rng.sample(['temperature_outside', 'temperature_outside_high', 'temperature_outside_low',
                             'temperature_inside'], rng.randint(1, 4)):
            out[a] = 0
    elif r < 0.55:
        for a in rng.sample(sorted(none), rng.randint(1, 3)):
            out[a] = none[a]
    elif r < 0.75:
        t = rng.randint(690, 1150)
        out.update(temperature_outside=t, temperature_outside_low=t - rng.choice([0, 5, 120]),
                   temperature_outside_high=t + rng.choice([0, 7, 60]), humidity_outside=rng.choice([1, 12, 45, 86, 100]) * mul)
    else:
        t = rng.randint(-400, 420)
        out.update(temperature_outside=t, temperature_outside_low=t - rng.choice([0, 5, 60]),
                   temperature_outside_high=t + rng.choice([0, 7, 90]))
        out['wind_speed'] = rng.choice([0, 1, 3, 40]) * mul
    if rng.random() < 0.3 and kind == 'dl':
        out['wind_speed'] = 0
        out['wind_speed_high'] = rng.choice([0, 9])
    if rng.random() < 0.2 and kind == 'dl':
        out['solar_radiation'] = 0
    return out


# ---- C13 -------------------------------------------------------------------------------------------------
DAY = datetime.timedelta(days=1)


def day(s):
    return datetime.datetime.strptime(s, '%Y-%m-%d')


def day_rows(op):
    """Archive rows of one batch: date, r (seed), n, span, at (first minute), style."""
    rng = random.Random('rows/%s' % op['r'])
    d = day(op['date'])
    arch = next(t for t in tables() if t.name == ARCH)
    missing = {c.lname for c in arch.columns if rng.random() < op.get('missing', 0.1)}
    out = []
    m = op['at']
    narrow = op.get('narrow', False)
    base = {}
    for i in range(op['n']):
        if m >= 1440:
            break
        when = d + m * MIN
        row = {'timestamp_weatherlink': R.timestamp(when), 'timestamp_station': when, 'timestamp_utc': when,
               'minutes_covered': op['span'] if rng.random() < 0.97 or not op.get('mixed') else rng.choice([1, 5, 30]),
               'summary_year': when.year, 'summary_month': when.month, 'summary_day': when.day}
        for c in arch.columns:
            n = c.lname
            if n in row or c.auto or n in missing or rng.random() < op.get('gaps', 0.05):
                continue
            ty = c.type
            if ty.kind == 'enum':
                row[n] = rng.choice(ty.values[:3] if narrow else ty.values)
                continue
            if n not in base:
                base[n] = rng.randint(-300, 900)
            if n.startswith(('temperature', 'dew', 'heat', 'wind_chill', 'thw', 'thsw')):
                v = rng.choice([-1, 0, 1, 2]) if narrow else base[n] + rng.randint(-150, 150)
                if rng.random() < op.get('zero', 0.05):
                    v = 0
                row[n] = dec(v, 1)
            elif n.startswith('humidity'):
                row[n] = rng.choice([0, 1, 2]) if narrow else rng.randint(0, 100)
            elif n == 'barometric_pressure':
                row[n] = dec(rng.randint(29900, 29903) if narrow else rng.randint(27000, 32000), 3)
            elif n in ('wind_speed', 'wind_speed_high'):
                row[n] = rng.choice([0, 0, 1, 2]) if narrow else rng.choice([0, rng.randint(0, 60)])
            elif n == 'wind_run_distance_total':
                row[n] = dec(rng.choice([0, rng.randint(0, 3000)]), 2)
            elif n == 'rain_total':
                row[n] = dec(rng.choice([0, 0, rng.randint(0, 300)]), 3)
            elif n == 'rain_rate_high':
                row[n] = dec(rng.choice([0, 0, rng.randint(0, 300)]), 2)
            elif n.startswith('uv'):
                row[n] = dec(rng.choice([0, rng.randint(0, 120)]), 1)
            elif n.startswith('solar'):
                row[n] = rng.choice([0, rng.randint(0, 1200)])
            elif n == 'evapotranspiration':
                row[n] = dec(rng.randint(0, 30), 3)
            else:
                row[n] = rng.randint(0, 40)
        out.append(row)
        m += op['span'] * (1 if rng.random() > op.get('skip', 0.0) else rng.randint(2, 9))
    return out


def dec(v, scale):
    return Decimal(v).scaleb(-scale)


def stale_rows(op):
    """Older summaries with other contents for one date."""
    rng = random.Random('stale/%s' % op['r'])
    d = day(op['date'])
    tab = next(t for t in tables() if t.name == SUMM)
    out = []
    for key in dbref.keys_of(d):
        if rng.random() < 0.3:
            continue
        row = dict(zip(('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day'), key))
        if key[0] == 'WEEKLY':
            row['week_start'] = datetime.date.fromisocalendar(key[1], key[3], 1)
            row['week_end'] = row['week_start'] + 6 * DAY
        for c in tab.columns:
            if c.lname in row or c.auto or c.lname.startswith('week_') or rng.random() < 0.15:
                continue
            if c.lname.startswith('wind_run_distance_') and c.lname.endswith('_average') and key[0] != 'YEARLY' and \
                    (key[0] == 'DAILY' or 'daily' not in c.lname):
                continue        # no summary of this kind ever has one
            k = c.type.kind
            row[c.lname] = (rng.choice(c.type.values) if k == 'enum' else d + rng.randint(0, 1439) * MIN if k == 'datetime' else
                            '%02d:%02d:00' % (rng.randint(0, 23), rng.randint(0, 59)) if k == 'time' else
                            dec(rng.randint(0, 9999), c.type.scale) if k == 'dec' else rng.randint(0, 255))
        out.append(row)
    return out


class SummaryProp(DBProp):
    def dates(self, rng):
        """A cluster of dates, preferably across a week, month or year boundary."""
        y = rng.randint(2003, 2030)
        c = rng.random()
        if c < 0.35:
            base = datetime.datetime(y, 12, 31)
        elif c < 0.6:
            base = datetime.datetime(y, rng.randint(1, 11) + 1, 1)
        else:
            base = datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28))
        out = [base + DAY * rng.randint(-8, 8) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.25:
            out.append(base + DAY * rng.choice([-365, -40, 40, 400]))
        return sorted(set(out))

    def batch_op(self, rng, d, mode):
        span = mode['span']
        return {'op': 'rows', 'date': d.strftime('%Y-%m-%d'), 'r': rng.randrange(1 << 30), 'span': span,
                'n': rng.choice([1, 2, 5, 12, mode['n']]), 'at': rng.choice([0, span, rng.randrange(1400)]),
                'missing': mode['missing'], 'narrow': mode['narrow'], 'gaps': mode['gaps'], 'mixed': mode['mixed'],
                'zero': mode['zero'], 'skip': rng.choice([0.0, 0.1])}

    def mode(self, rng):
        return {'span': rng.choice([1, 1, 5, 10, 30, 60]), 'n': rng.choice([20, 60, 140]), 'missing': rng.choice([0, 0.1, 0.5]),
                'narrow': rng.random() < 0.35, 'gaps': rng.choice([0, 0.05, 0.4]), 'mixed': rng.random() < 0.2,
                'zero': rng.choice([0, 0.05, 0.5])}

    def recalc_op(self, rng, dates):
        ds = [rng.choice(dates) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        if rng.random() < 0.3:
            ds = list(dates)
            rng.shuffle(ds)
        if rng.random() < 0.1:
            ds.append(ds[0] + DAY * rng.randint(-20, 20))
        return {'op': 'recalc', 'dates': [(d + MIN * rng.randrange(1440)).strftime(FMT) for d in ds],
                'as': rng.choice([None, None, None, 'now', 'date'])}


def recalc(cl, op):
    """Run one recalculation; returns what Client.call returns."""
    ds = [dt(x) for x in op['dates']]
    if op.get('as') == 'now':
        # what a clock says: with seconds and fractions of them
        ds = [d + datetime.timedelta(microseconds=1 + 7919 * 4999 * (i + 1) % 59999999) for i, d in enumerate(ds)]
    elif op.get('as') == 'date':
        ds = [d.date() for d in ds]
    form = op.get('form', 'list')

    def f():
        arg = ds if form == 'list' else tuple(ds) if form == 'tuple' else set(ds) if form == 'set' else (d for d in ds)
        return cl.exp.recalculate_summaries_for_dates(arg)
    return cl.call(f, 'recalc')


class C13(SummaryProp):
    id = 'C13'
    quick_runs = 900
    thorough_runs = 30000
    rule = ('1-2 station programs in turn; batches of stored records (1-140 per batch, intervals of 1-60 minutes, gaps, absent '
            'sensors, ties, zero and negative values) on clusters of dates across week, month and year boundaries, older '
            'summaries with other contents, and recalculations of seeded date lists in any order and multiplicity, some '
            'failing; after each one every summary the dates belong to is compared, column by column, with an independent '
            'computation from the stored records.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        dates = self.dates(rng)
        mode = self.mode(rng)
        plan['clients'] = rng.choice([1, 1, 2])
        ops = plan['ops']
        dense = rng.random() < 0.02
        if dense:
            # days with a record every minute or two
            dates = dates[:2]
            mode['span'] = rng.choice([1, 1, 2])
            for d in dates:
                ops.append(dict(self.batch_op(rng, d, mode), n=rng.choice([300, 500, 720, 1440]), at=0))
        for i in range(rng.randint(2, 9) if not dense else 0):
            r = rng.random()
            d = rng.choice(dates)
            if r < 0.55:
                ops.append(self.batch_op(rng, d, mode))
            elif r < 0.65:
                ops.append({'op': 'stale', 'date': d.strftime('%Y-%m-%d'), 'r': rng.randrange(1 << 30)})
            else:
                ops.append(dict(self.recalc_op(rng, dates), c=rng.randrange(plan['clients']),
                                form=rng.choice(['list', 'list', 'set', 'tuple', 'iter'])))
            if rng.random() < 0.1:
                ops.append({'op': 'newest', 'c': rng.randrange(plan['clients'])})
        last = {'op': 'recalc', 'c': rng.randrange(plan['clients']),
                'dates': [(d + MIN * rng.randrange(1440)).strftime(FMT) for d in dates],
                'as': rng.choice([None, None, None, 'now', 'date'])}
        rng.shuffle(last['dates'])
        ops.append(last)
        if rng.random() < 0.25:
            ops.append(dict(last, c=rng.randrange(plan['clients'])))
        plan['bytes'] = 40000
        db_faults(rng, plan, rng.choice([0, 0, 0, 1]), {'insert': 6, 'commit': 10, 'update': 20, 'select': 200, 'any': 300},
                  plan['clients'] + 1)
        return [plan]

    def execute(self, plan, sched):
        env = Env(plan, sched)
        k = env.k
        dirty = set()
        allowed = [None]

        def monitor(rec):
            for tn, ch in rec[2].items():
                if allowed[0] is None:
                    continue
                if tn != SUMM:
                    return 'other-table-changed', {'table': tn}
                for rid, (old, new) in ch.items():
                    key = dbref.key_of(env.rowdict(SUMM, new or old))
                    if key not in allowed[0]:
                        return 'other-summary-changed', {'key': key}
                    if new is None:
                        return 'summary-removed', {'key': key}
        env.monitors.append(monitor)

        def clean(key):
            ty, y, m, w, d = key
            for x in dirty:
                if (ty == 'WEEKLY' and x.isocalendar()[:2] == (y, w)) or (ty == 'MONTHLY' and (x.year, x.month) == (y, m)) or \
                        (ty == 'YEARLY' and y in (x.year, x.isocalendar()[0])):
                    return False
            return True

        def step(op):
            if op['op'] == 'rows':
                have = {r['timestamp_weatherlink'] for r in env.rows(ARCH)}
                rows = [r for r in day_rows(op) if r['timestamp_weatherlink'] not in have]
                if rows:
                    env.insert(ARCH, rows)
                    dirty.add(day(op['date']))
                return
            if op['op'] == 'stale':
                have = {dbref.key_of(r) for r in env.rows(SUMM)}
                rows = [r for r in stale_rows(op) if dbref.key_of(r) not in have]
                if rows:
                    env.insert(SUMM, rows)
                    dirty.add(day(op['date']))
                return
            cl = env.clients[op['c']]
            if not cl.ensure():
                return
            if op['op'] == 'newest':
                cl.call(lambda: cl.exp.get_newest_timestamp(), 'newest')
                if not cl.alive():
                    cl.connected = False
                return
            ds = [day(x[:10]) for x in op['dates']]
            keys = sorted({key for d in ds for key in dbref.keys_of(d)})
            allowed[0] = set(keys)
            o, causes, codes = recalc(cl, op)
            allowed[0] = None
            env.check_broken()
            env.shape.append([o.describe()[:24], len(ds), len(env.rows(ARCH))])
            detail = {'dates': op['dates'], 'outcome': o.describe(), 'codes': codes, 'causes': causes[:3]}
            if not o.ok:
                dirty.update(ds)
                if not o.crashed and not causes and not (set(codes) & SERVER_ERRORS):
                    env.fail('failed-without-cause', detail)
                if not cl.alive():
                    cl.connected = False
                return
            dirty.difference_update(ds)
            k.probe('recalculated')
            s = dbref.Summaries(env.eng, env.eng.state)
            for key in keys:
                found = s.find(key)
                if len(found) != 1:
                    env.fail('summary-not-stored-once', dict(detail, key=key, found=len(found)))
                if clean(key):
                    d = s.diff(key, found[0])
                    if d:
                        env.fail('wrong-summary', dict(detail, key=key, difference=d[:4]))
                    k.probe('judged_' + key[0].lower())

        def driver():
            for i in range(plan['clients']):
                env.client('station%d_' % i)
            for op in plan['ops']:
                step(op)
        return env.run(driver)


# ---- C14 -------------------------------------------------------------------------------------------------
class C14(SummaryProp):
    id = 'C14'
    quick_runs = 900
    thorough_runs = 30000
    rule = ('1-3 station programs running seeded exports, recalculations and look-ups of 1-6 dates concurrently or in turn, '
            'on surviving, reconnected and new exporters, with statement errors, lock waits, deadlocks, kills, lost replies, '
            'link faults, crashes of programs and of the server; every summary row is compared at the instant it is '
            'committed with the complete results for every state of the database since the operation began, and after the '
            'faults every summary is recalculated and compared.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        dates = self.dates(rng)[:rng.choice([1, 2, 3])]
        mode = self.mode(rng)
        mode['n'] = 20
        plan['clients'] = rng.choice([1, 2, 2, 3])
        plan['concurrent'] = plan['clients'] > 1 and rng.random() < 0.8
        plan['policy'] = rng.choice(['keep', 'keep', 'keep', 'fresh'])
        ops = plan['ops']
        n = rng.randint(4, 9) if plan['clients'] == 1 else rng.randint(5, 12)
        for d in dates:
            if rng.random() < 0.8:
                ops.append(dict(self.batch_op(rng, d, mode), c=0))
        for i in range(n):
            c = rng.randrange(plan['clients'])
            r = rng.random()
            d = rng.choice(dates)
            if r < 0.2:
                ops.append(dict(self.batch_op(rng, d, mode), c=c))
            elif r < 0.4:
                ops.append({'op': 'export', 'c': c, 'rec': {'r': rng.randrange(1 << 30), 'span': mode['span'], 'tame': True,
                                                            'kind': 'dl', 'when': (d + MIN * rng.randrange(1440)).strftime(FMT)}})
            elif r < 0.5:
                ops.append({'op': 'newest', 'c': c})
            elif r < 0.6:
                ops.append({'op': 'sleep', 'c': c, 'secs': rng.choice([0.1, 1.0, 60.0])})
            else:
                op = self.recalc_op(rng, dates)
                op['dates'] = op['dates'][:3]
                ops.append(dict(op, c=c))
            if rng.random() < 0.06:
                ops.append({'op': 'crash', 'c': c, 'after': rng.choice([rng.randrange(100), rng.randrange(1200)]),
                            'silent': rng.random() < 0.25})
            if rng.random() < 0.05:
                ops.append({'op': 'server_crash', 'c': c, 'after': rng.choice([0.1, 2.0, 10.0]) * rng.random(),
                            'down': rng.choice([0.5, 20.0])})
        plan['bytes'] = 60000
        if rng.random() < 0.1:
            plan['db']['idle'] = 30.0
        db_faults(rng, plan, rng.choice([0, 1, 1, 2, 3]),
                  {'insert': 10, 'commit': 12, 'update': 30, 'select': 300, 'any': 400}, plan['clients'] + 1, link=0.25)
        return [plan]

    def execute(self, plan, sched):
        env = Env(plan, sched)
        k = env.k
        began = {}          # engine session -> state number when its operation began
        kinds = {}          # engine session -> what it is doing

        def monitor(rec):
            seq, sid, changes, first, snap = rec
            if sid not in began:
                return
            for tn, ch in changes.items():
                if tn == ARCH:
                    if kinds[sid] != 'export':
                        return 'other-table-changed', {'table': tn, 'by': kinds[sid]}
                    if len(ch) != 1 or SUMM in changes:
                        return 'leftovers-committed', {'tables': sorted(changes)}
                elif tn != SUMM or kinds[sid] != 'recalc':
                    return 'leftovers-committed', {'table': tn, 'by': kinds[sid]}
                else:
                    for rid, (old, new) in ch.items():
                        if new is None:
                            return 'summary-removed', {'key': dbref.key_of(env.rowdict(SUMM, old))}
                        row = env.rowdict(SUMM, new)
                        key = dbref.key_of(row)
                        lo = began[sid]
                        todo = list(range(lo, seq))
                        if snap in todo:
                            todo.remove(snap)
                            todo.insert(0, snap)
                        best = None
                        for q in todo:
                            d = dbref.Summaries(env.eng, env.eng.history[q][1]).diff(key, row, True)
                            if not d:
                                break
                            if best is None or len(d) < len(best):
                                best = d
                        else:
                            return 'no-complete-result', {'key': key, 'states': len(todo), 'read': snap - lo,
                                                          'difference': best[:4]}
                        k.probe('summary_committed')
        env.monitors.append(monitor)

        def stored(lo, op):
            """A recalculation that returned has stored what it was asked for: at some moment since it began, each of its
            summaries was a complete result for a state since it began (others may have replaced it meanwhile)."""
            for key in sorted({key for x in op['dates'] for key in dbref.keys_of(dt(x))}):
                seen = []
                best = None
                for at in range(env.eng.seq, lo - 1, -1):
                    found = dbref.Summaries(env.eng, env.eng.history[at][1]).find(key)
                    if not found or found[0] in seen:
                        continue
                    seen.append(found[0])
                    for q in range(env.eng.seq, lo - 1, -1):
                        d = dbref.Summaries(env.eng, env.eng.history[q][1]).diff(key, found[0], True)
                        if not d:
                            break
                        if best is None or len(d) < len(best):
                            best = d
                    else:
                        continue
                    break
                else:
                    env.fail('returned-without-result', {'key': key, 'versions': len(seen),
                                                         'difference': (best or ['not stored'])[:4]})

        def run(cl, op):
            s = cl.session()
            if s is not None:
                began[s.es.id] = env.eng.seq
                kinds[s.es.id] = op['op']
            lo = env.eng.seq
            if op['op'] == 'recalc':
                o, causes, codes = recalc(cl, op)
                if o.ok:
                    env.check_broken()
                    stored(lo, op)
            elif op['op'] == 'export':
                rec, _ = make_record(cl.models, op['rec'])
                o, causes, codes = cl.call(lambda: cl.exp.export_record(rec), 'export')
            else:
                o, causes, codes = cl.call(lambda: cl.exp.get_newest_timestamp(), 'newest')
            env.check_broken()
            env.shape.append([op['op'], o.describe()[:20], sorted(set(codes))[:2], causes[:1]])
            if o.crashed:
                return o
            if not o.ok:
                detail = {'client': cl.name, 'op': op['op'], 'outcome': o.describe(), 'codes': codes, 'causes': causes[:3]}
                if not causes and not (set(codes) & (SERVER_ERRORS | {1062})):
                    env.fail('failed-without-cause', detail)
                if not isinstance(o.exc, Exception):
                    env.fail('wrong-error', detail)
                if cl.pending():
                    env.fail('change-left-pending', detail)
            elif cl.pending():
                env.fail('change-left-pending', {'client': cl.name, 'op': op['op'], 'outcome': 'ok'})
            return o

        def step(cl, op):
            if op['op'] == 'sleep':
                k.sleep(op['secs'])
                return
            if op['op'] == 'server_crash':
                k.after(op['after'], env.crash_server, op['down'])
                return
            if op['op'] == 'rows':
                have = {r['timestamp_weatherlink'] for r in env.rows(ARCH)}
                rows = [r for r in day_rows(op) if r['timestamp_weatherlink'] not in have]
                if rows:
                    env.insert(ARCH, rows)
                return
            if not cl.ensure():
                return
            if op['op'] == 'crash':
                k.arm_crash(cl.proc, op['after'], op['silent'])
                return
            o = run(cl, op)
            if not (o.crashed or cl.proc.dead) and not o.ok and (plan['policy'] == 'fresh' or not cl.alive()):
                cl.connect('fresh' if plan['policy'] == 'fresh' else 'same')

        def driver():
            for i in range(plan['clients']):
                env.client('station%d_' % i)
            if plan['concurrent']:
                def script(i):
                    def go():
                        for op in plan['ops']:
                            if op['c'] == i:
                                step(env.clients[i], op)
                    return go
                env.run_scripts([script(i) for i in range(plan['clients'])])
            else:
                for op in plan['ops']:
                    step(env.clients[op['c']], op)
            env.quiet()
            days = sorted({r['timestamp_station'].replace(hour=0, minute=0) for r in env.rows(ARCH)} |
                          {datetime.datetime(r['summary_year'], r['summary_month'], r['summary_day'])
                           for r in env.rows(SUMM) if r['summary_type'] == 'DAILY'})
            if not days:
                return
            again = {'op': 'recalc', 'dates': [d.strftime(FMT) for d in days]}
            for cl in env.clients:
                alive = not cl.proc.dead and cl.alive()
                if alive:
                    k.probe('kept_connection')
                else:
                    if cl.proc.dead:
                        cl.boot()
                    k.sleep(4000.0)
                    if not cl.connect().ok:
                        env.fail('cannot-reconnect', {'client': cl.name})
                o = run(cl, again)
                if not o.ok and alive and (not cl.alive() or any(x[3] == 'error 1205' for x in env.db.log[-3:])):
                    k.sleep(4000.0)
                    cl.connect()
                    o = run(cl, again)
                if not o.ok:
                    env.fail('does-not-work-after-failure', {'client': cl.name, 'outcome': o.describe()})
                s = dbref.Summaries(env.eng, env.eng.state)
                for d in days:
                    for key in dbref.keys_of(d):
                        found = s.find(key)
                        if len(found) != 1:
                            env.fail('summary-not-stored-once', {'key': key, 'found': len(found)})
                        diff = s.diff(key, found[0])
                        if diff:
                            env.fail('wrong-summary', {'client': cl.name, 'key': key, 'difference': diff[:4]})
            k.probe('recovered')
        return env.run(driver)


# ---- C15 -------------------------------------------------------------------------------------------------
def rain_rows(op):
    """Archive rows of one stretch: start, span, r, segs: [wet|dry|gap, records or minutes]."""
    rng = random.Random('rain/%s' % op['r'])
    t = dt(op['start'])
    amounts = rng.choice([[10, 20, 30], [10], [1, 254, 999], [39]])
    rates = rng.choice([[0, 10, 24, 24], [10, 11, 12, 500], [7], [0, 100]])
    out = []
    for kind, n in op['segs']:
        if kind == 'gap':
            t += n * MIN
            continue
        for _ in range(n):
            t += op['span'] * MIN
            wet = kind == 'wet'
            out.append({'timestamp_weatherlink': R.timestamp(t), 'timestamp_station': t, 'timestamp_utc': t,
                        'minutes_covered': op['span'], 'summary_year': t.year, 'summary_month': t.month, 'summary_day': t.day,
                        'rain_total': dec(rng.choice(amounts) if wet else 0, 3),
                        'rain_rate_high': dec(rng.choice(rates) if wet else 0, 2)})
    return out, t


class C15(DBProp):
    id = 'C15'
    quick_runs = 1500
    thorough_runs = 50000
    rule = ('1-3 station programs; stretches of rain and dry records (intervals of 1-60 minutes, missing records, dry spells '
            'and gaps around three hours, periods of up to two days at one record a minute, up to hundreds of periods) stored in batches or exported '
            'one by one in order, with searches by different programs in turn in between or meanwhile, under statement '
            'errors, kills, lost replies, link faults, crashes of programs and of the server; every event row is compared '
            'at the instant it is committed and after every search that returns with an independent computation.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed)
        plan['clients'] = rng.choice([1, 2, 3])
        plan['concurrent'] = rng.random() < 0.4
        plan['policy'] = rng.choice(['keep', 'keep', 'keep', 'fresh'])
        span = rng.choice([1, 5, 5, 10, 15, 30, 60])
        long = rng.random() < 0.06
        if long:
            span = 1
        many = not long and rng.random() < 0.03
        if many:
            span = rng.choice([30, 60])
        t = datetime.datetime(rng.randint(2004, 2028), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 0)
        ops = plan['ops']
        three = 180 // span

        def segs():
            out = []
            for _ in range(rng.choice([1, 2, 4, 8])):
                r = rng.random()
                if r < 0.45:
                    out.append(['wet', rng.choice([1, 1, 2, 3, 12])])
                elif r < 0.75:
                    out.append(['dry', rng.choice([1, 2, three - 1, three, three + 1, max(1, three // 2), 2 * three])])
                else:
                    out.append(['gap', rng.choice([span, 180 - 2 * span, 180 - span, 180, 180 + span, 400, 3000, 1])])
            return [[a, max(b, 0)] for a, b in out]

        def long_segs():
            out, n = [], 0
            while n < rng.choice([1400, 1500, 3000]):
                a, b = rng.randint(1, 40), rng.randint(1, 178)
                out += [['wet', a], ['dry', b]]
                n += a + b
            return out

        def many_segs():
            out = []
            for _ in range(rng.choice([30, 60, 130])):
                out += [['wet', rng.choice([1, 1, 2])], rng.choice([['dry', three + 1], ['gap', 400], ['gap', 180 + span]])]
            return out
        for i in range(rng.randint(4, 12)):
            r = rng.random()
            if r < 0.4:
                sg = long_segs() if long and rng.random() < 0.4 else many_segs() if many and rng.random() < 0.4 else segs()
                op = {'op': 'rows', 'c': -1, 'start': t.strftime(FMT), 'span': span, 'r': rng.randrange(1 << 30), 'segs': sg}
                t = rain_rows(op)[1]
                ops.append(op)
            elif r < 0.55:
                t += rng.choice([span, span, 180, 180 + span, 175]) * MIN
                ops.append({'op': 'export', 'c': -1, 'rec': {
                    'r': rng.randrange(1 << 30), 'span': span, 'tame': True, 'kind': 'dl', 'when': t.strftime(FMT),
                    'set': rng.choice([{'rain_amount': 0, 'rain_rate': 0}, {'rain_amount': 3}, {}])}})
            else:
                ops.append({'op': 'search', 'c': rng.randrange(plan['clients'])})
            c = ops[-1]['c']
            if rng.random() < 0.1:
                ops.append({'op': 'newest', 'c': rng.randrange(plan['clients'])})
            if rng.random() < 0.1:
                ops.insert(-1, {'op': 'sleep', 'c': c, 'secs': rng.choice([0.1, 1.0, 60.0])})
            if rng.random() < 0.1:
                ops.insert(-1, {'op': 'crash', 'c': c, 'after': rng.choice([rng.randrange(40), rng.randrange(300)]),
                                'silent': rng.random() < 0.25})
            if rng.random() < 0.06:
                ops.insert(-1, {'op': 'server_crash', 'c': c, 'after': rng.choice([0.1, 2.0, 10.0]) * rng.random(),
                                'down': rng.choice([0.5, 20.0])})
        plan['bytes'] = 15000
        if rng.random() < 0.1:
            plan['db']['idle'] = 30.0
        db_faults(rng, plan, rng.choice([0, 0, 1, 1, 2, 3]), {'insert': 8, 'commit': 8, 'select': 30, 'any': 50},
                  plan['clients'] + 1, link=0.3)
        return [plan]

    def execute(self, plan, sched):
        env = Env(plan, sched)
        k = env.k
        began = {}
        kinds = {}
        cache = {}

        def events(q):
            if q not in cache:
                cache[q] = dbref.rain_events(env.rows(ARCH, env.eng.history[q][1]))
            return cache[q]

        def monitor(rec):
            seq, sid, changes, first, snap = rec
            if sid not in began:
                return
            for tn, ch in changes.items():
                if tn == ARCH and kinds[sid] == 'export':
                    if len(ch) != 1 or len(changes) != 1:
                        return 'leftovers-committed', {'tables': sorted(changes)}
                    continue
                if tn != RAIN or kinds[sid] != 'search':
                    return 'leftovers-committed', {'table': tn, 'by': kinds[sid]}
                for rid, (old, new) in ch.items():
                    if new is None:
                        return 'event-removed', {'start': str(env.rowdict(RAIN, old)['timestamp_start'])}
                    row = env.rowdict(RAIN, new)
                    t = row['timestamp_start']
                    best = None
                    lo = began[sid]
                    for q in [snap] * (snap >= lo) + list(range(lo, seq)):
                        e = events(q)
                        d = dbref.rain_diff({t: e[t]} if t in e else {}, [row])
                        if not d:
                            break
                        if best is None or len(d) < len(best):
                            best = d
                    else:
                        return 'wrong-event-committed', {'start': str(t), 'difference': best[:3]}
                    k.probe('event_committed')
                    if row['timestamp_end'] is not None:
                        k.probe('event_completed')
        env.monitors.append(monitor)

        def table():
            return {r['timestamp_start']: r for r in env.rows(RAIN)}

        def search(cl):
            return cl.call(lambda: cl.exp.find_new_rain_events(), 'search')

        def run(cl, op):
            s = cl.session()
            lo = env.eng.seq
            if s is not None:
                began[s.es.id] = lo
                kinds[s.es.id] = op['op']
            if op['op'] == 'search':
                others = [x for x in env.db.sessions if x is not s and x.es is not None and x.es.trx is not None and
                          x.es.trx.writes()]
                before = table()
                o, causes, codes = search(cl)
            elif op['op'] == 'export':
                rec, _ = make_record(cl.models, op['rec'])
                o, causes, codes = cl.call(lambda: cl.exp.export_record(rec), 'export')
            else:
                o, causes, codes = cl.call(lambda: cl.exp.get_newest_timestamp(), 'newest')
            env.check_broken()
            env.shape.append([op['op'], o.describe()[:20], sorted(set(codes))[:2], causes[:1], len(env.rows(RAIN))])
            if o.crashed:
                return o
            detail = {'client': cl.name, 'op': op['op'], 'outcome': o.describe(), 'codes': codes, 'causes': causes[:3]}
            if cl.pending():
                env.fail('change-left-pending', detail)
            if not o.ok:
                if not causes and not (set(codes) & (SERVER_ERRORS | {1062})):
                    env.fail('failed-without-cause', detail)
                if not isinstance(o.exc, Exception):
                    env.fail('wrong-error', detail)
                return o
            if op['op'] == 'search':
                after = table()
                best = None
                for q in range(env.eng.seq, lo - 1, -1):
                    d = dbref.rain_diff(events(q), list(after.values()))
                    if not d:
                        break
                    if best is None or len(d) < len(best):
                        best = d
                else:
                    env.fail('wrong-events', dict(detail, difference=best[:3]))
                k.probe('searched')
                if len(before) < len(after):
                    k.probe('found_events')
                if not others:
                    done = [t for t in after if after[t]['timestamp_end'] is not None and
                            (t not in before or before[t]['timestamp_end'] is None)]
                    still = [t for t in after if after[t]['timestamp_end'] is None]
                    if tuple(o.value) != (len(done), len(still)):
                        env.fail('wrong-counts', dict(detail, completed=len(done), open=len(still)))
            return o

        def step(cl, op):
            if op['op'] == 'sleep':
                k.sleep(op['secs'])
                return
            if op['op'] == 'server_crash':
                k.after(op['after'], env.crash_server, op['down'])
                return
            if op['op'] == 'rows':
                rows = rain_rows(op)[0]
                if rows:
                    env.insert(ARCH, rows)
                return
            if not cl.ensure():
                return
            if op['op'] == 'crash':
                k.arm_crash(cl.proc, op['after'], op['silent'])
                return
            o = run(cl, op)
            if not (o.crashed or cl.proc.dead) and not o.ok and (plan['policy'] == 'fresh' or not cl.alive()):
                cl.connect('fresh' if plan['policy'] == 'fresh' else 'same')

        def driver():
            for i in range(plan['clients']):
                env.client('station%d_' % i)
            own = env.client('exporter_') if plan['concurrent'] else env.clients[0]

            def script(mine):
                def go():
                    for op in plan['ops']:
                        if (op['c'] < 0) == mine:
                            step(own if mine else env.clients[op['c']], op)
                return go
            if plan['concurrent']:
                env.run_scripts([script(True), script(False)])
            else:
                for op in plan['ops']:
                    step(own if op['c'] < 0 else env.clients[op['c']], op)
            env.quiet()
            for cl in env.clients:
                alive = not cl.proc.dead and cl.alive()
                if alive:
                    k.probe('kept_connection')
                else:
                    if cl.proc.dead:
                        cl.boot()
                    k.sleep(4000.0)
                    if not cl.connect().ok:
                        env.fail('cannot-reconnect', {'client': cl.name})
                o = run(cl, {'op': 'search'})
                if not o.ok and alive and (not cl.alive() or any(x[3] == 'error 1205' for x in env.db.log[-3:])):
                    k.sleep(4000.0)
                    cl.connect()
                    o = run(cl, {'op': 'search'})
                if not o.ok:
                    env.fail('does-not-work-after-failure', {'client': cl.name, 'outcome': o.describe()})
            k.probe('recovered')
        return env.run(driver)


PROPS = {'C11': C11(), 'C12': C12(), 'C13': C13(), 'C14': C14(), 'C15': C15()}
