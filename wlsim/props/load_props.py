"""C20: a station program that loads WeatherLink database files into the database."""
import datetime
import random

from .. import dbref
from ..runner import Prop, swarm_net, swarm_sched
from ..tz import ZONES, transitions
from .db_props import (ARCH, SUMM, RAIN, SERVER_ERRORS, DATA_ERRORS, FMT, Client, Env, REAL, STUB, ASSUME, db_faults,
                       make_record, own_table, real_map, swarm_db, swarm_table)
from .import_props import build

PATH = '/sim/station/%04d-%02d.wlk'


class Twin(Client):
    """A second exporter of the same program, with a table, column map and zone of its own."""

    def __init__(self, env, first):
        self.first = first
        Client.__init__(self, env, 'twin_')

    def boot(self):
        e = self.env
        self.boots += 1
        self.proc = self.first.proc
        self.mod = e.w.module(self.proc, 'weatherlink.exporter.mysql')
        self.models = e.w.module(self.proc, 'weatherlink.models')
        self.first_conn = len(e.w.net.conns)
        self.connected = False
        self.make()

    def make(self):
        keep = dict(self.env.plan)
        t = keep['twin']
        self.env.plan = dict(keep, zone=t['zone'], zone_as='name', table=t['table'])
        try:
            Client.make(self)
        finally:
            self.env.plan = keep


class C20(Prop):
    id = 'C20'
    quick_runs = 700
    thorough_runs = 25000
    real = sorted(set(REAL + ['weatherlink.importer', 'io.BufferedReader']))
    stub = sorted(set(STUB + ['file system (simulated below the buffering layer)']))
    assumptions = ASSUME + ['the program imports the files in order, exports their records in order and leaves out those the '
                            'database already has; the loop itself is part of the harness']
    list_fields = ('ops', 'faults')
    rule = ('A station program loading 1-3 monthly database files into the database in 1-5 rounds, on its own, beside another '
            'such program or beside a second exporter of the same program with its own table and time zone, from the newest '
            'stored record or skipping what the database refuses as stored already; files that grow, are cut short or '
            'damaged between rounds, records that were downloaded before, failing reads, statement errors, lost replies, '
            'link faults, crashes of the program and the server; at every commit the stored records are among those of the '
            'files, each once and correct, and at the end all of them with exact summaries and rain events.')

    def make(self, seed, index, tier):
        rng = random.Random(seed * 7919 + 20)
        zone = rng.choice(ZONES + [None])
        plan = {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [], 'files': [],
                'db': swarm_db(rng), 'zone': zone, 'zone_as': rng.choice(['name', 'pytz', 'zoneinfo']),
                'fs': {'short': rng.choice([None, None, 60, 1000]), 'delay': rng.choice([0, 0, 0.05])},
                'policy': rng.choice(['newest', 'skip']), 'keep': rng.random() < 0.7,
                'others': rng.choice([None, None, 'process', 'twin'])}
        year, month = rng.randint(2001, 2035), rng.choice([rng.randint(1, 12), 12])
        tr = transitions(zone or 'America/Chicago')
        change = rng.choice(tr) if tr and rng.random() < 0.4 else None
        if change:
            year, month = change.year, change.month
        span = rng.choice([1, 5, 10, 15, 30, 60, 60, 120])
        total = 0
        for i in range(rng.choice([1, 1, 2, 3])):
            last = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1]
            days = rng.sample(range(1, last + 1), rng.choice([1, 1, 2, 3]))
            if rng.random() < 0.4:
                days[0] = rng.choice([1, last])
            if rng.random() < 0.4 and days[0] < last:
                days.append(days[0] + 1)
            if change and i == 0:
                days.append(change.day)
            ds = []
            for d in sorted(set(days)):
                n = rng.choice([0, 1, 2, 3, min(8, 1440 // span), min(12, 1440 // span)])
                ds.append([d, n])
                total += n
            f = {'path': PATH % (year, month), 'year': year, 'month': month, 'seed': rng.randrange(1 << 30), 'span': span,
                 'first': rng.choice([span, 0, 1, max(0, 1440 - 3 * span)]), 'days': ds}
            plan['files'].append(f)
            month += 1
            if month > 12:
                year, month = year + 1, 1
        if plan['others'] == 'twin':
            t = swarm_table(rng)
            t['name'] = 'my_records'
            plan['twin'] = {'zone': rng.choice(ZONES), 'table': t}
        nf = len(plan['files'])
        n = rng.randint(1, 4)
        opens = 0
        for i in range(n):
            r = rng.random()
            if r < 0.2:
                plan['ops'].append({'op': 'truncate', 'file': rng.randrange(nf), 'frac': rng.random(),
                                    'edge': rng.choice([None, 0, 1, -1])})
            elif r < 0.3:
                plan['ops'].append({'op': 'mark', 'file': rng.randrange(nf), 'which': rng.randrange(1 << 20),
                                    'to': rng.choice([0, 1, 2, 3, 4])})
            elif r < 0.4:
                plan['ops'].append({'op': 'restore'})
            elif r < 0.65:
                plan['ops'].append({'op': 'grow', 'n': rng.randint(1, 4)})
            if plan['policy'] == 'skip' and rng.random() < 0.4:
                plan['ops'].append({'op': 'download', 'file': rng.randrange(nf), 'which': rng.randrange(1 << 20),
                                    'r': rng.randrange(1 << 30)})
            if plan['others'] != 'twin' and rng.random() < 0.25:
                plan['ops'].append({'op': 'crash', 'after': rng.choice([rng.randrange(60), rng.randrange(400),
                                                                        rng.randrange(2500)]), 'silent': rng.random() < 0.25})
            if rng.random() < 0.08:
                plan['ops'].append({'op': 'server_crash', 'after': rng.choice([0.1, 2.0, 20.0]) * rng.random(),
                                    'down': rng.choice([0.5, 20.0])})
            plan['ops'].append({'op': 'load', 'summaries': rng.random() < 0.4,
                                'rain': plan['policy'] == 'newest' and rng.random() < 0.4})
            opens += nf
        plan['bytes'] = 4000 * (total + 2)
        db_faults(rng, plan, rng.choice([0, 0, 1, 2]), {'insert': total + 2, 'commit': total + 4, 'any': 4 * total + 20}, 3,
                  link=0.4)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            plan['faults'].append({'at': 'fs', 'n': rng.randrange(opens), 'sticky': rng.random() < 0.5,
                                   'kind': rng.choice(['eio', 'eio', 'eio', 'enoent', 'eacces', 'emfile']),
                                   'pos': rng.choice([rng.randrange(300), rng.randrange(3000)])})
        return [plan]

    def execute(self, plan, sched):
        twin = plan.get('twin')
        tl = None
        if twin:
            twin_table, tl = own_table(twin['table'])
        env = Env(plan, sched, tl)
        k, w = env.k, env.w
        fs = w.fs
        zone = plan['zone'] or 'America/Chicago'
        tab = env.eng.tables[ARCH]
        newest = plan['policy'] == 'newest'
        files = []
        for spec in plan['files']:
            data, _, rec, marks = build(spec)
            fs.put(spec['path'], data)
            files.append({'spec': spec, 'data': data, 'rec': rec, 'marks': marks, 'extra': 0, 'why': None})
        refs = {}           # timestamp -> acceptable rows
        twin_refs = {}
        stored, twin_stored = {}, {}
        order = []          # storable timestamps of the files, ascending

        if twin:
            cm = dict(dbref.KEYS)
            if twin['table']['map'] is not None:
                cm = real_map({'map': {a: twin['table']['map'].get(a) for a in dbref.KEYS}}, '-')
            ttab = env.eng.tables[twin_table]
            tkey = cm['timestamp']

        def learn(ref):
            want = dbref.archive_row(ref, zone, tab)
            refs.setdefault(ref['timestamp'], []).append(want)
            if twin:
                twin_refs.setdefault(ref['timestamp'], []).append(dbref.archive_row(ref, twin['zone'], ttab, cm, '-'))
            return want

        def publish(f):
            f['data'], _, f['rec'], f['marks'] = build(f['spec'], f['extra'])
            f['why'] = None
            fs.put(f['spec']['path'], f['data'])
            relearn()

        def relearn():
            refs.clear()
            twin_refs.clear()
            for f in files:
                for _, ref in f['rec']:
                    learn(ref)
            for spec in downloads:
                learn(spec)
            order[:] = sorted(t for t, ws in refs.items() if any(x is not None for x in ws))
        downloads = []
        relearn()

        def row_in(table, key, refs_, stored_, tn):
            def check(ch):
                for rid, (old, new) in ch.items():
                    if old is not None:
                        return 'stored-record-changed', {'table': tn, 'deleted': new is None}
                    row = env.rowdict(tn, new)
                    t = row[key]
                    wants = [x for x in refs_.get(t, ()) if x is not None]
                    if not wants:
                        return 'unknown-record-stored', {'table': tn, 'timestamp': t}
                    ds = [dbref.row_diff(x, row) for x in wants]
                    if all(ds):
                        return 'wrong-record-stored', {'table': tn, 'timestamp': t, 'difference': min(ds, key=len)[:4]}
                    stored_[t] = row
                    if newest and tn == ARCH and any(x not in stored for x in order if x < t):
                        return 'record-skipped', {'stored': t}
                    k.probe('stored')
            return check
        check_arch = row_in(tab, 'timestamp_weatherlink', refs, stored, ARCH)
        check_twin = row_in(ttab, tkey, twin_refs, twin_stored, twin_table) if twin else None

        def monitor(rec):
            for tn, ch in rec[2].items():
                r = None
                if tn == ARCH:
                    r = check_arch(ch)
                elif twin and tn == twin_table:
                    r = check_twin(ch)
                elif tn not in (SUMM, RAIN):
                    r = ('other-table-changed', {'table': tn})
                if r:
                    return r
        env.monitors.append(monitor)

        def run(cl, what, fn, why=()):
            mark = len(fs.handles)
            n0 = fs.opens
            o, causes, codes = cl.call(fn, what)
            env.check_broken()
            hurt = [x['kind'] for h in fs.handles[mark:] for x in h.hit] + \
                [x['kind'] for n in range(n0, fs.opens) for x in fs.open_faults.get(n, ()) if x['kind'] != 'eio']
            env.shape.append([what, o.describe()[:20], len(stored), sorted(set(codes))[:2], causes[:1], hurt[:1]])
            if o.crashed:
                return o
            detail = {'client': cl.name, 'what': what, 'outcome': o.describe(), 'codes': codes, 'causes': causes[:4],
                      'stored': len(stored), 'files': hurt + list(why)}
            if not o.ok and not causes and not hurt and not why and not (set(codes) & SERVER_ERRORS):
                env.fail('failed-without-cause', detail)
            if fs.writes:
                env.fail('wrote-to-a-file', dict(detail, writes=fs.writes[:3]))
            return o

        def load(cl, op):
            """One round of the program; the outcome is that of the last thing it did."""
            im = w.module(cl.proc, 'weatherlink.importer')
            mine, to = (twin_stored, check_twin) if isinstance(cl, Twin) else (stored, check_arch)
            last = None
            for f in files:
                if cl.proc.dead or not cl.connected:
                    return last
                why = [f['why']] if f['why'] else []
                seen = []

                def go():
                    i = im.Importer(f['spec']['path'])
                    i.import_data()
                    seen.append(len(i.records))
                    top = cl.exp.get_newest_timestamp() if newest and not isinstance(cl, Twin) else None
                    for r in i.records:
                        if top and r.timestamp <= top:
                            k.probe('left_out')
                            continue
                        try:
                            cl.exp.export_record(r)
                        except Exception as e:
                            no = getattr(e, 'errno', None)
                            if no == 1062:
                                k.probe('refused_as_stored')
                                if r.timestamp not in mine:
                                    k.violation('refused-though-not-stored', {'timestamp': r.timestamp})
                                continue
                            if no in DATA_ERRORS:
                                if any(x is not None for x in
                                       (twin_refs if isinstance(cl, Twin) else refs).get(r.timestamp, [0])):
                                    raise
                                k.probe('unstorable')
                                continue
                            raise
                        if r.timestamp not in mine:
                            k.violation('returned-but-not-stored', {'timestamp': r.timestamp})
                    if op['summaries'] and not isinstance(cl, Twin):
                        cl.exp.recalculate_summaries_for_dates([r.date for r in i.records])
                    return True
                last = o = run(cl, 'load', go, why)
                if o.crashed:
                    cl.connected = False
                    return o
                if o.ok and why:
                    env.fail('damaged-file-accepted', {'file': f['spec']['path'], 'damage': why, 'records': seen})
                if not o.ok:
                    if not why or len(seen):
                        reconnect(cl)
                    elif not plan['keep']:
                        reconnect(cl)
                    if newest:
                        return o
            if op['rain'] and not isinstance(cl, Twin) and cl.connected and not cl.proc.dead:
                last = o = run(cl, 'rain', lambda: cl.exp.find_new_rain_events())
                if not o.ok:
                    reconnect(cl)
            return last

        def reconnect(cl):
            if cl.proc.dead:
                cl.connected = False
            else:
                cl.connect()

        def step(cl, op):
            if op['op'] == 'server_crash':
                k.after(op['after'], env.crash_server, op['down'])
            elif op['op'] == 'crash':
                if cl.ensure():
                    k.arm_crash(cl.proc, op['after'], op['silent'])
            elif op['op'] == 'load':
                if cl.ensure():
                    load(cl, op)
            elif op['op'] == 'download':
                recs = files[op['file'] % len(files)]['rec']
                if recs and cl.ensure():
                    when = recs[op['which'] % len(recs)][1]['date']
                    rec, ref = make_record(cl.models, {'r': op['r'], 'when': when.strftime(FMT), 'tame': True, 'kind': 'dl',
                                                       'span': files[0]['spec']['span']})
                    downloads.append(ref)
                    learn(ref)

                    def go():
                        try:
                            cl.exp.export_record(rec)
                        except Exception as e:
                            if getattr(e, 'errno', None) != 1062:
                                raise
                    o = run(cl, 'download', go)
                    if not o.ok:
                        reconnect(cl)
            else:
                # only while nobody is reading
                f = files[op['file'] % len(files)] if 'file' in op else files[-1]
                if op['op'] == 'grow':
                    f['extra'] += op['n']
                    publish(f)
                elif op['op'] == 'restore':
                    for f in files:
                        publish(f)
                elif op['op'] == 'truncate' and not f['why']:
                    full = len(f['data'])
                    p = int(op['frac'] * full)
                    if op['edge'] is not None and full > 212:
                        p = 212 + (max(0, p - 212) // 88) * 88 + op['edge']
                    f['data'] = f['data'][:max(0, min(p, full - 1))]
                    f['why'] = 'truncated'
                    fs.put(f['spec']['path'], f['data'])
                    k.fault('file_truncate')
                elif op['op'] == 'mark' and not f['why'] and f['marks']:
                    at, want = f['marks'][op['which'] % len(f['marks'])]
                    if op['to'] != want:
                        f['data'] = f['data'][:at] + bytes([op['to']]) + f['data'][at + 1:]
                        f['why'] = 'marker'
                        fs.put(f['spec']['path'], f['data'])
                        k.fault('file_mark')

        def days():
            return sorted({r['timestamp_station'].replace(hour=0, minute=0) for r in env.rows(ARCH)})

        def driver():
            cl = env.client('station_')
            other = None
            if plan['others'] == 'process':
                other = env.client('second_')
            elif plan['others'] == 'twin':
                other = Twin(env, cl)
                env.clients.append(other)
            for op in plan['ops']:
                if other is not None and op['op'] == 'load':
                    quiet = dict(op, summaries=False, rain=False)
                    env.run_scripts([lambda: step(cl, op), lambda: step(other, quiet)])
                else:
                    step(cl, op)
                env.check_broken()
            env.quiet()
            fs.heal()
            for f in files:
                publish(f)
            k.sleep(4000.0)
            all_ = [cl] if other is None else [cl, other]
            for c in all_:
                for i in range(2):
                    if c.proc.dead:
                        c.boot()
                    if not c.connected and not c.connect().ok:
                        env.fail('cannot-reconnect', {'client': c.name})
                    o = load(c, {'summaries': False, 'rain': False})
                    if o is None or o.ok:
                        break
                    k.sleep(4000.0)
                    c.connected = False
                else:
                    env.fail('does-not-work-after-failure', {'client': c.name, 'outcome': o.describe()})
            missing = [t for t in order if t not in stored]
            if missing:
                env.fail('records-missing', {'missing': len(missing), 'first': missing[0]})
            keys = [r['timestamp_weatherlink'] for r in env.rows(ARCH)]
            if len(set(keys)) != len(keys):
                env.fail('record-stored-twice', {})
            if twin:
                lost = [t for t, ws in twin_refs.items() if any(x is not None for x in ws) and t not in twin_stored and
                        any(t == ref['timestamp'] for f in files for _, ref in f['rec'])]
                rows = env.rows(twin_table)
                if lost or len({r[tkey] for r in rows}) != len(rows):
                    env.fail('records-missing', {'twin': True, 'missing': len(lost)})
                k.probe('twin')

            def finish():
                cl.exp.recalculate_summaries_for_dates(days())
                cl.exp.find_new_rain_events()
            o = run(cl, 'finish', finish)
            if not o.ok:
                env.fail('does-not-work-after-failure', {'outcome': o.describe()})
            s = dbref.Summaries(env.eng, env.eng.state)
            for d in days():
                for key in dbref.keys_of(d):
                    found = s.find(key)
                    if len(found) != 1:
                        env.fail('summary-not-stored-once', {'key': key, 'found': len(found)})
                    diff = s.diff(key, found[0])
                    if diff:
                        env.fail('wrong-summary', {'key': key, 'difference': diff[:4]})
            diff = dbref.rain_diff(dbref.rain_events(env.rows(ARCH)), env.rows(RAIN))
            if diff:
                env.fail('wrong-rain-events', {'difference': diff[:4]})
            k.probe('loaded')
        return env.run(driver)


PROPS = {'C20': C20()}
