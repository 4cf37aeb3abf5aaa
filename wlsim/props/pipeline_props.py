"""C18: a station program that downloads, exports, summarises and resumes from the newest stored record."""
import datetime
import random

from .. import dbref
from .. import refcodec as R
from ..runner import Prop, swarm_net, swarm_sched
from ..tz import ZONES
from ..webdl import WebDL, ISO
from .db_props import ARCH, SUMM, RAIN, SERVER_ERRORS, Env, REAL, STUB, ASSUME, swarm_db, db_faults
from .web_props import creds


class C18(Prop):
    id = 'C18'
    quick_runs = 700
    thorough_runs = 25000
    real = sorted(set(REAL + ['weatherlink.downloader', 'requests', 'urllib3', 'http.client']))
    stub = STUB + ['TLS (plain bytes)', 'weatherlink.com webdl.php (simulated)']
    assumptions = ASSUME + ['the program asks for the newest stored timestamp, downloads from it, exports the records in order and '
                            'recalculates their dates; the loop itself is part of the harness']
    list_fields = ('ops', 'faults')
    rule = ('A station program doing 2-7 rounds of newest timestamp, download, export, recalculation and rain search on one '
            'or several connections, records arriving before, between and during the rounds, optionally a second program '
            'recalculating and searching meanwhile; wrong and broken answers of the service, statement errors, kills, lost '
            'replies, link faults, crashes of the programs and of the database server anywhere; after every commit the '
            'stored records are the first ones of the service, each once and correct, and after the faults all of them '
            'with correct summaries and rain events.')

    def make(self, seed, index, tier):
        rng = random.Random(seed * 7919 + 18)
        span = rng.choice([1, 5, 30, 60, 60, 120])
        start = datetime.datetime(rng.randint(2003, 2036), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 0)
        if rng.random() < 0.3:
            start = datetime.datetime(start.year, rng.choice([1, 12]), rng.choice([1, 31]), 22, 0)
        acct = dict(creds(rng, 0), span=span, start=start.strftime(ISO), n=rng.choice([0, 1, 3, 8, 20]), tame=True,
                    gap=rng.choice([0.03, 0.2]))
        plan = {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [], 'db': swarm_db(rng),
                'zone': rng.choice(ZONES + [None]), 'zone_as': rng.choice(['name', 'pytz']), 'accounts': [acct],
                'web': {'framing': rng.choice(['length', 'length', 'chunked', 'close']),
                        'chunks': [rng.choice([51, 52, 53, 4096]) for _ in range(3)], 'idle': rng.choice([None, 5.0, 60.0]),
                        'delay': rng.choice([0.0, 0.05, 1.0]), 'close': rng.random() < 0.15, 'gzip': rng.random() < 0.3,
                        'grow': rng.choice([0, 0, 1, 3])},
                'keep': rng.random() < 0.7, 'second': rng.random() < 0.3, 'as_date': rng.random() < 0.5}
        n = rng.randint(2, 7)
        for i in range(n):
            if rng.random() < 0.5:
                plan['ops'].append({'op': 'grow', 'n': rng.choice([1, 1, 2, 6])})
            if rng.random() < 0.3:
                plan['ops'].append({'op': 'sleep', 'secs': rng.choice([1.0, 60.0, 4000.0])})
            if rng.random() < 0.22:
                plan['ops'].append({'op': 'crash', 'after': rng.choice([rng.randrange(60), rng.randrange(400), rng.randrange(1500)]),
                                    'silent': rng.random() < 0.25})
            if rng.random() < 0.08:
                plan['ops'].append({'op': 'server_crash', 'after': rng.choice([0.1, 2.0, 20.0]) * rng.random(),
                                    'down': rng.choice([0.5, 20.0])})
            plan['ops'].append({'op': 'round', 'summaries': rng.random() < 0.5, 'rain': rng.random() < 0.5})
        plan['bytes'] = 40000
        m = rng.choice([0, 1, 1, 2, 3])
        db_faults(rng, plan, m, {'insert': 15, 'commit': 20, 'update': 20, 'select': 100, 'any': 200}, 2 * n, link=0.4)
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan['faults'].append({
                'at': 'http', 'n': rng.randrange(2 * n),
                'hk': rng.choice(['ctype', 'model', 'badint', 'status500', 'cut', 'cut', 'mute', 'slow']),
                'dk': rng.choice(['ctype', 'cenc', 'baddir', 'baddate', 'zerodate', 'short', 'ragged', 'status500', 'cut', 'cut',
                                  'cut', 'mute', 'slow']),
                'i': rng.randrange(64), 'pos': rng.choice([0, 20, rng.randrange(300), rng.randrange(1500)]),
                'how': rng.choice(['fin', 'rst']), 'secs': rng.choice([2.0, 45.0])})
        return [plan]

    def execute(self, plan, sched):
        env = Env(plan, sched)
        k, w = env.k, env.w
        web = WebDL(w, plan['web'], plan['accounts'], plan['faults'])
        a = plan['accounts'][0]
        acct = web.accounts[a['user']]
        zone = plan['zone'] or 'America/Chicago'
        tab = env.eng.tables[ARCH]
        wants = {}

        def want(i):
            if i not in wants:
                t, raw, _ = acct.records[i]
                wants[i] = dbref.archive_row(R.download_decode(t, raw, acct.span), zone, tab)
            return wants[i]
        stored = [0]

        def monitor(rec):
            """The archive is always a beginning of what the service has."""
            for tn, ch in rec[2].items():
                if tn != ARCH:
                    continue
                for rid, (old, new) in ch.items():
                    if old is not None:
                        return 'stored-record-changed', {'deleted': new is None}
                    row = env.rowdict(ARCH, new)
                    i = stored[0]
                    if i >= len(acct.records):
                        return 'unknown-record-stored', {'timestamp': row['timestamp_weatherlink']}
                    expect = R.timestamp(acct.records[i][0])
                    if row['timestamp_weatherlink'] != expect:
                        return ('record-skipped' if row['timestamp_weatherlink'] > expect else 'record-stored-again'), \
                            {'stored': row['timestamp_weatherlink'], 'next': expect, 'position': i}
                    d = dbref.row_diff(want(i), row)
                    if d:
                        return 'wrong-record-stored', {'timestamp': expect, 'difference': d[:4]}
                    stored[0] += 1
                    k.probe('stored')
        env.monitors.append(monitor)

        def run(cl, what, fn):
            mark = len(web.log)
            t0 = k.now
            o, causes, codes = cl.call(fn, what)
            env.check_broken()
            env.shape.append([what, o.describe()[:20], stored[0], sorted(set(codes))[:2], causes[:1]])
            if o.crashed:
                return o
            if not o.ok:
                for e in web.log[mark:]:
                    causes += [e['bad']] * bool(e['bad']) + ['enc'] * bool(e.get('enc')) + \
                        ['record'] * (e.get('badrec') is not None)
                causes += [f[1] for c in w.net.conns for f in c.fired if f[0] >= t0 - 1e-9 and c.proc is cl.proc]
                wrong = [e['wrong'] for e in web.log[mark:] if 'wrong' in e]
                detail = {'client': cl.name, 'what': what, 'outcome': o.describe(), 'codes': codes, 'causes': causes[:4],
                          'stored': stored[0]}
                if wrong:
                    env.fail('wrong-request', dict(detail, wrong=wrong[0]))
                if not causes and not (set(codes) & SERVER_ERRORS):
                    env.fail('failed-without-cause', detail)
            return o

        def round_(cl, op):
            """One round of the station program."""
            dl = w.module(cl.proc, 'weatherlink.downloader')
            models = w.module(cl.proc, 'weatherlink.models')
            got = []

            def go():
                newest = cl.exp.get_newest_timestamp()
                d = getattr(cl, 'downloader', None)
                if d is None or d[0] is not cl.proc:
                    d = cl.downloader = (cl.proc, dl.Downloader(a['user'], a['pw'], a['token']))
                d = d[1]
                if newest and plan['as_date']:
                    newest = models.convert_timestamp_to_datetime(newest)
                d.download(newest or 0)
                for r in d.records:
                    cl.exp.export_record(r)
                    got.append(r.date)
                if op['summaries'] and got:
                    cl.exp.recalculate_summaries_for_dates(got)
                if op['rain']:
                    cl.exp.find_new_rain_events()
            return run(cl, 'round', go)

        def after(cl, o):
            if o.crashed or cl.proc.dead:
                cl.connected = False
            elif not o.ok or not plan['keep']:
                cl.connect()

        def step(cl, op):
            if op['op'] == 'sleep':
                k.sleep(op['secs'])
            elif op['op'] == 'grow':
                acct.grow(op['n'])
            elif op['op'] == 'server_crash':
                k.after(op['after'], env.crash_server, op['down'])
            elif op['op'] == 'crash':
                if cl.ensure():
                    k.arm_crash(cl.proc, op['after'], op['silent'])
            elif cl.ensure():
                after(cl, round_(cl, op))

        def days():
            return sorted({r['timestamp_station'].replace(hour=0, minute=0) for r in env.rows(ARCH)})

        def driver():
            cl = env.client('station_')

            def main():
                for op in plan['ops']:
                    if plan['second'] and op['op'] == 'round':
                        op = dict(op, rain=False, summaries=False)      # the other program does that
                    step(cl, op)
            if plan['second']:
                cl2 = env.client('analyst_')

                def other():
                    for i in range(len(plan['ops']) // 2 + 1):
                        k.sleep(3.0)
                        if not cl2.ensure():
                            continue
                        after(cl2, run(cl2, 'analysis', lambda: (cl2.exp.recalculate_summaries_for_dates(days()[-3:]),
                                                                 cl2.exp.find_new_rain_events())))
                env.run_scripts([main, other])
            else:
                main()
            env.quiet()
            web.faults.clear()
            web.cfg['grow'] = 0
            k.sleep(4000.0)
            for i in range(3):
                if cl.proc.dead:
                    cl.boot()
                if not cl.connected and not cl.connect().ok:
                    env.fail('cannot-reconnect', {'client': cl.name})
                o = round_(cl, {'summaries': False, 'rain': False})
                if o.ok:
                    break
                k.sleep(4000.0)
                cl.connected = False
            else:
                env.fail('does-not-work-after-failure', {'outcome': o.describe()})
            if stored[0] != len(acct.records):
                env.fail('records-missing', {'stored': stored[0], 'service': len(acct.records)})
            o = run(cl, 'finish', lambda: (cl.exp.recalculate_summaries_for_dates(days()), cl.exp.find_new_rain_events()))
            if not o.ok:
                k.sleep(4000.0)
                cl.connect()
                o = run(cl, 'finish', lambda: (cl.exp.recalculate_summaries_for_dates(days()), cl.exp.find_new_rain_events()))
                if not o.ok:
                    env.fail('does-not-work-after-failure', {'outcome': o.describe()})
            k.probe('caught_up')
            s = dbref.Summaries(env.eng, env.eng.state)
            for d in days():
                for key in dbref.keys_of(d):
                    found = s.find(key)
                    if len(found) != 1:
                        env.fail('summary-not-stored-once', {'key': key, 'found': len(found)})
                    diff = s.diff(key, found[0])
                    if diff:
                        env.fail('wrong-summary', {'key': key, 'difference': diff[:4]})
            diff = dbref.rain_diff(dbref.rain_events(env.rows(ARCH)), env.rows(RAIN))
            if diff:
                env.fail('wrong-rain-events', {'difference': diff[:4]})
        return env.run(driver)


PROPS = {'C18': C18()}
