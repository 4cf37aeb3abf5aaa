"""C08, C09: downloads from weatherlink.com."""
import datetime
import random

from .. import refcodec as R
from ..runner import Prop, swarm_net, swarm_sched
from ..webdl import WebDL, ISO
from ..world import World, Abort

NASTY = ['a&b', 'p#q', 'x+y', '100%', 'sp ace', 'q=r', 'a%41b', '\u00e9t\u00e9', 'semi;colon', 'slash/é?', '"quote"',
         '{user}', '~tilde-._', 'a\\b', '\u65e5\u672c']
REAL = ['weatherlink.downloader', 'weatherlink.models', 'requests', 'urllib3', 'http.client', 'io']
STUB = ['TCP/IP sockets (simulated)', 'TLS (plain bytes)', 'weatherlink.com webdl.php (simulated)', 'DNS, time (simulated)']
ASSUME = ['TLS either carries the bytes intact or fails; certificate checks are out of scope',
          'a header response without any length that is cut short by an orderly close cannot be detected by any client, '
          'so header responses always carry a length when cut',
          'one downloader is used by one thread at a time']


def creds(rng, i):
    def one(base):
        r = rng.random()
        if r < 0.45:
            return rng.choice([base, base, base.upper(), base.title() + 'Van', base + '_X']) + str(rng.randint(0, 9999))
        return base + rng.choice(NASTY) + (rng.choice(NASTY) if r > 0.8 else '')
    return {'user': one('u%d' % i), 'pw': one('p'), 'token': one('T') if rng.random() < 0.3 else
            '%032X' % rng.getrandbits(128)}


class WebProp(Prop):
    real = REAL
    stub = STUB
    assumptions = ASSUME

    def base(self, seed, accounts, tier):
        rng = random.Random(seed * 7919 + int(self.id[1:]))
        plan = {'seed': seed, 'net': swarm_net(rng), 'sched': swarm_sched(rng), 'faults': [], 'ops': [], 'accounts': [],
                'web': {'framing': rng.choice(['length', 'length', 'chunked', 'close']),
                        'chunks': [rng.choice([1, 51, 52, 53, 100, 4096]) for _ in range(3)],
                        'idle': rng.choice([None, None, 5.0, 60.0]), 'delay': rng.choice([0.0, 0.05, 1.0]),
                        'close': rng.random() < 0.15, 'gzip': rng.random() < 0.3, 'cookie': rng.random() < 0.3,
                        'grow': rng.choice([0, 0, 0, 1, 3])}}
        for i in range(accounts):
            c = creds(rng, i)
            start = datetime.datetime(2000 + rng.randint(1, 40), 1, 1, rng.randint(0, 23), 5 * rng.randint(0, 11)) + \
                datetime.timedelta(days=rng.randint(0, 365))
            c.update(span=rng.choice([1, 5, 10, 15, 30, 60, 120]), start=start.strftime(ISO),
                     n=rng.choice([0, 1, 2, 3, rng.randint(4, 30), rng.randint(4, 30), 120 if tier == 'thorough' else 40]),
                     version=rng.choice(['1.90', 'Apr 10 2006', '3.0=b', 'v 3.15']), max=rng.choice([2560, 10240]))
            if rng.random() < 0.12:
                c['back'] = rng.choice([0.05, 0.3])
            plan['accounts'].append(c)
        return rng, plan

    def faults(self, rng, plan, n):
        for _ in range(n):
            if rng.random() < 0.55:
                plan['faults'].append({
                    'at': 'http', 'n': rng.randrange(2 * max(1, len(plan['ops']))),
                    'hk': rng.choice(['ctype', 'model', 'nokey', 'badint', 'garbage', 'status500', 'cut', 'cut', 'mute',
                                      'slow']),
                    'dk': rng.choice(['ctype', 'cte', 'cenc', 'badtype', 'baddir', 'baddate', 'zerodate', 'zerodate',
                                      'short', 'short', 'ragged', 'status500', 'cut', 'cut', 'cut', 'mute', 'slow']),
                    'i': rng.randrange(64), 'pos': rng.choice([0, 1, 20, rng.randrange(300), rng.randrange(3000)]),
                    'how': rng.choice(['fin', 'rst']), 'secs': rng.choice([2.0, 45.0])})
            elif rng.random() < 0.7:
                d = rng.choice(['c2s', 's2c', 's2c'])
                plan['faults'].append({'at': 'conn', 'n': rng.randrange(3), 'dir': d,
                                       'pos': rng.choice([0, 1, 100, rng.randrange(500), rng.randrange(4000)]),
                                       'kind': rng.choice(['rst', 'fin', 'stall', 'hole']), 'secs': rng.choice([5.0, 90.0])})
            elif rng.random() < 0.6:
                plan['faults'].append({'at': 'connect', 'n': rng.randrange(3),
                                       'kind': rng.choice(['refuse', 'timeout', 'unreachable'])})
            else:
                plan['faults'].append({'at': 'dns', 'n': rng.randrange(3)})
        if plan['web']['framing'] == 'close' or plan['web']['grow']:
            pass

    def op(self, rng, d):
        return {'op': 'download', 'd': d, 'skip': rng.choice([0, 0, 0, 1, 2, rng.randrange(40)]),
                'style': rng.choice(['dt', 'int', 'between', 'zero']), 'delay': rng.choice([0.0, 0.0, 1.0, 10.0])}

    def execute(self, plan, sched):
        w = World(plan, sched)
        k = w.k
        web = WebDL(w, plan['web'], plan['accounts'], plan['faults'])
        app = w.process('app')
        mod = w.module(app, 'weatherlink.downloader')
        shape = []
        kept = []       # what earlier downloads returned must stay as it was

        def fail(kind, detail):
            k.violation(kind, detail)
            raise Abort()

        def driver():
            ds = []
            for a in plan['accounts']:
                o = w.call(app, lambda: mod.Downloader(a['user'], a['pw'], a['token']))
                if not o.ok:
                    fail('constructor-failed', o.describe())
                ds.append(o.value)
            stop = []

            def one(i, op, final=False):
                """Runs in a task of the process under test."""
                acct = web.accounts[plan['accounts'][i]['user']]
                recs = acct.records
                n = min(op['skip'], len(recs))
                base = recs[n - 1][0] if n else (recs[0][0] if recs else datetime.datetime(2016, 4, 1)) - \
                    datetime.timedelta(minutes=acct.span)
                style = op['style']
                if style == 'between':
                    arg = base + datetime.timedelta(minutes=acct.span // 2)
                elif style == 'int':
                    arg = R.timestamp(base)
                elif style == 'zero':
                    arg = 0
                else:
                    arg = base
                ts = arg if isinstance(arg, int) else R.timestamp(arg)
                mark = len(web.log)
                t0 = k.now
                exc = None
                try:
                    ds[i].download(arg)
                except Exception as e:
                    exc = e
                self.judge(k, w, web, acct, ds[i], ts, mark, t0, exc, fail, shape, final)
                if exc is None:
                    kept.append((ds[i].records, [dict(r) for r in ds[i].records], acct.user))

            threads = max([op.get('thread', 0) for op in plan['ops']] + [0]) + 1
            started = []
            for t in range(threads):
                mine = [op for op in plan['ops'] if op.get('thread', 0) == t]

                def body(mine=mine):
                    for op in mine:
                        if stop:
                            return
                        if op['delay']:
                            k.sleep(op['delay'])
                        try:
                            one(op['d'] % len(ds), op)
                        except Abort:
                            stop.append(1)
                            raise
                started.append(w.start(app, body, 'app/T%d' % t))
            for s in started:
                o = w.join(s)
                if o.exc is not None and not isinstance(o.exc, Abort):
                    raise o.exc
            if stop:
                raise Abort()
            # faults cease; what is left of broken links times out; then everything must simply work
            web.faults.clear()
            w.net.conn_faults.clear()
            w.net.connect_faults.clear()
            w.net.dns_faults.clear()
            for c in w.net.conns:
                for f in c.faults:
                    f['_done'] = True
            k.calm()
            k.sleep(2000.0)

            def last():
                for i in range(len(ds)):
                    one(i, {'skip': 0, 'style': 'dt'}, True)
            o = w.call(app, last)
            if o.exc is not None:
                raise o.exc
            for records, was, user in kept:
                if [dict(r) for r in records] != was:
                    fail('earlier-result-changed', {'user': user, 'had': len(was), 'has': len(records)})
        w.run(driver)
        return k, {'shape': shape}

    def judge(self, k, w, web, acct, d, ts, mark, t0, exc, fail, shape, final):
        mine = [e for e in web.log[mark:] if e['user'] == acct.user or 'wrong' in e]
        heads = [e for e in mine if e['action'] == 'headers' and 'wrong' not in e]
        datas = [e for e in mine if e['action'] == 'data' and 'wrong' not in e]
        used = [c for c in w.net.conns if any(t0 <= t <= k.now for t in c.sends)]
        cause = [e['bad'] for e in mine if e['bad']] + [e.get('enc') for e in mine if e.get('enc')] + \
            ['record' for e in mine if e.get('badrec') is not None] + \
            [f[1] for c in used for f in c.fired] + \
            [e[2] for e in k.trace if len(e) > 2 and e[1] == 'FAULT' and e[0] + k.start >= t0 - 1e-3 and
             (e[2].startswith('connect_') or e[2] == 'dns')]
        detail = {'user': acct.user, 'outcome': 'ok' if exc is None else '%s: %s' % (type(exc).__name__, str(exc)[:160]),
                  'causes': cause[:6], 'requests': len(mine)}
        shape.append(['ok' if exc is None else type(exc).__name__, len(heads), len(datas)])
        for e in mine:
            if 'wrong' in e and (e['user'] == acct.user or len(plan_users(web)) == 1 or exc is not None):
                fail('wrong-request', dict(detail, wrong=e['wrong'], target=e['target'][:200]))
            if 'ts' in e and e['ts'] != ts:
                fail('wrong-timestamp', dict(detail, wanted=ts, got=e['ts']))
        if exc is not None:
            k.probe('download_failed')
            if not cause:
                fail('failed-without-cause', detail)
            if final:
                fail('retry-failed', detail)
            return
        if not heads or not datas:
            fail('returned-without-exchange', detail)
        h, g = heads[-1], datas[-1]
        if h['bad'] and not h.get('cut'):
            fail('bad-response-accepted', dict(detail, response=h['bad']))
        if g['bad'] and not g.get('cut'):
            fail('bad-response-accepted', dict(detail, response=g['bad']))
        want = h['count']
        if g['stop'] is not None and g['stop'] < want:
            want = g['stop']
            k.probe('ended_by_zero_date')
        if g['badrec'] is not None and g['badrec'] < want:
            fail('bad-record-accepted', dict(detail, record=g['badrec']))
        expected = g['records'][:want]
        if len(g['records']) > h['count']:
            k.probe('grew_between_requests')
        if not expected:
            k.probe('empty_result')
        for name, v in (('console_version', h['version']), ('record_minute_span', h['span']),
                        ('record_count', h['count']), ('max_account_records', h['max'])):
            if getattr(d, name) != v:
                fail('wrong-' + name, dict(detail, wanted=v, got=repr(getattr(d, name))))
        got = d.records
        if not isinstance(got, (list, tuple)) or len(got) != want:
            fail('wrong-number-of-records', dict(detail, wanted=want, got=repr(got)[:60] if not
                                                 isinstance(got, (list, tuple)) else len(got)))
        for i, (dt, raw, _) in enumerate(expected):
            bad = R.diff(R.download_decode(dt, raw, h['span']), got[i])
            if bad:
                fail('wrong-record', dict(detail, record=i, diff=bad[:3]))
        k.probe('download_exact')


def plan_users(web):
    return list(web.accounts)


class C08(WebProp):
    id = 'C08'
    quick_runs = 2500
    thorough_runs = 60000
    rule = ('One downloader, 1-3 downloads of seeded record sets (values, absences, dates 2001-2041, spans, empty sets, '
            'records arriving between the two requests), seeded credentials including reserved characters, with wrong, '
            'malformed, truncated, cut, reset, stalled and silent responses, compared field by field with the records '
            'the simulated service sent.')

    def make(self, seed, index, tier):
        rng, plan = self.base(seed, 1, tier)
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan['ops'].append(self.op(rng, 0))
        if rng.random() < 0.015:
            # as many as a year's worth of an account
            plan['accounts'][0]['n'] = rng.choice([280, 600, 1100, 2600, 10240])
            plan['web']['chunks'] = [rng.choice([520, 4096, 70000]) for _ in range(3)]
            plan['net']['seg'] = rng.choice(['whole', 'random'])
            del plan['ops'][1:]
            plan['ops'][0]['skip'] = rng.choice([0, 0, 1, 20])
        self.faults(rng, plan, rng.choice([0, 0, 1, 1, 1, 2]))
        return [plan]


class C09(WebProp):
    id = 'C09'
    quick_runs = 2000
    thorough_runs = 50000
    rule = ('1-4 downloaders of different accounts, 2-8 downloads spread over 1-3 threads of one process (sharing the '
            "process's HTTP connections), with failing and half-read responses, closed idle connections and link faults "
            'in between, each compared with its own exchange; then a fault-free retry of each must succeed.')

    def make(self, seed, index, tier):
        rng = random.Random(seed)
        n = rng.choice([1, 2, 2, 3, 4])
        rng, plan = self.base(seed, n, tier)
        threads = rng.choice([1, 1, 2, 3])
        owner = [rng.randrange(threads) for _ in range(n)]
        for _ in range(rng.randint(2, 8)):
            d = rng.randrange(n)
            op = self.op(rng, d)
            op['thread'] = owner[d]
            plan['ops'].append(op)
        self.faults(rng, plan, rng.choice([0, 1, 1, 2, 3]))
        return [plan]


PROPS = {c.id: c() for c in (C08, C09)}
