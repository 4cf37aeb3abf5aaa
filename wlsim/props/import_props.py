"""C10: importing WeatherLink database files."""
import calendar
import random
import struct

from .. import refcodec as R
from ..runner import Prop, swarm_sched
from ..world import World, Abort

PATHS = ['/sim/', '/sim/data-2011/', '/sim/wl.k/1999-12.wlk/', '/sim/My Station-2003-07/', '/sim/a-']


def build(spec, extra=0):
    """File bytes, expected content, marker offsets and record boundaries of a database file (a wide one uses the full range
    of every field)."""
    rng = random.Random('%s/%s' % (spec['seed'], extra))
    days = [list(d) for d in spec['days']]
    if extra and days:
        days[-1][1] += extra
    by_day = {d: n for d, n in days}
    head = [('WDAT5.%d' % rng.randint(0, 3)).encode() + bytes(9)]
    total = sum(n + 2 for _, n in days)
    index = 0
    idx = []
    for d in range(32):
        n = by_day.get(d)
        idx.append(struct.pack('<hi', 0 if n is None else n + 2, index if n is not None else rng.choice([0, index])))
        index += 0 if n is None else n + 2
    out = bytearray(head[0][:16].ljust(16, b'\0') + struct.pack('<i', total) + b''.join(idx))
    marks = []
    summaries, records = {}, []
    for d, n in sorted(days):
        # records that come in during the last day change its summary, too
        grown = '/%d' % extra if extra and d == days[-1][0] else ''
        raw = R.summary_random(random.Random('%s/%s/sum%s' % (spec['seed'], d, grown)))
        marks += [(len(out), 2), (len(out) + 88, 3)]
        out += R.summary_encode(raw, rng)
        summaries[d] = R.summary_decode(raw, spec['year'], spec['month'], d)
        span = spec['span']
        past = spec.get('first', span)
        for i in range(n):
            rr = random.Random('%s/%s/%s' % (spec['seed'], d, i))
            raw = R.wlk_random(rr, span, past, spec.get('wide', False))
            marks.append((len(out), 1))
            out += R.wlk_encode(raw, rng)
            records.append((d, R.wlk_decode(raw, spec['year'], spec['month'], d)))
            past = min(1440, past + span)
    return bytes(out), summaries, records, marks


class C10(Prop):
    id = 'C10'
    quick_runs = 1500
    thorough_runs = 40000
    real = ['weatherlink.importer', 'weatherlink.models', 'io.BufferedReader']
    stub = ['file system (simulated below the buffering layer)', 'time (simulated)']
    assumptions = ['days are stored in ascending order, as the WeatherLink program writes them',
                   'random damage inside record values cannot be detected by any reader and is not injected']
    list_fields = ('ops', 'faults')
    rule = ('1-3 monthly files of seeded daily summaries and records; 2-8 imports by new and reused importers, in turn or '
            'by two threads at once, with short, slow and failing reads, failing opens, truncation at any byte, damaged '
            'record markers and files that grow or are replaced between imports; every field compared with an independent decoder.')

    def make(self, seed, index, tier):
        rng = random.Random(seed * 7919 + 10)
        plan = {'seed': seed, 'sched': swarm_sched(rng), 'faults': [], 'ops': [], 'files': [],
                'fs': {'short': rng.choice([None, None, 5, 60, 1000]), 'delay': rng.choice([0, 0, 0.05])}}
        for i in range(rng.choice([1, 1, 2, 3])):
            year, month = rng.randint(1996, 2035), rng.randint(1, 12)
            span = rng.choice([1, 5, 10, 15, 30, 60, 120])
            last = calendar.monthrange(year, month)[1]
            days = sorted(rng.sample(range(1, last + 1), rng.choice([0, 1, 1, 2, 3, rng.randint(1, 8)])))
            plan['files'].append({
                'path': rng.choice(PATHS) + '%04d-%02d.wlk' % (year, month), 'year': year, 'month': month,
                'seed': rng.randrange(1 << 30), 'span': span, 'first': rng.choice([span, 0, 1]), 'wide': True,
                'days': [[d, rng.choice([0, 1, 2, 3, rng.randint(1, 1440 // span if span > 20 else 30)])] for d in days]})
        if rng.random() < 0.015:
            # complete days
            f = plan['files'][0]
            f['span'], f['first'] = rng.choice([(1, 0), (1, 1), (2, 2), (5, 5)])
            f['days'] = [[d, 1440 // f['span']] for d, _ in f['days'][:2] or [[1, 0]]]
            plan['fs']['short'] = rng.choice([None, 1000])
        nf = len(plan['files'])
        opens = 0
        for i in range(rng.randint(2, 8)):
            r = rng.random()
            f = rng.randrange(nf)
            if r < 0.60:
                plan['ops'].append({'op': 'import', 'file': f, 'new': rng.random() < 0.5})
                opens += 1
            elif r < 0.70:
                plan['ops'].append({'op': 'both', 'files': [f, rng.randrange(nf)]})
                opens += 2
            elif r < 0.80:
                plan['ops'].append({'op': 'truncate', 'file': f, 'frac': rng.random(),
                                    'edge': rng.choice([None, None, 0, 1, -1])})
            elif r < 0.90:
                plan['ops'].append({'op': 'mark', 'file': f, 'which': rng.randrange(1 << 20),
                                    'to': rng.choice([0, 1, 2, 3, 4, 255])})
            elif r < 0.94:
                plan['ops'].append({'op': 'grow', 'file': f, 'n': rng.randint(1, 5)})
            elif r < 0.98:
                # another file under the same name: often one with fewer or other days
                plan['ops'].append({'op': 'replace', 'file': f, 'seed': rng.randrange(1 << 30),
                                    'keep': rng.choice([0.0, 0.5, 0.5, 1.0]), 'shift': rng.choice([0, 0, 1])})
            else:
                plan['ops'].append({'op': 'restore', 'file': f})
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.choice(['eio', 'eio', 'eio', 'enoent', 'eacces', 'emfile'])
            plan['faults'].append({'at': 'fs', 'n': rng.randrange(max(1, opens)), 'kind': k,
                                   'pos': rng.choice([rng.randrange(300), rng.randrange(3000), rng.randrange(30000)]),
                                   'sticky': rng.random() < 0.5})
        return [plan]

    def execute(self, plan, sched):
        w = World(plan, sched)
        k, fs = w.k, w.fs
        app = w.process('app')
        mod = w.module(app, 'weatherlink.importer')
        shape = []
        state = {}

        def fail(kind, detail):
            k.violation(kind, detail)
            raise Abort()

        for i, spec in enumerate(plan['files']):
            data, s, r, marks = build(spec)
            state[i] = {'spec': spec, 'good': True, 'sum': s, 'rec': r, 'marks': marks, 'data': data, 'extra': 0, 'why': None}
        # two files of the same path would overwrite each other: the later one wins
        names = {}
        for i, spec in enumerate(plan['files']):
            names[spec['path']] = i
            fs.put(spec['path'], state[i]['data'])

        def real_index(i):
            return names[plan['files'][i]['path']]

        importers = {}
        kept = []       # what earlier imports returned must stay as it was

        def kept_args(imp):
            return imp.daily_summaries, imp.records, imp.daily_records

        def snapshot(summaries, records, daily):
            return ({d: dict(s) for d, s in summaries.items()}, [dict(r) for r in records],
                    {d: len(v) for d, v in daily.items() if v})

        def get(i, new):
            if new or i not in importers:
                o = w.call(app, lambda: mod.Importer(plan['files'][i]['path']))
                if not o.ok:
                    fail('constructor-failed', dict(outcome=o.describe(), path=plan['files'][i]['path']))
                importers[i] = o.value
            return importers[i]

        def judge(i, imp, out, before, mark):
            st = state[i]
            hurt = [f['kind'] for h in fs.handles[mark:] if h.path == plan['files'][i]['path'] for f in h.hit] + before
            detail = {'file': plan['files'][i]['path'], 'outcome': out.describe(), 'damage': st['why'], 'faults': hurt}
            shape.append([out.describe()[:14], st['why'], hurt[:1]])
            if any(not h.closed for h in fs.handles):
                fail('file-left-open', detail)
            if fs.writes:
                fail('wrote-to-a-file', dict(detail, writes=fs.writes[:3]))
            if bytes(fs.files[plan['files'][i]['path']].data) != st['data']:
                fail('file-changed', detail)
            if out.exc is not None:
                if not isinstance(out.exc, Exception):
                    fail('wrong-error', detail)
                if st['good'] and not hurt:
                    fail('failed-without-cause', detail)
                k.probe('import_failed')
                return
            if not st['good']:
                fail('damaged-file-accepted', detail)
            self.compare(imp, st, detail, fail)
            k.probe('import_ok')
            kept.append((imp.daily_summaries, imp.records, imp.daily_records, i) + snapshot(*kept_args(imp)))

        def run_import(i, imp):
            mark = len(fs.handles)
            n0 = fs.opens
            out = w.call(app, imp.import_data)
            pre = [f['kind'] for n in range(n0, fs.opens) for f in fs.open_faults.get(n, ())
                   if f['kind'] not in ('eio',)]
            judge(i, imp, out, pre, mark)

        def driver():
            for op in plan['ops']:
                if op['op'] == 'both':
                    idx = [real_index(i) for i in op['files']]
                    o1 = [w.call(app, lambda i=i: mod.Importer(plan['files'][i]['path'])) for i in idx]
                    if not all(o.ok for o in o1):
                        fail('constructor-failed', o1[0].describe())
                    mark, n0 = len(fs.handles), fs.opens
                    ts = [w.start(app, o.value.import_data, 'app/t%d' % j) for j, o in enumerate(o1)]
                    outs = [w.join(t) for t in ts]
                    pre = [f['kind'] for n in range(n0, fs.opens) for f in fs.open_faults.get(n, ())
                           if f['kind'] not in ('eio',)]
                    for i, o, out in zip(idx, o1, outs):
                        judge(i, o.value, out, pre if len(set(idx)) > 1 or out.exc is not None else [], mark)
                    continue
                i = real_index(op['file'])
                st = state[i]
                if op['op'] == 'import':
                    run_import(i, get(i, op['new']))
                    continue
                if op['op'] == 'grow':
                    st['extra'] += op['n']
                if op['op'] == 'replace':
                    old = st['spec']
                    days = old['days'][:int(round(op['keep'] * len(old['days'])))]
                    last = calendar.monthrange(old['year'], old['month'])[1]
                    st['spec'] = dict(old, seed=op['seed'],
                                      days=[[d + op['shift'], n] for d, n in days if d + op['shift'] <= last])
                    st['extra'] = 0
                if op['op'] in ('grow', 'restore', 'replace'):
                    st['data'], st['sum'], st['rec'], st['marks'] = build(st['spec'], st['extra'])
                    st['good'], st['why'] = True, None
                elif op['op'] == 'truncate' and st['good']:
                    full = len(st['data'])
                    p = int(op['frac'] * full)
                    if op['edge'] is not None and full > 212:
                        p = 212 + (max(0, p - 212) // 88) * 88 + op['edge']
                    p = max(0, min(p, full - 1))
                    st['data'] = st['data'][:p]
                    st['good'], st['why'] = False, 'truncated'
                elif op['op'] == 'mark' and st['good'] and st['marks']:
                    at, want = st['marks'][op['which'] % len(st['marks'])]
                    if op['to'] != want:
                        st['data'] = st['data'][:at] + bytes([op['to']]) + st['data'][at + 1:]
                        st['good'], st['why'] = False, 'marker'
                fs.put(plan['files'][i]['path'], st['data'])
                k.fault('file_' + op['op'])
            fs.heal()
            k.calm()
            for i in sorted(set(names.values())):
                st = state[i]
                st['data'], st['sum'], st['rec'], st['marks'] = build(st['spec'], st['extra'])
                st['good'], st['why'] = True, None
                fs.put(plan['files'][i]['path'], st['data'])
                run_import(i, get(i, False))
            for x in kept:
                if snapshot(*x[:3]) != x[4:]:
                    fail('earlier-result-changed', {'file': plan['files'][x[3]]['path'], 'had': len(x[5]), 'has': len(x[1])})
        w.run(driver)
        return k, {'shape': shape}

    def compare(self, imp, st, detail, fail):
        if sorted(imp.daily_summaries) != sorted(st['sum']):
            fail('wrong-days', dict(detail, wanted=sorted(st['sum']), got=sorted(imp.daily_summaries)))
        for d in st['sum']:
            self.fields(imp.daily_summaries[d], st['sum'][d], dict(detail, summary_of=d), fail)
        if len(imp.records) != len(st['rec']):
            fail('wrong-record-count', dict(detail, wanted=len(st['rec']), got=len(imp.records)))
        for i, (d, ref) in enumerate(st['rec']):
            self.fields(imp.records[i], ref, dict(detail, record=i), fail)
        per = {}
        for d, ref in st['rec']:
            per.setdefault(d, []).append(ref)
        got = {d: v for d, v in imp.daily_records.items() if v}
        if sorted(got) != sorted(per):
            fail('wrong-record-days', dict(detail, wanted=sorted(per), got=sorted(got)))
        for d in per:
            if len(got[d]) != len(per[d]):
                fail('wrong-record-count', dict(detail, day=d, wanted=len(per[d]), got=len(got[d])))
            for i, ref in enumerate(per[d]):
                self.fields(got[d][i], ref, dict(detail, day=d, record=i), fail)

    def fields(self, got, ref, detail, fail):
        for a, v in ref.items():
            if a not in got:
                fail('value-missing', dict(detail, field=a))
            g = got[a]
            if isinstance(v, str) and g is not None:
                g = getattr(g, 'name', g)
            if g != v or (g is None) != (v is None):
                fail('wrong-value', dict(detail, field=a, wanted=str(v), got=str(g)))


PROPS = {'C10': C10()}
