"""Reference computations for the database exporter: archive rows, summaries and rain events from first principles."""
import collections
import datetime
from decimal import Decimal as D

from . import derived
from . import refcodec as R
from . import sqlengine as S
from .tz import utc_candidates

MIN = datetime.timedelta(minutes=1)
SIMPLE = {
    'timestamp': 'timestamp_weatherlink', 'date': 'timestamp_station', 'minutes_covered': 'minutes_covered',
    'temperature_outside': 'temperature_outside', 'temperature_outside_low': 'temperature_outside_low',
    'temperature_outside_high': 'temperature_outside_high', 'temperature_inside': 'temperature_inside',
    'humidity_outside': 'humidity_outside', 'humidity_inside': 'humidity_inside',
    'barometric_pressure': 'barometric_pressure', 'wind_speed': 'wind_speed', 'wind_speed_high': 'wind_speed_high',
    'rain_amount': 'rain_total', 'rain_rate': 'rain_rate_high', 'rain_amount_clicks': 'rain_clicks',
    'rain_rate_clicks': 'rain_click_rate_high', 'solar_radiation': 'solar_radiation',
    'solar_radiation_high': 'solar_radiation_high', 'uv_index': 'uv_index', 'uv_index_high': 'uv_index_high',
    'evapotranspiration': 'evapotranspiration', 'wind_direction_prevailing': 'wind_speed_direction',
    'wind_direction_speed_high': 'wind_speed_high_direction',
}
KEYS = {}      # attribute -> default column, for custom column maps
KEYS.update(SIMPLE)
KEYS.update({'timestamp_utc': 'timestamp_utc', 'summary_year': 'summary_year', 'summary_month': 'summary_month',
             'summary_day': 'summary_day', 'wind_run_distance_total': 'wind_run_distance_total'})
for _n in ('temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index'):
    for _s in ('', '_low', '_high'):
        KEYS[_n + _s] = _n + _s
for _n in ('dew_point_inside', 'heat_index_inside'):
    KEYS[_n] = _n


class Near(object):
    """A number within tol of value, or (optionally) null."""

    def __init__(self, options, tol, none=False):
        self.options = options
        self.tol = tol
        self.none = none

    def ok(self, v):
        if v is None:
            return self.none or not self.options
        return any(abs(float(v) - float(o)) <= self.tol for o in self.options)

    def __repr__(self):
        return 'about %s%s' % (' or '.join('%.3f' % float(o) for o in self.options) or 'null', ' or null' if self.none else '')


class In(object):
    def __init__(self, options):
        self.options = list(options)

    def ok(self, v):
        return v in self.options

    def __repr__(self):
        return 'one of %r' % (self.options,)


class Any(object):
    def ok(self, v):
        return True

    def __repr__(self):
        return 'anything'


ANY = Any()


def matches(want, got):
    if isinstance(want, (Near, In, Any)):
        return want.ok(got)
    return want == got and (want is None) == (got is None)


# ---- archive row -----------------------------------------------------------------------------------------
def derive(rec):
    """attribute -> Near for everything the exporter derives from one record."""
    out = {}
    ws, wsh = rec.get('wind_speed'), rec.get('wind_speed_high')
    h, hi = rec.get('humidity_outside'), rec.get('humidity_inside')
    p = rec.get('barometric_pressure')
    t, tl, th = (rec.get('temperature_outside' + s) for s in ('', '_low', '_high'))
    ti = rec.get('temperature_inside')
    sr, srh = rec.get('solar_radiation'), rec.get('solar_radiation_high')
    temps = [x for x in (t, tl, th) if x is not None]
    tol = 0.07

    def one(name, v, none=False, tol=tol):
        out[name] = Near([] if v is None else [v], tol, none)

    out['wind_run_distance_total'] = Near([] if ws is None else [float(ws) / 60 * float(rec['minutes_covered'])], 0.0051,
                                          not ws)
    for s, x in (('', t), ('_low', tl), ('_high', th)):
        one('temperature_wet_bulb' + s, derived.wet_bulb(x, h, p) if x is not None and h and p else None)

    def trio(name, current, allv, none=False, tol=tol):
        vals = [v for v in allv if v is not None]
        out[name] = Near([] if current is None else [current], tol, none)
        out[name + '_low'] = Near([min(vals)] if vals else [], tol, none)
        out[name + '_high'] = Near([max(vals)] if vals else [], tol, none)

    trio('dew_point_outside', derived.dew_point(t, h) if h and t is not None else None,
         [derived.dew_point(x, h) for x in temps] if h else [])
    trio('heat_index_outside', derived.heat_index(t, h) if h and t is not None else None,
         [derived.heat_index(x, h) for x in temps] if h else [], tol=0.11)
    # the heat index formula jumps where the simple estimate reaches 80 F and where t reaches 70 F; allow both sides
    one('dew_point_inside', derived.dew_point(ti, hi) if hi and ti is not None else None)
    one('heat_index_inside', derived.heat_index(ti, hi) if hi and ti is not None else None, tol=0.11)

    tol = 0.11      # the felt temperatures are rounded up or down instead of to the nearest tenth
    # a calm wind may or may not count; an absent one may count as calm
    def variants(fn, speeds, current):
        """Near triple for a quantity computed over temperatures x speeds, for each accepted reading of calm winds."""
        lows, highs, cur = [], [], []
        none = False
        for sp in speeds:
            vals = [v for v in (fn(x, s) for x in temps for s in sp) if v is not None]
            if vals:
                lows.append(min(vals))
                highs.append(max(vals))
            else:
                none = True
        for s in current:
            v = fn(t, s) if s is not None and t is not None else None
            if v is not None:
                cur.append(v)
        return lows, highs, cur, none

    given = [s for s in (ws, wsh) if s is not None]
    moving = [s for s in given if s]
    zeroed = [ws or 0, wsh or 0]
    lows, highs, cur, none = variants(derived.wind_chill, [moving, given], [ws])
    out['wind_chill'] = Near(cur, tol, not ws)
    out['wind_chill_low'] = Near(lows, tol, none)
    out['wind_chill_high'] = Near(highs, tol, none)
    if not h:
        for n in ('thw_index', 'thsw_index'):
            for s in ('', '_low', '_high'):
                out[n + s] = Near([], tol)
        return out
    lows, highs, cur, none = variants(lambda x, s: derived.thw(x, h, s), [zeroed, given, moving], [ws or 0])
    out['thw_index'] = Near(cur, tol, not ws)
    out['thw_index_low'] = Near(lows, tol, none)
    out['thw_index_high'] = Near(highs, tol, none)
    lows, highs, cur = [], [], []
    none = False
    for suns in ([x for x in (sr, srh) if x], [x for x in (sr, srh) if x is not None]):
        for sp in (zeroed, given, moving):
            vals = [derived.thsw(x, h, q, s) for x in temps for q in suns for s in sp]
            if vals:
                lows.append(min(vals))
                highs.append(max(vals))
            else:
                none = True
    if t is not None and sr is not None:
        cur.append(derived.thsw(t, h, sr, ws or 0))
    out['thsw_index'] = Near(cur, tol, not ws or not sr)
    out['thsw_index_low'] = Near(lows, tol, none)
    out['thsw_index_high'] = Near(highs, tol, none)
    return out


def heat_edge(rec):
    """Is one of the temperatures so close to a jump of the heat index formula that either side is acceptable?"""
    for t, h in [(rec.get('temperature_outside' + s), rec.get('humidity_outside')) for s in ('', '_low', '_high')] + \
            [(rec.get('temperature_inside'), rec.get('humidity_inside'))]:
        if t is None or not h:
            continue
        t, h = float(t), float(h)
        simple = (0.5 * (t + 61.0 + (t - 68.0) * 1.2 + h * 0.094) + t) / 2
        if abs(simple - 80) < 0.02 or (80 <= t <= 112 and abs(h - 13) < 1e-9) or abs(h - 85) < 1e-9:
            return True
    return False


def archive_row(rec, zone, table, column_map=None, skip='__do_not_insert_this_value__'):
    """column -> expectation for every column of the archive table but the key; or None if some value cannot be stored."""
    cm = column_map or KEYS
    cols = {c.lname: c for c in table.columns}
    want = {c: None for c in cols if not cols[c].auto}
    vals = {a: rec.get(a) for a in SIMPLE}
    vals.update(summary_year=rec['date'].year, summary_month=rec['date'].month, summary_day=rec['date'].day)
    storable = True
    for a, v in vals.items():
        c = cm[a]
        if c == skip:
            continue
        v = getattr(v, 'name', v)
        try:
            want[c] = S.store(cols[c], v)
        except S.SqlError:
            storable = False
    if cm['timestamp_utc'] != skip:
        want[cm['timestamp_utc']] = In(utc_candidates(rec['date'], zone))
    edge = heat_edge(rec)
    for a, e in derive(rec).items():
        c = cm[a]
        if c == skip:
            continue
        if edge and (a.startswith('heat_index') or a.startswith('thw')):
            e = ANY
        want[c] = e
    return want if storable else None


def row_diff(want, row):
    return ['%s: expected %r, got %r' % (c, w, row.get(c)) for c, w in sorted(want.items()) if not matches(w, row.get(c))]


# ---- summaries -------------------------------------------------------------------------------------------
TRIOS = [  # summary prefix, low source, high source, average source
    ('temperature_outside', 'temperature_outside_low', 'temperature_outside_high', 'temperature_outside'),
    ('temperature_inside', 'temperature_inside', 'temperature_inside', 'temperature_inside'),
    ('humidity_outside', 'humidity_outside', 'humidity_outside', 'humidity_outside'),
    ('humidity_inside', 'humidity_inside', 'humidity_inside', 'humidity_inside'),
    ('barometric_pressure', 'barometric_pressure', 'barometric_pressure', 'barometric_pressure'),
    ('solar_radiation', 'solar_radiation', 'solar_radiation_high', 'solar_radiation'),
    ('uv_index', 'uv_index', 'uv_index_high', 'uv_index'),
    ('temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high', 'temperature_wet_bulb'),
    ('dew_point_outside', 'dew_point_outside_low', 'dew_point_outside_high', 'dew_point_outside'),
    ('dew_point_inside', 'dew_point_inside', 'dew_point_inside', 'dew_point_inside'),
    ('heat_index_outside', 'heat_index_outside_low', 'heat_index_outside_high', 'heat_index_outside'),
    ('heat_index_inside', 'heat_index_inside', 'heat_index_inside', 'heat_index_inside'),
    ('wind_chill', 'wind_chill_low', 'wind_chill_high', 'wind_chill'),
    ('thw_index', 'thw_index_low', 'thw_index_high', 'thw_index'),
    ('thsw_index', 'thsw_index_low', 'thsw_index_high', 'thsw_index'),
]
TIMES = [  # timestamp column, record column, low or high, may be null when the extreme is zero
    ('temperature_outside_low_timestamp', 'temperature_outside_low', min, False),
    ('temperature_outside_high_timestamp', 'temperature_outside_high', max, False),
    ('humidity_outside_low_timestamp', 'humidity_outside', min, False),
    ('humidity_outside_high_timestamp', 'humidity_outside', max, False),
    ('barometric_pressure_low_timestamp', 'barometric_pressure', min, False),
    ('barometric_pressure_high_timestamp', 'barometric_pressure', max, False),
    ('wind_speed_high_timestamp', 'wind_speed_high', max, True),
    ('rain_rate_high_timestamp', 'rain_rate_high', max, True),
    ('solar_radiation_high_timestamp', 'solar_radiation_high', max, True),
    ('uv_index_high_timestamp', 'uv_index_high', max, True),
    ('temperature_wet_bulb_low_timestamp', 'temperature_wet_bulb_low', min, False),
    ('temperature_wet_bulb_high_timestamp', 'temperature_wet_bulb_high', max, False),
    ('dew_point_outside_low_timestamp', 'dew_point_outside_low', min, False),
    ('dew_point_outside_high_timestamp', 'dew_point_outside_high', max, False),
    ('heat_index_outside_high_timestamp', 'heat_index_outside_high', max, False),
    ('wind_chill_low_timestamp', 'wind_chill_low', min, False),
    ('thw_index_low_timestamp', 'thw_index_low', min, False),
    ('thw_index_high_timestamp', 'thw_index_high', max, False),
    ('thsw_index_low_timestamp', 'thsw_index_low', min, False),
    ('thsw_index_high_timestamp', 'thsw_index_high', max, False),
]
TEN = ('wind_speed_high_10_minute_average', 'wind_speed_high_10_minute_average_direction',
       'wind_speed_high_10_minute_average_start', 'wind_speed_high_10_minute_average_end')


def _tol(col):
    ty = col.type
    return (0.5 * 10.0 ** -ty.scale if ty.kind == 'dec' else 0.5) + 0.0002


def modes(values):
    c = collections.Counter(v for v in values if v is not None)
    if not c:
        return []
    m = max(c.values())
    return [v for v in c if c[v] == m]


def ten_minute(rows, null_as_zero):
    """(average, directions, start, end) of the first highest window of ten one-minute samples, or None."""
    best = None
    speeds, dirs, times = [], [], []
    for r in sorted(rows, key=lambda r: r['timestamp_station']):
        m = r['minutes_covered']
        if m > 10:
            return None
        v = r['wind_speed']
        if v is None:
            if not null_as_zero:
                continue
            v = 0
        for i in range(m - 1, -1, -1):
            speeds.append(v)
            dirs.append(r['wind_speed_direction'])
            times.append(r['timestamp_station'] - i * MIN)
        if len(speeds) >= 10:
            s = sum(speeds[-10:])
            if s > 0 and (best is None or s > best[0]):
                best = (s, dirs[-10:], times[-10] - MIN, times[-1])
    if best is None:
        return None
    s, ds, a, b = best
    c = collections.Counter(ds)
    top = max(c.values())
    ok = [d for d in c if c[d] == top] + modes(ds)
    return D(s) / 10, ok, a, b


class Summaries(object):
    """Expected summary rows for one database state."""

    def __init__(self, engine, state):
        self.cols = {c.lname: c for c in engine.tables['weather_calculated_summary'].columns}
        self.rows = engine.rows('weather_archive_record', state)
        self.sums = engine.rows('weather_calculated_summary', state)

    def find(self, key):
        return [r for r in self.sums if (r['summary_type'], r['summary_year'], r['summary_month'], r['summary_week'],
                                         r['summary_day']) == key]

    def period(self, key, week_start=None):
        ty, y, m, w, d = key
        if ty == 'DAILY':
            return [r for r in self.rows if (r['summary_year'], r['summary_month'], r['summary_day']) == (y, m, d)]
        if ty == 'MONTHLY':
            return [r for r in self.rows if (r['summary_year'], r['summary_month']) == (y, m)]
        if ty == 'YEARLY':
            return [r for r in self.rows if r['summary_year'] == y]
        return [r for r in self.rows if r['timestamp_station'].isocalendar()[:2] == (y, w)]

    def lower(self, key, level):
        ty, y, m, w, d = key
        out = []
        for r in self.sums:
            if r['summary_type'] != level:
                continue
            if ty == 'WEEKLY':
                if datetime.date(r['summary_year'], r['summary_month'], r['summary_day']).isocalendar()[:2] == (y, w):
                    out.append(r)
            elif r['summary_year'] == y and (ty == 'YEARLY' or r['summary_month'] == m):
                out.append(r)
        return out

    def daily_time(self, key, name, ext):
        """When the stored daily summaries of a month or year say its extreme occurred (they may be older than the records)."""
        v = [r[name] for r in self.lower(key, 'DAILY') if r[name[:-len('_timestamp')]] == ext]
        return None if not v or None in v else min(v)

    def expected(self, key, older=False):
        """column -> expectation for the whole summary row (except its id).
        older: the shorter summaries it is made from may be older than the records."""
        ty, y, m, w, d = key
        rows = self.period(key)
        want = {'summary_type': ty, 'summary_year': y, 'summary_month': m, 'summary_week': w, 'summary_day': d,
                'week_start': None, 'week_end': None, 'wind_run_distance_daily_average': None,
                'wind_run_distance_weekly_average': None, 'wind_run_distance_monthly_average': None}

        def vals(c):
            return [r[c] for r in rows if r[c] is not None]

        def avg(c, name):
            v = vals(c)
            want[name] = Near([float(sum(v)) / len(v)], _tol(self.cols[name])) if v else None
        for name, lo, hi, av in TRIOS:
            v = vals(lo)
            want[name + '_low'] = min(v) if v else None
            v = vals(hi)
            want[name + '_high'] = max(v) if v else None
            avg(av, name + '_average')
        v = vals('wind_speed_high')
        high = max(v) if v else None
        want['wind_speed_high'] = high
        avg('wind_speed', 'wind_speed_average')
        v = vals('wind_run_distance_total')
        want['wind_run_distance_total'] = sum(v) if v else None
        for a, b in (('rain_total', 'rain_total'), ('evapotranspiration', 'evapotranspiration')):
            v = vals(b)
            want[a] = sum(v) if v else None
        v = vals('rain_rate_high')
        want['rain_rate_high'] = max(v) if v else None
        md = modes(r['wind_speed_direction'] for r in rows)
        mh = modes(r['wind_speed_high_direction'] for r in rows if high is not None and r['wind_speed_high'] == high)
        calm = [None] if not high else []
        want['wind_direction_prevailing'] = In(md + calm if md else [None])
        want['wind_speed_high_direction'] = In(mh + calm if mh else [None])
        for name, c, ext, lenient in TIMES:
            v = vals(c)
            if not v:
                want[name] = None
                continue
            e = ext(v)
            first = min(r['timestamp_station'] for r in rows if r[c] == e)
            want[name] = In([None, first]) if lenient and e == 0 else first
            if older and ty in ('MONTHLY', 'YEARLY'):
                want[name] = In([first, self.daily_time(key, name, e)] + [None] * (lenient and e == 0))
        if ty == 'DAILY':
            self._daily(want, rows)
        else:
            self._longer(want, key)
        return want

    def _daily(self, want, rows):
        v = [r['temperature_outside'] for r in rows if r['temperature_outside'] is not None]
        h = c = None
        if v:
            a = float(sum(v)) / len(v)
            tol = _tol(self.cols['integrated_heating_degree_days'])
            h = Near([max(0.0, 65 - a)], tol, a >= 65 - 1e-3)
            c = Near([max(0.0, a - 65)], tol, a <= 65 + 1e-3)
        want['integrated_heating_degree_days'] = h
        want['integrated_cooling_degree_days'] = c
        options = []
        for nz in (True, False):
            t = ten_minute(rows, nz)
            if t is None:
                options.append((None, [None], None, None))
            else:
                options.append((t[0].quantize(D('0.01')), t[1], t[2],
                                datetime.timedelta(hours=t[3].hour, minutes=t[3].minute, seconds=t[3].second)))
        want['__ten__'] = options

    def _longer(self, want, key):
        ty, y, m, w, d = key
        if ty == 'WEEKLY':
            start = datetime.date.fromisocalendar(y, w, 1)
            want['week_start'] = start
            want['week_end'] = start + datetime.timedelta(days=6)
        low = self.lower(key, 'MONTHLY' if ty == 'YEARLY' else 'DAILY')
        for c in ('integrated_heating_degree_days', 'integrated_cooling_degree_days'):
            v = [r[c] for r in low if r[c] is not None]
            want[c] = sum(v) if v else None
        cand = [r for r in low if r[TEN[0]] is not None]
        if cand:
            top = max(r[TEN[0]] for r in cand)
            want['__ten__'] = [(r[TEN[0]], [r[TEN[1]]], r[TEN[2]], r[TEN[3]]) for r in cand if r[TEN[0]] == top]
        else:
            want['__ten__'] = [(None, [None], None, None)]
        names = ['daily', 'weekly', 'monthly'] if ty == 'YEARLY' else ['daily']
        for n in names:
            v = [r['wind_run_distance_total'] for r in self.lower(key, n.upper()) if r['wind_run_distance_total'] is not None]
            c = 'wind_run_distance_%s_average' % n
            if v:
                a = float(sum(v)) / len(v)
                want[c] = Near([a], _tol(self.cols[c]), a < 0.005)

    def diff(self, key, row, older=False):
        want = self.expected(key, older)
        ten = want.pop('__ten__')
        bad = row_diff(want, row)
        got = tuple(row[c] for c in TEN)
        if not any(got[0] == o[0] and got[1] in o[1] and got[2] == o[2] and got[3] == o[3] for o in ten):
            bad.append('ten-minute wind average: expected one of %r, got %r' % (ten, got))
        return bad


def keys_of(date):
    y, w, _ = date.isocalendar()
    return [('DAILY', date.year, date.month, 0, date.day), ('WEEKLY', y, 0, w, 0),
            ('MONTHLY', date.year, date.month, 0, 0), ('YEARLY', date.year, 0, 0, 0)]


def key_of(row):
    return (row['summary_type'], row['summary_year'], row['summary_month'], row['summary_week'], row['summary_day'])


# ---- rain events -----------------------------------------------------------------------------------------
THREE = datetime.timedelta(hours=3)


def rain_events(rows):
    """start -> (end or None, total, rates, time of the highest rate, highest rate)"""
    out = {}
    cur = None
    for r in sorted(rows, key=lambda r: r['timestamp_station']):
        t, amount, rate = r['timestamp_station'], r['rain_total'], r['rain_rate_high']
        if cur is not None and t - cur['last'] > THREE:
            cur['end'] = cur['last']
            cur = None
        if not amount:
            if cur is not None and t - cur['last'] >= THREE:
                cur['end'] = cur['last']
                cur = None
            continue
        if cur is None:
            cur = {'start': t, 'end': None, 'total': D(0), 'rates': [], 'high': None, 'at': t}
            out[t] = cur
        cur['last'] = t
        cur['total'] += amount
        cur['rates'].append(rate)
        if cur['high'] is None or rate > cur['high']:
            cur['high'] = rate
            cur['at'] = t
    return out


def rain_diff(events, rows):
    bad = []
    got = {}
    for r in rows:
        if r['timestamp_start'] in got:
            bad.append('two events start at %s' % r['timestamp_start'])
        got[r['timestamp_start']] = r
    for t in sorted(set(events) | set(got)):
        e, r = events.get(t), got.get(t)
        if e is None:
            bad.append('no rain period starts at %s but an event is stored: %r' % (t, r))
            continue
        if r is None:
            bad.append('the rain period starting at %s is not stored' % t)
            continue
        avg = float(sum(e['rates'])) / len(e['rates'])
        want = {'timestamp_end': e['end'], 'timestamp_rain_rate_high': e['at'], 'rain_total': e['total'],
                'rain_rate_average': Near([avg], 0.0052), 'rain_rate_high': e['high']}
        bad += ['event %s %s' % (t, x) for x in row_diff(want, r)]
    return bad
