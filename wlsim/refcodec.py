"""Independent encoders/decoders for the Davis wire and file formats (offset tables written from the format
documentation quoted in the repository, not from its struct strings)."""
import datetime
from decimal import Decimal as D
import struct

DIRS = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']


def crc16(data):
    crc = 0
    for b in bytearray(data):
        crc ^= b << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xFFFF if crc & 0x8000 else (crc << 1) & 0xFFFF
    return crc


def with_crc(data):
    return data + struct.pack('>H', crc16(data))


def dir_degrees(code):
    return 360.0 if code == 0 else code * 22.5


def dir_from_degrees(deg):
    if deg is None or deg < 1 or deg > 360:
        return None
    for i in range(16):
        if deg <= int(11.25 + 22.5 * i + 0.5):
            return DIRS[i]
    return 'N'


def _get(buf, off, t):
    return struct.unpack_from('<' + t, buf, off)[0]


def _put(buf, off, t, v):
    struct.pack_into('<' + t, buf, off, v)


# ---- LOOP2 -----------------------------------------------------------------------------------------------
# name, offset, type, scale, dash
LOOP2 = [
    ('barometric_pressure', 7, 'H', 3, 0),
    ('temperature_inside', 9, 'h', 1, 32767),
    ('humidity_inside', 11, 'B', 0, 255),
    ('temperature_outside', 12, 'h', 1, 32767),
    ('wind_speed', 14, 'B', 0, 255),
    ('wind_direction_degrees', 16, 'H', 0, 0),
    ('wind_speed_10_minute_average', 18, 'H', 1, 0),
    ('wind_speed_2_minute_average', 20, 'H', 1, 0),
    ('wind_speed_10_minute_gust', 22, 'H', 1, 0),
    ('wind_speed_10_minute_gust_direction_degrees', 24, 'H', 0, 0),
    ('dew_point', 30, 'h', 0, 255),
    ('humidity_outside', 33, 'B', 0, 255),
    ('heat_index', 35, 'h', 0, 255),
    ('wind_chill', 37, 'h', 0, 255),
    ('thsw_index', 39, 'h', 0, 255),
    ('rain_rate_clicks', 41, 'H', 0, None),
    ('uv_index', 43, 'B', 1, 255),
    ('solar_radiation', 44, 'H', 0, 32767),
    ('rain_clicks_this_storm', 46, 'H', 0, None),
    ('rain_clicks_today', 50, 'H', 0, None),
    ('rain_clicks_15_minutes', 52, 'H', 0, None),
    ('rain_clicks_1_hour', 54, 'H', 0, None),
    ('evapotranspiration', 56, 'H', 3, 0),
    ('rain_clicks_24_hours', 58, 'H', 0, None),
    ('minute_in_hour', 79, 'B', 0, 60),
]
LOOP2_CONST = [(4, 'B', 1), (5, 'H', 0x7FFF), (15, 'B', 0xFF), (26, 'H', 0x7FFF), (28, 'H', 0x7FFF), (32, 'B', 0xFF),
               (34, 'B', 0xFF), (71, 'B', 0xFF)] + [(83 + 2 * i, 'H', 0x7FFF) for i in range(6)]
TRENDS = {-60: 'falling_rapidly', -20: 'falling_slowly', 0: 'steady', 20: 'rising_slowly', 60: 'rising_rapidly'}
RAIN_PAIRS = [('rain_rate_clicks', 'rain_rate'), ('rain_clicks_this_storm', 'rain_amount_this_storm'),
              ('rain_clicks_today', 'rain_amount_today'), ('rain_clicks_15_minutes', 'rain_amount_15_minutes'),
              ('rain_clicks_1_hour', 'rain_amount_1_hour'), ('rain_clicks_24_hours', 'rain_amount_24_hours')]


def loop2_encode(values, trend, rng):
    b = bytearray(rng.getrandbits(8) for _ in range(99))
    b[0:3] = b'LOO'
    _put(b, 3, 'b', trend)
    for off, t, v in LOOP2_CONST:
        _put(b, off, t, v)
    for name, off, t, _, _ in LOOP2:
        _put(b, off, t, values[name])
    b[95:97] = b'\n\r'
    struct.pack_into('>H', b, 97, crc16(b[:97]))
    return bytes(b)


RANGES = {'b': (-128, 127), 'B': (0, 255), 'h': (-32768, 32767), 'H': (0, 65535)}


def stretch(rng, table, raw, most=4):
    """Let some of the plain numbers take any value their field can carry."""
    fields = [row for row in table if row[3] != 'dir' and not row[0].startswith('minute')]
    for name, _, ty, _, _ in rng.sample(fields, rng.randint(1, most)):
        lo, hi = RANGES[ty]
        raw[name] = rng.choice([rng.randint(lo, hi), rng.randint(lo, hi), lo, hi, lo + 1, hi - 1, -1 if lo else 1, 255, 256
                                if hi > 255 else 254])
        raw[name] = max(lo, min(hi, raw[name]))


def loop2_random(rng, serial=0):
    """A packet whose inside temperature carries a serial number, so every packet is attributable."""
    v = {
        'barometric_pressure': rng.choice([0, rng.randint(25000, 32500), rng.randint(25000, 32500)]),
        'temperature_inside': -serial if rng.random() < 0.3 else serial,
        'humidity_inside': rng.choice([255, rng.randint(0, 100)]),
        'temperature_outside': rng.choice([32767, 0, -1, rng.randint(-900, 1300), rng.randint(-900, 1300)]),
        'wind_speed': rng.choice([255, 0, rng.randint(0, 254), rng.randint(0, 40)]),
        'wind_direction_degrees': rng.choice([0, 1, 360, rng.randint(1, 360), rng.randint(1, 360)]),
        'wind_speed_10_minute_average': rng.choice([0, rng.randint(1, 900)]),
        'wind_speed_2_minute_average': rng.choice([0, rng.randint(1, 900)]),
        'wind_speed_10_minute_gust': rng.choice([0, rng.randint(1, 2000)]),
        'wind_speed_10_minute_gust_direction_degrees': rng.choice([0, rng.randint(1, 360)]),
        'dew_point': rng.choice([255, -20, rng.randint(-60, 100)]),
        'humidity_outside': rng.choice([255, rng.randint(0, 100)]),
        'heat_index': rng.choice([255, rng.randint(-60, 140)]),
        'wind_chill': rng.choice([255, rng.randint(-100, 110)]),
        'thsw_index': rng.choice([255, rng.randint(-100, 170)]),
        'rain_rate_clicks': rng.choice([0, rng.randint(1, 5000), 65535]),
        'uv_index': rng.choice([255, rng.randint(0, 160)]),
        'solar_radiation': rng.choice([32767, rng.randint(0, 1800)]),
        'rain_clicks_this_storm': rng.choice([0, rng.randint(1, 2000)]),
        'rain_clicks_today': rng.choice([0, rng.randint(1, 2000)]),
        'rain_clicks_15_minutes': rng.choice([0, rng.randint(1, 300)]),
        'rain_clicks_1_hour': rng.choice([0, rng.randint(1, 900)]),
        'evapotranspiration': rng.choice([0, rng.randint(1, 400)]),
        'rain_clicks_24_hours': rng.choice([0, rng.randint(1, 2000)]),
        'minute_in_hour': rng.choice([60, rng.randint(0, 59)]),
    }
    if rng.random() < 0.25:
        keep = v['temperature_inside']
        stretch(rng, LOOP2, v)
        v['temperature_inside'] = keep
    return loop2_encode(v, rng.choice([-60, -20, 0, 20, 60, 80, 7, rng.randint(-128, 127)]), rng)


def loop2_valid(data):
    """The structural constants a receiver can verify."""
    if len(data) < 99 or data[0:3] != b'LOO' or data[95:97] != b'\n\r':
        return False
    return all(_get(data, off, t) == v for off, t, v in LOOP2_CONST)


def loop2_decode(data):
    out = {'crc_match': crc16(data) == 0, 'record_type': 2}
    out['barometric_trend'] = TRENDS.get(_get(data, 3, 'b'))
    for name, off, t, scale, dash in LOOP2:
        raw = _get(data, off, t)
        out[name] = None if raw == dash else (D(raw).scaleb(-scale) if scale else raw)
    out['wind_direction'] = dir_from_degrees(out['wind_direction_degrees'])
    out['wind_speed_10_minute_gust_direction'] = dir_from_degrees(
        out['wind_speed_10_minute_gust_direction_degrees'])
    for a, b in RAIN_PAIRS:
        out[b] = D(out[a]).scaleb(-2) if out[a] else ZERO_OR_NONE
    return out


class _ZeroOrNone(object):
    def __repr__(self):
        return '<0 or None>'


ZERO_OR_NONE = _ZeroOrNone()


class OneOf(object):
    def __init__(self, options):
        self.options = list(options)

    def __repr__(self):
        return '<one of %r>' % (self.options,)


def same(expected, actual):
    if expected is ZERO_OR_NONE:
        return actual is None or actual == 0
    if isinstance(expected, OneOf):
        return any(same(o, actual) for o in expected.options)
    if expected is None or actual is None:
        return expected is actual
    name = getattr(actual, 'name', None)
    if isinstance(expected, str) and isinstance(name, str):
        return expected == name
    if isinstance(expected, bool) or isinstance(actual, bool):
        return bool(expected) == bool(actual) and isinstance(actual, (bool, int))
    return expected == actual


def diff(expected, actual):
    """Fields of `expected` that `actual` (a mapping) does not carry with that value."""
    out = []
    for key in sorted(expected):
        if key not in actual:
            if expected[key] is not None:
                out.append('%s: expected %r, missing' % (key, expected[key]))
        elif not same(expected[key], actual[key]):
            out.append('%s: expected %r, got %r' % (key, expected[key], actual[key]))
    return out


# ---- archive record, web download form -------------------------------------------------------------------
DOWNLOAD = [
    ('temperature_outside', 4, 'h', 1, 32767),
    ('temperature_outside_high', 6, 'h', 1, -32768),
    ('temperature_outside_low', 8, 'h', 1, 32767),
    ('rain_amount_clicks', 10, 'H', 0, None),
    ('rain_rate_clicks', 12, 'H', 0, None),
    ('barometric_pressure', 14, 'H', 3, 0),
    ('solar_radiation', 16, 'h', 0, 32767),
    ('number_of_wind_samples', 18, 'H', 0, 0),
    ('temperature_inside', 20, 'h', 1, 32767),
    ('humidity_inside', 22, 'B', 0, 255),
    ('humidity_outside', 23, 'B', 0, 255),
    ('wind_speed', 24, 'B', 0, 255),
    ('wind_speed_high', 25, 'B', 0, 0),
    ('wind_direction_speed_high', 26, 'B', 'dir', 255),
    ('wind_direction_prevailing', 27, 'B', 'dir', 255),
    ('uv_index', 28, 'B', 1, 255),
    ('evapotranspiration', 29, 'B', 3, 0),
    ('solar_radiation_high', 30, 'h', 0, 32767),
    ('uv_index_high', 32, 'B', 1, 255),
]


def stamp(dt):
    return dt.day + dt.month * 32 + (dt.year - 2000) * 512, dt.minute + dt.hour * 100


def timestamp(dt):
    d, t = stamp(dt)
    return (d << 16) + t


def download_encode(dt, raw, rng):
    b = bytearray(rng.getrandbits(8) for _ in range(52))
    d, t = stamp(dt)
    _put(b, 0, 'H', d)
    _put(b, 2, 'H', t)
    for name, off, ty, _, _ in DOWNLOAD:
        _put(b, off, ty, raw[name])
    b[42] = 0
    return bytes(b)


def _decode(table, raw):
    out = {}
    for name, off, ty, scale, dash in table:
        v = raw[name]
        if v == dash:
            out[name] = None
        elif scale == 'dir':
            out[name] = DIRS[v]
        elif scale:
            out[name] = D(v).scaleb(-scale)
        else:
            out[name] = v
    for a in ('wind_direction_prevailing', 'wind_direction_speed_high'):
        out[a + '_degrees'] = None if out[a] is None else dir_degrees(DIRS.index(out[a]))
    return out


def download_decode(dt, raw, span):
    out = _decode(DOWNLOAD, raw)
    out['minutes_covered'] = span
    out['rain_amount'] = D(raw['rain_amount_clicks']).scaleb(-2)
    out['rain_rate'] = D(raw['rain_rate_clicks']).scaleb(-2)
    out['date'] = dt
    out['timestamp'] = timestamp(dt)
    return out


def download_random(rng, tame=False, wide=False):
    """Raw field values.  tame: values any station would plausibly report (fit the database columns)."""
    t = rng.randint(-300, 1150)
    lo = t - rng.randint(0, 30)
    hi = t + rng.randint(0, 30)
    ws = rng.choice([0, rng.randint(0, 12), rng.randint(0, 60)])
    wsh = ws + rng.randint(0, 30)
    solar = rng.choice([0, rng.randint(0, 1200)])
    uv = rng.randint(0, 120)
    r = {
        'temperature_outside': t, 'temperature_outside_high': hi, 'temperature_outside_low': lo,
        'rain_amount_clicks': rng.choice([0, 0, 0, rng.randint(1, 40)]),
        'rain_rate_clicks': rng.choice([0, 0, rng.randint(1, 400)]),
        'barometric_pressure': rng.randint(27000, 32000), 'solar_radiation': solar,
        'number_of_wind_samples': rng.randint(0, 120), 'temperature_inside': rng.randint(400, 950),
        'humidity_inside': rng.randint(5, 99), 'humidity_outside': rng.randint(5, 99), 'wind_speed': ws,
        'wind_speed_high': wsh, 'wind_direction_speed_high': rng.randint(0, 15),
        'wind_direction_prevailing': rng.randint(0, 15), 'uv_index': uv, 'evapotranspiration': rng.randint(0, 30),
        'solar_radiation_high': solar + rng.randint(0, 60), 'uv_index_high': uv + rng.randint(0, 10),
    }
    if not tame:
        for name, _, _, _, dash in DOWNLOAD:
            if dash is not None and rng.random() < 0.12:
                r[name] = dash
        if rng.random() < 0.1:
            r['temperature_outside'] = r['temperature_outside_low'] = r['temperature_outside_high'] = 0
    if wide and rng.random() < 0.3:
        stretch(rng, DOWNLOAD, r)
    return r


# ---- archive record, .wlk form ---------------------------------------------------------------------------
WLK = [
    ('minutes_covered', 1, 'b', 0, None),
    ('minutes_past_midnight', 4, 'h', 0, None),
    ('temperature_outside', 6, 'h', 1, 32767),
    ('temperature_outside_high', 8, 'h', 1, -32768),
    ('temperature_outside_low', 10, 'h', 1, 32767),
    ('temperature_inside', 12, 'h', 1, 32767),
    ('barometric_pressure', 14, 'h', 3, 0),
    ('humidity_outside', 16, 'h', 1, 255),
    ('humidity_inside', 18, 'h', 1, 255),
    ('rain_rate_clicks', 22, 'h', 0, None),
    ('wind_speed', 24, 'h', 1, 255),
    ('wind_speed_high', 26, 'h', 1, 0),
    ('wind_direction_prevailing', 28, 'B', 'dir', 255),
    ('wind_direction_speed_high', 29, 'B', 'dir', 255),
    ('number_of_wind_samples', 30, 'h', 0, 0),
    ('solar_radiation', 32, 'h', 0, -32768),
    ('solar_radiation_high', 34, 'h', 0, -32768),
    ('uv_index', 36, 'B', 1, 255),
    ('uv_index_high', 37, 'B', 1, 255),
]
COLLECTORS = {0x0000: D('0.1'), 0x1000: D('0.01'), 0x2000: D('0.00787402'), 0x3000: D('0.0393701'),
              0x6000: D('0.00393701')}
COLLECTOR_NAMES = {0x0000: 'inches_0_1', 0x1000: 'inches_0_01', 0x2000: 'millimeters_0_2',
                   0x3000: 'millimeters_1_0', 0x6000: 'millimeters_0_1'}


def wlk_random(rng, minutes, past, wide=False):
    t = rng.randint(-300, 1150)
    r = {
        'minutes_covered': minutes, 'minutes_past_midnight': past, 'temperature_outside': t,
        'temperature_outside_high': t + rng.randint(0, 40), 'temperature_outside_low': t - rng.randint(0, 40),
        'temperature_inside': rng.randint(400, 900), 'barometric_pressure': rng.randint(27000, 32000),
        'humidity_outside': rng.randint(30, 1000), 'humidity_inside': rng.randint(30, 1000),
        'rain_clicks': rng.choice([0, rng.randint(0, 0x0FFF)]), 'collector': rng.choice(sorted(COLLECTORS)),
        'rain_rate_clicks': rng.choice([0, rng.randint(0, 3000)]), 'wind_speed': rng.randint(0, 900),
        'wind_speed_high': rng.randint(1, 1200), 'wind_direction_prevailing': rng.randint(0, 15),
        'wind_direction_speed_high': rng.randint(0, 15), 'number_of_wind_samples': rng.randint(1, 500),
        'solar_radiation': rng.randint(0, 1500), 'solar_radiation_high': rng.randint(0, 1800),
        'uv_index': rng.randint(0, 160), 'uv_index_high': rng.randint(0, 160),
    }
    for name, _, _, _, dash in WLK:
        if dash is not None and rng.random() < 0.08:
            r[name] = dash
    if wide and rng.random() < 0.3:
        stretch(rng, WLK, r)
    return r


def wlk_encode(raw, rng):
    b = bytearray(rng.getrandbits(8) for _ in range(88))
    b[0] = 1
    for name, off, ty, _, _ in WLK:
        _put(b, off, ty, raw[name])
    _put(b, 20, 'H', raw['collector'] | raw['rain_clicks'])
    return bytes(b)


def wlk_decode(raw, year, month, day):
    out = _decode(WLK, raw)
    per = COLLECTORS[raw['collector']]
    out['rain_amount_clicks'] = raw['rain_clicks']
    out['rain_amount'] = per * raw['rain_clicks']
    out['rain_rate'] = per * raw['rain_rate_clicks']
    out['rain_collector_type'] = COLLECTOR_NAMES[raw['collector']]
    out['date'] = datetime.datetime(year, month, day) + datetime.timedelta(minutes=raw['minutes_past_midnight'])
    out['timestamp'] = timestamp(out['date'])
    return out


# daily summary: two consecutive 88-byte records; name, absolute offset, type, scale, dash
SUMMARY = [
    ('minutes', 2, 'h', 0, None),
    ('temperature_outside_high', 4, 'h', 1, -32768), ('temperature_outside_low', 6, 'h', 1, 32767),
    ('temperature_inside_high', 8, 'h', 1, -32768), ('temperature_inside_low', 10, 'h', 1, 32767),
    ('temperature_outside_average', 12, 'h', 1, 32767), ('temperature_inside_average', 14, 'h', 1, 32767),
    ('wind_chill_high', 16, 'h', 1, -32768), ('wind_chill_low', 18, 'h', 1, 32767),
    ('dew_point_high', 20, 'h', 1, -32768), ('dew_point_low', 22, 'h', 1, 32767),
    ('wind_chill_average', 24, 'h', 1, 32767), ('dew_point_average', 26, 'h', 1, 32767),
    ('humidity_outside_high', 28, 'h', 1, 255), ('humidity_outside_low', 30, 'h', 1, 255),
    ('humidity_inside_high', 32, 'h', 1, 255), ('humidity_inside_low', 34, 'h', 1, 255),
    ('humidity_outside_average', 36, 'h', 1, 255),
    ('barometric_pressure_high', 38, 'h', 3, 0), ('barometric_pressure_low', 40, 'h', 3, 0),
    ('barometric_pressure_average', 42, 'h', 3, 0),
    ('wind_speed_high', 44, 'h', 1, 0), ('wind_speed_average', 46, 'h', 1, 0), ('wind_daily_run', 48, 'h', 1, 0),
    ('wind_speed_high_10_minute_average', 50, 'h', 1, -32768),
    ('wind_speed_high_direction', 52, 'B', 'dir', 255),
    ('wind_speed_high_10_minute_average_direction', 53, 'B', 'dir', 255),
    ('rain_total', 54, 'h', 3, None), ('rain_rate_high', 56, 'h', 2, None),
    ('total_wind_packets', 88 + 4, 'h', 0, -32768),
    ('heat_index_high', 88 + 14, 'h', 1, -32768), ('heat_index_low', 88 + 16, 'h', 1, 32767),
    ('heat_index_average', 88 + 18, 'h', 1, 32767),
    ('thw_index_high', 88 + 24, 'h', 1, -32768), ('thw_index_low', 88 + 26, 'h', 1, 32767),
    ('integrated_heating_degree_days', 88 + 28, 'h', 1, 0),
    ('temperature_wet_bulb_high', 88 + 30, 'h', 1, -32768), ('temperature_wet_bulb_low', 88 + 32, 'h', 1, 32767),
    ('temperature_wet_bulb_average', 88 + 34, 'h', 1, 32767),
    ('integrated_cooling_degree_days', 88 + 75, 'h', 1, 0),
]


def summary_random(rng):
    out = {}
    for name, _, ty, scale, dash in SUMMARY:
        if scale == 'dir':
            v = rng.randint(0, 15)
        elif name.startswith('humidity'):
            v = rng.randint(10, 1000)
        elif ty == 'h':
            v = rng.randint(1, 3000)
            if name.startswith(('temperature', 'wind_chill', 'dew_point', 'heat', 'thw')):
                v -= 800
        else:
            v = rng.randint(0, 200)
        if dash is not None and rng.random() < 0.08:
            v = dash
        out[name] = v
    if rng.random() < 0.3:
        stretch(rng, SUMMARY, out, 8)
    return out


def summary_encode(raw, rng):
    b = bytearray(rng.getrandbits(8) for _ in range(176))
    b[0] = 2
    b[88] = 3
    for name, off, ty, _, _ in SUMMARY:
        _put(b, off, ty, raw[name])
    return bytes(b)


def summary_decode(raw, year, month, day):
    out = {}
    for name, off, ty, scale, dash in SUMMARY:
        v = raw[name]
        out[name] = (None if v == dash else DIRS[v] if scale == 'dir' else D(v).scaleb(-scale) if scale else v)
    out['date'] = datetime.date(year, month, day)
    return out
