"""Independent reference for derived weather values (float arithmetic from the published formulas)."""
import math
from decimal import Decimal as D


def f2c(f):
    return (float(f) - 32.0) * 5.0 / 9.0


def c2f(c):
    return c * 9.0 / 5.0 + 32.0


def dew_point(t, rh):
    c = f2c(t)
    g = math.log(float(rh) / 100.0 * math.exp((17.67 - c / 234.5) * (c / (243.5 + c))))
    return c2f(243.5 * g / (17.67 - g))


def wet_bulb(t, rh, baro):
    c = f2c(t)
    p = float(baro) / 0.0295299830714
    x = 1 - 0.01 * float(rh)
    d = c - (14.55 + 0.114 * c) * x - ((2.5 + 0.007 * c) * x) ** 3 - (15.9 + 0.117 * c) * x ** 14
    e = 6.11 * 10 ** (7.5 * d / (237.7 + d))
    k = 4098 * e / (d + 237.7) ** 2
    return c2f((0.00066 * p * c + k * d) / (0.00066 * p + k))


def heat_index(t, rh):
    t, rh = float(t), float(rh)
    if t < 70:
        return None
    h = (0.5 * (t + 61.0 + (t - 68.0) * 1.2 + rh * 0.094) + t) / 2
    if h < 80:
        return h
    h = (-42.379 + 2.04901523 * t + 10.14333127 * rh - 0.22475541 * t * rh - 0.00683783 * t * t - 0.05481717 * rh * rh
         + 0.00122874 * t * t * rh + 0.00085282 * t * rh * rh - 0.00000199 * t * t * rh * rh)
    if 80 <= t <= 112 and rh < 13:
        h -= (13 - rh) / 4 * math.sqrt((17 - abs(t - 95)) / 17)
    elif 80 <= t <= 87 and rh > 85:
        h += (rh - 85) / 10 * (87 - t) / 5
    return h


def wind_chill(t, ws):
    t, ws = float(t), float(ws)
    if t > 40:
        return None
    if ws == 0:
        return t
    v = ws ** 0.16
    return min(t, 35.74 + 0.6215 * t - 35.75 * v + 0.4275 * t * v)


def thw(t, rh, ws):
    h = heat_index(t, rh)
    return None if h is None else h - 1.072 * float(ws)


def thsw(t, rh, solar, ws):
    c = f2c(t)
    q1 = float(solar)
    q = q1 * 0.25 / 7 + q1 / 28
    w = float(ws) * 0.44704
    e = float(rh) / 100 * 6.105 * math.exp(17.27 * c / (237.7 + c))
    return c2f(c + 0.348 * e - 0.70 * w + 0.70 * q / (w + 10) - 4.25)


def near(ref, got, tol):
    if ref is None or got is None:
        return ref is None and got is None
    return abs(float(ref) - float(got)) <= tol
