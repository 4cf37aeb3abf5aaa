"""Independent UTC conversion of station-local times (zoneinfo over the system tz database)."""
import datetime
import zoneinfo

ZONES = ['America/Chicago', 'America/New_York', 'Europe/Berlin', 'Australia/Lord_Howe', 'Asia/Kolkata',
         'America/St_Johns', 'Pacific/Auckland', 'UTC', 'America/Phoenix']
UTC = datetime.timezone.utc
_CACHE = {}


def utc_candidates(local, zone):
    """Every UTC instant the local time can mean: one normally, two when the clock was set back, and for a local time
    that never existed (clock set forward) both readings, because no answer is right."""
    z = zoneinfo.ZoneInfo(zone)
    out = []
    for fold in (0, 1):
        u = local.replace(tzinfo=z, fold=fold).astimezone(UTC).replace(tzinfo=None)
        if u not in out:
            out.append(u)
    return out


def transitions(zone):
    """Local times of the offset changes 2003-2029."""
    t = _CACHE.get(zone)
    if t is None:
        t = []
        z = zoneinfo.ZoneInfo(zone)
        d = datetime.datetime(2003, 1, 1, tzinfo=UTC)
        end = datetime.datetime(2029, 12, 31, tzinfo=UTC)
        step = datetime.timedelta(days=1)
        last = d.astimezone(z).utcoffset()
        while d < end:
            n = d + step
            o = n.astimezone(z).utcoffset()
            if o != last:
                lo, hi = d, n
                while hi - lo > datetime.timedelta(minutes=1):
                    m = lo + (hi - lo) / 2
                    if m.astimezone(z).utcoffset() == last:
                        lo = m
                    else:
                        hi = m
                x = hi.astimezone(z).replace(tzinfo=None)
                t.append(x.replace(second=0, microsecond=0))
                last = o
            d = n
        _CACHE[zone] = t
    return t
