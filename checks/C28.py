"""The representation of a value evaluates to the same value."""
import datetime as D
import zoneinfo
import _boot  # noqa: F401
from engine import Fail, Space, call, main, outcome, step
import model as M
import badidatetime
import badidatetime as bd
from badidatetime import _structures

TIER = 'quick'
US = (0, 1, 10, 999999)


class MyDate(bd.date):
    """A user class."""


class MyTime(bd.time):
    """A user class."""


class MyDatetime(bd.datetime):
    """A user class."""


NS = {'badidatetime': badidatetime, 'structures': _structures,
      'zoneinfo': zoneinfo, 'datetime': D, __name__: type('m', (), {
          'MyDate': MyDate, 'MyTime': MyTime, 'MyDatetime': MyDatetime})}
try:
    ZI = zoneinfo.ZoneInfo('Europe/London')
except Exception:  # no zone data here
    ZI = None


def zones():
    z = [None, bd.UTC, bd.BADI, bd.timezone.utc,
         bd.timezone(D.timedelta(hours=5, minutes=30)),
         bd.timezone(D.timedelta(hours=-9, minutes=-1), "it's"),
         bd.timezone.max, bd.timezone.min,
         bd.timezone(D.timedelta(seconds=1, microseconds=-1)),
         bd.timezone(D.timedelta(0), 'zero'), bd.timezone(D.timedelta(0), ''),
         bd.TZWithCoords(1.5, -20.25, 2.5), bd.TZWithCoords(-1, 2, None),
         bd.TZWithCoords(51.5, 0.0, 0, key='Europe/London'), bd.LOCAL]
    if ZI:
        z.append(bd.TZWithCoords.fromzoneinfo(ZI, 51.5, -0.1, 0))
    return z


def zone_shape(z):
    if z is None:
        return None
    return (type(z), z.utcoffset(None), z.tzname(None), str(z),
            getattr(z, 'coordinates', None), z.badioffset(None),
            z.dst(bd.datetime(181, 6, 1, tzinfo=z)))


def evaluate(x):
    r = repr(x)
    ok, y = call(eval, r, dict(NS))
    if not ok:
        raise Fail(f"{r} does not evaluate: {type(y).__name__}: {y}")
    if type(y) is not type(x):
        raise Fail(f"{r} evaluates to a {type(y).__name__}")
    if not (x == y) or hash(x) != hash(y):
        raise Fail(f"{r} evaluates to {y!r}, which is not equal")
    if repr(y) != r:
        raise Fail(f"{r} evaluates to {y!r}")
    outcome(type(x).__name__)
    return y


def p_dates(y):
    for i, (y, m, d) in enumerate(M.days_of(y) if TIER != 'quick' else
                                  M.boundary_days(y)):
        cls = MyDate if i % 3 == 0 else bd.date
        for x in (cls(y, m, d), cls(*M.long_form(y), m, d)):
            e = evaluate(x)
            if e.b_date != x.b_date or e.is_short is not x.is_short:
                raise Fail(f"{x!r}: {e.b_date}")


def p_datetimes(case):
    y, zi = case
    z = zones()[zi]
    n = 0
    for m, d in ((1, 1), (0, M.ayyam(y)), (19, 19)):
        for h, mi, s in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (23, 59, 59),
                         (24, 0, 0)):
            for us in US:
                for form in (1, 0):
                    n += 1
                    if h == 24 and us:
                        continue
                    f = ((y, m, d, None, None) if form
                         else M.long_form(y) + (m, d))
                    cls = MyDatetime if n % 4 == 0 else bd.datetime
                    x = cls(*f, h, mi, s, us, z, fold=n // 2 % 2)
                    e = evaluate(x)
                    if (e.b_date, e.b_time, e.fold, e.is_short) != (
                            x.b_date, x.b_time, x.fold, x.is_short):
                        raise Fail(f"{x!r}: {e.b_date} {e.b_time} {e.fold}")
                    if zone_shape(e.tzinfo) != zone_shape(z):
                        raise Fail(f"{x!r}: zone {e.tzinfo!r}")


def p_times(h):
    for mi in range(60):
        for s in range(60):
            if h == 24 and (mi or s > 3):
                continue
            for us in (US if TIER != 'quick' else
                       (US[(mi + s) % 4], US[(mi + s + 1) % 4])):
                if h == 24 and us:
                    continue
                for fold in (0, 1):
                    x = (MyTime if s == 7 else bd.time)(h, mi, s, us,
                                                        fold=fold)
                    e = evaluate(x)
                    if (e.hour, e.minute, e.second, e.microsecond, e.fold
                            ) != (h, mi, s, us, fold) or e.tzinfo:
                        raise Fail(f"{x!r}: {e.fold}")


def p_aware_time(i):
    z = zones()[i]
    if z is None or z.utcoffset(None) % D.timedelta(minutes=1):
        return
    x = bd.time(1, 2, 3, 4, z)
    if repr(x).endswith(f"tzinfo={z})"):
        raise Fail("the zone is shown as str(zone)")
    e = evaluate(x)
    if zone_shape(e.tzinfo) != zone_shape(z):
        raise Fail(f"{x!r}: zone {e.tzinfo!r}")


def p_us(lo):
    for us in range(lo, lo + 1000):
        x = bd.time(1, 2, 3, us)
        y = bd.datetime(1, 10, 10, 3, 5, 1, 2, 3, us)
        if evaluate(x).microsecond != us or evaluate(y).microsecond != us:
            raise Fail(f"{us}")


def p_zones(i):
    z = zones()[i]
    if z is not None:
        e = evaluate(z)
        if zone_shape(e) != zone_shape(z):
            raise Fail(f"{z!r}: {zone_shape(z)} became {zone_shape(e)}")


def p_offset(mins):
    for name in (None, 'Z', "Ä'\"\n", ''):
        td = D.timedelta(minutes=mins)
        z = bd.timezone(td) if name is None else bd.timezone(td, name)
        e = evaluate(z)
        if zone_shape(e) != zone_shape(z):
            raise Fail(f"{z!r}: {zone_shape(z)} became {zone_shape(e)}")


def p_coords(case):
    lat, lon, zone, key = case
    z = bd.TZWithCoords(lat, lon, zone, key=key)
    e = evaluate(z)
    if zone_shape(e) != zone_shape(z) or e.coordinates != (lat, lon, zone):
        raise Fail(f"{z!r}: {zone_shape(z)} became {zone_shape(e)}")


def p_struct(t):
    y, m, d = t
    for form in (1, 0):
        f = (y, m, d, None, None) if form else M.long_form(y) + (m, d)
        for h in ((0, 0, 0), (23, 59, 1), (1, 2, 3)):
            s = bd.datetime(*f, *h).timetuple()
            e = evaluate(s)
            if tuple(e) != tuple(s) or e.short is not s.short:
                raise Fail(f"{s!r}: {tuple(e)}")


def build(tier):
    global TIER
    TIER = tier
    nz = len(zones())
    ys = [y for y in M.YEARS if y % (300 if tier == 'quick' else 20) == 0
          or y in (M.MINYEAR, M.MAXYEAR, -1, 0, 1, 361, 362)]
    return [
        Space('dates', p_dates, list(M.YEARS), 20,
              bound='all years; quick boundary days, thorough every day'),
        Space('datetimes', p_datetimes, [(y, z) for y in ys
                                         for z in range(nz)], 4,
              bound='boundary fields x zones'),
        Space('times', p_times, range(25), 1, bound='every second'),
        Space('times with a zone', p_aware_time, range(nz), 1,
              bound='all zones'),
        Space('microseconds', p_us,
              range(0, 10**6, 1000 if tier != 'quick' else 20000), 4,
              bound='thorough: every microsecond'),
        Space('zones', p_zones, range(nz), 2, bound='all zones'),
        Space('offsets', p_offset, range(-1439, 1440), 40,
              bound='every whole-minute offset, four names'),
        Space('places', p_coords,
              [(a, b, z, k) for a in (-89.5, 0, 0.0, 51.477928)
               for b in (-179.9, 0, 51.41) for z in (None, 0, 3.5, -12, 14.0)
               for k in (None, 'UTC', 'Asia/Tehran')], 8,
              bound='product of coordinates, zones, keys'),
        Space('structures', p_struct,
              [t for y in range(M.MINYEAR, M.MAXYEAR + 1,
                                60 if tier == 'quick' else 3)
               for t in M.boundary_days(y) if t not in M.GAP], 8,
              bound='boundary days of selected years x forms')]


if __name__ == '__main__':
    main('C28', build,
         ['The structures of aware values are left out: their text has no '
          'zone, as in the standard library.'],
         'product of boundary fields, forms, zones')
