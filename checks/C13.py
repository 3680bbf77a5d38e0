"""Pickling and copying give back the same value."""
import copy
import datetime as D
import itertools
import pickle
import zoneinfo
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TIER = 'quick'
PROTOS = range(pickle.HIGHEST_PROTOCOL + 1)
US = (0, 1, 255, 256, 257, 65535, 65536, 65537, 999999)


class MyDate(bd.date):
    """A user class."""


class MyTime(bd.time):
    """A user class."""


class MyDatetime(bd.datetime):
    """A user class."""


bd.set_local_coordinates(51.5, -0.5)
LOCAL0 = bd.LOCAL        # no offset, no name, in the zone UTC
bd.set_local_coordinates()


def zones():
    std = zoneinfo.ZoneInfo('Europe/London') if HAVE_ZI else None
    z = [None, bd.UTC, bd.BADI, bd.LOCAL,
         bd.timezone(D.timedelta(hours=5, minutes=30)),
         bd.timezone(D.timedelta(hours=-9, minutes=-1), 'name'),
         bd.timezone.max, bd.timezone.min,
         bd.timezone(D.timedelta(seconds=1, microseconds=-1)),
         bd.timezone(D.timedelta(0), 'zero'), bd.timezone(D.timedelta(0), ''),
         LOCAL0,
         bd.TZWithCoords(1.5, -20.25, 2.5), bd.TZWithCoords(-1, 2, None),
         bd.TZWithCoords(51.5, 0.0, 0, key='Europe/London')]
    if std:
        z.append(bd.TZWithCoords.fromzoneinfo(std, 51.5, -0.1, 0))
    return z


try:
    zoneinfo.ZoneInfo('Europe/London')
    HAVE_ZI = True
except Exception:  # no zone data here
    HAVE_ZI = False


def date_shape(x):
    f = ((x.kull_i_shay, x.vahid) if not x.is_short else ())
    return (type(x), x.is_short, f, x.year, x.month, x.day, x.b_date,
            x.isoformat(), str(x))


def time_shape(x, fold=True):
    return (type(x), x.hour, x.minute, x.second, x.microsecond,
            x.fold if fold else None, x.isoformat())


def dt_shape(x, fold=True):
    f = ((x.kull_i_shay, x.vahid) if not x.is_short else ())
    return (type(x), x.is_short, f, x.year, x.month, x.day, x.b_date,
            x.b_time, x.hour, x.minute, x.second, x.microsecond,
            x.fold if fold else None, x.isoformat(), str(x))


def zone_shape(z):
    if z is None:
        return None
    c = getattr(z, 'coordinates', None)
    return (type(z), z.utcoffset(None), z.tzname(None), str(z), c,
            [getattr(z, a, None) for a in ('lat', 'lon', 'zone', 'key')],
            z.badioffset(None))


def copies(x):
    for p in PROTOS:
        s = pickle.dumps(x, p)
        ok, y = call(pickle.loads, s)
        if not ok:
            raise Fail(f"protocol {p} of {x!r}: {type(y).__name__}: {y}")
        yield f'protocol {p}', y, p > 3
    yield 'copy', copy.copy(x), True
    yield 'deepcopy', copy.deepcopy(x), True


def same(x, shape, what=None):
    before = shape(x)
    hx = hash(x)
    for how, y, fold in copies(x):
        if not (x == y and y == x) or x != y:
            raise Fail(f"{how} of {x!r} is {y!r}")
        a, b = shape(x, fold) if shape is not date_shape else before, (
            shape(y, fold) if shape is not date_shape else shape(y))
        if a != b:
            raise Fail(f"{how} of {x!r}: {a} became {b}")
        if hash(y) != hx:
            raise Fail(f"{how} of {x!r}: hash differs")
        if hasattr(x, 'tzinfo') and zone_shape(x.tzinfo) != zone_shape(
                y.tzinfo):
            raise Fail(f"{how} of {x!r}: zone became {y.tzinfo!r}")
    if shape(x) != before:
        raise Fail(f"{x!r} changed")
    outcome(type(x).__name__)


def p_dates(y):
    days = (M.days_of(y) if TIER != 'quick' else
            [(y, 1, 1), (y, 0, M.ayyam(y)), (y, 19, 19),
             (y, y % 18 + 1, y % 19 + 1)])
    for i, (y, m, d) in enumerate(days):
        cls = MyDate if i % 3 == 0 else bd.date
        same(cls(y, m, d), date_shape)
        same(cls(*M.long_form(y), m, d), date_shape)


def p_datetimes(case):
    y, zi = case
    z = zones()[zi]
    n = 0
    for m, d in ((1, 1), (0, 4), (19, 19)):
        for us in US:
            n += 1
            for form in (1, 0):
                f = ((y, m, d, None, None) if form
                     else M.long_form(y) + (m, d))
                cls = MyDatetime if n % 4 == 0 else bd.datetime
                t = ((0, 0, 0), (23, 59, 59), (7, 1, 30))[n % 3]
                same(cls(*f, *t, us, z, fold=(n + form) % 2), dt_shape)


def p_seconds(h):
    for m in range(60):
        for s in range(60):
            us = US[(h + m + s) % len(US)]
            if h == 24 and (m or s > 3 or us):
                continue
            x = bd.time(h, m, s, us, fold=(m + s) % 2)
            for p in (2, 5):
                y = pickle.loads(pickle.dumps(x, p))
                step()
                if time_shape(x, p > 3) != time_shape(y, p > 3) or x != y:
                    raise Fail(f"protocol {p} of {x!r} is {y!r}")
            w = bd.datetime(181, 0, 1, None, None, h, m, s, us,
                            fold=(m + s) % 2)
            y = pickle.loads(pickle.dumps(w))
            if dt_shape(w) != dt_shape(y) or w != y:
                raise Fail(f"{w!r} became {y!r}")


def p_times(zi):
    z = zones()[zi]
    for h, m, s in ((0, 0, 0), (23, 59, 59), (12, 1, 30), (24, 0, 0),
                    (24, 0, 3)):
        for us in US:
            if h == 24 and us:
                continue
            off = z.utcoffset(None) if z is not None else None
            if off and off % D.timedelta(minutes=1):
                continue     # such times have no hash
            for fold in (0, 1):
                for cls in (bd.time, MyTime):
                    same(cls(h, m, s, us, z, fold=fold), time_shape)


def p_us(lo):
    for us in range(lo, lo + 1000):
        x = bd.time(1, 2, 3, us)
        y = pickle.loads(pickle.dumps(x))
        w = bd.datetime(1, 10, 10, 3, 5, 1, 2, 3, us)
        v = pickle.loads(pickle.dumps(w))
        step(2)
        if y.microsecond != us or x != y or v.microsecond != us or v != w or (
                v.b_time != w.b_time):
            raise Fail(f"microsecond {us}: {y!r} {v!r}")


def p_offset(mins):
    for name in (None, 'Z', 'Ä', ''):
        td = D.timedelta(minutes=mins)
        z = bd.timezone(td) if name is None else bd.timezone(td, name)
        same_zone(z)


def same_zone(z):
    for how, y, _ in copies(z):
        if y != z or hash(y) != hash(z) or zone_shape(y) != zone_shape(z):
            raise Fail(f"{how} of {z!r}: {zone_shape(z)} became "
                       f"{zone_shape(y)}")
    outcome(type(z).__name__)


def p_coords(case):
    lat, lon, zone, key = case
    z = bd.TZWithCoords(lat, lon, zone, key=key)
    same_zone(z)
    for y in (copy.copy(z), pickle.loads(pickle.dumps(z))):
        if y.coordinates != (lat, lon, zone):
            raise Fail(f"{case} became {y.coordinates}")
        if y.dst(None) != z.dst(None):
            raise Fail(f"{case} dst")


def p_zones(i):
    z = zones()[i]
    if z is not None:
        same_zone(z)
        for x in (bd.datetime(181, 9, 1, tzinfo=z),
                  bd.datetime(181, 2, 1, tzinfo=z)):
            for how, y, _ in copies(x):
                if (x.utcoffset(), x.dst(), x.tzname()) != (
                        y.utcoffset(), y.dst(), y.tzname()):
                    raise Fail(f"{how} of {x!r} is {y!r}")
                step()


def p_struct(case):
    y, m, d = case
    for form in (1, 0):
        f = (y, m, d, None, None) if form else M.long_form(y) + (m, d)
        for z in zones()[:7]:
            t = bd.datetime(*f, 23, 59, 1, tzinfo=z).timetuple()
            for how, u, _ in copies(t):
                if type(u) is not type(t) or tuple(u) != tuple(t) or (
                        u.short is not t.short or repr(u) != repr(t)):
                    raise Fail(f"{how} of {t!r} is {u!r}")
    c = bd.date(y, m, d).isocalendar()
    for how, u, _ in copies(c):
        if tuple(u) != tuple(c) or u != c or hash(u) != hash(c):
            raise Fail(f"{how} of {c!r} is {u!r}")
    outcome('structures')


# ------------------------------------------------------- states that are wrong
STATES = {
    'date short': (bd.date, bd.date(182, 0, 5).__reduce__()[1][0]),
    'date short neg': (bd.date, bd.date(-1842, 19, 19).__reduce__()[1][0]),
    'date long': (bd.date, bd.date(1, 10, 11, 0, 5).__reduce__()[1][0]),
    'date long neg': (bd.date, bd.date(-5, 18, 1, 3, 5).__reduce__()[1][0]),
    'time': (bd.time, bd.time(12, 1, 30, 999999).__reduce_ex__(4)[1][0]),
    'time fold': (bd.time, bd.time(0, 0, 0, 0, fold=1).__reduce_ex__(4)[1][0]),
    'datetime short': (bd.datetime, bd.datetime(
        182, 0, 5, None, None, 1, 2, 3, 65537).__reduce_ex__(4)[1][0]),
    'datetime long': (bd.datetime, bd.datetime(
        1, 10, 11, 0, 5, 23, 59, 59, 999999,
        fold=1).__reduce_ex__(4)[1][0])}


def rebuilt(x):
    """The value built from the fields that x shows."""
    if isinstance(x, bd.time):
        return bd.time(x.hour, x.minute, x.second, x.microsecond, x.tzinfo,
                       fold=x.fold)
    if isinstance(x, bd.datetime):
        f = x.b_date + ((None, None) if x.is_short else ())
        return bd.datetime(*f, x.hour, x.minute, x.second, x.microsecond,
                           x.tzinfo, fold=x.fold)
    return bd.date(*x.b_date)


def try_state(cls, s, orig):
    ok, x = call(cls, s)
    if not ok:
        outcome('refused')
        return
    ok, y = call(rebuilt, x)
    if not ok:
        raise Fail(f"{cls.__name__}({s!r}) gave {x!r}, which cannot exist: "
                   f"{type(y).__name__}: {y}")
    shape = (time_shape if isinstance(x, bd.time) else
             dt_shape if isinstance(x, bd.datetime) else date_shape)
    if x != y or shape(x) != shape(y):
        raise Fail(f"{cls.__name__}({s!r}) gave {x!r}, its fields give {y!r}")
    b = s if isinstance(s, bytes) else s.encode('latin1')
    back = x.__reduce_ex__(4)[1][0]
    if back != b:
        raise Fail(f"{cls.__name__}({s!r}) gave {x!r} with state {back!r}")
    outcome('accepted' if b != orig else 'original')


def p_corrupt(case):
    name, i = case
    cls, s = STATES[name]
    for v in range(256):
        t = s[:i] + bytes([v]) + s[i + 1:]
        try_state(cls, t, s)
        try_state(cls, t.decode('latin1'), s)


def p_corrupt2(case):
    name, i, j, v = case
    cls, s = STATES[name]
    for w in range(256):
        t = bytearray(s)
        t[i], t[j] = v, w
        try_state(cls, bytes(t), s)


def p_length(case):
    name, n = case
    cls, s = STATES[name]
    t = (s + s)[:n]
    if n == len(s):
        return
    for u in (t, t.decode('latin1')):
        ok, x = call(cls, u)
        if ok:
            ok, y = call(rebuilt, x)
            raise Fail(f"{cls.__name__}({u!r}) gave {x!r}")
    outcome('length refused')


def p_badzone(i):
    for name in ('time', 'datetime short', 'datetime long'):
        cls, s = STATES[name]
        z = (1, 'UTC', 3.5, b'', (), D.timedelta(0))[i]
        ok, x = call(cls, s, z)
        if ok and z:
            raise Fail(f"{cls.__name__}({s!r}, {z!r}) gave {x!r}")


def build(tier):
    global TIER
    TIER = tier
    nz = len(zones())
    ys = [y for y in M.YEARS if y % (300 if tier == 'quick' else 10) == 0
          or y in (M.MINYEAR, M.MAXYEAR, -1, 0, 1, 361, 362)]
    lens = [(n, i) for n, (c, s) in STATES.items() for i in range(len(s))]
    pairs = []
    for n, (c, s) in STATES.items():
        if tier == 'quick' and not n.startswith('date '):
            continue
        pairs += [(n, i, j, v) for i, j in
                  itertools.combinations(range(len(s)), 2)
                  for v in range(256)
                  if tier != 'quick' or v % 5 == 0 or v < 24 or v > 250]
    return [
        Space('dates', p_dates, list(M.YEARS), 20,
              bound='all years; quick 4 days, thorough every day; both forms, '
                    'six protocols, copy, deepcopy'),
        Space('datetimes', p_datetimes, [(y, z) for y in ys
                                         for z in range(nz)], 4,
              bound='boundary fields x zones x protocols'),
        Space('seconds of the day', p_seconds, range(25), 1,
              bound='every second'),
        Space('times', p_times, range(nz), 1, bound='boundary times x zones'),
        Space('microseconds', p_us, range(0, 10**6, 1000 if tier != 'quick'
                                          else 10000), 4,
              bound='thorough: every microsecond'),
        Space('offsets', p_offset, range(-1439, 1440), 40,
              bound='every whole-minute offset, four names'),
        Space('places', p_coords,
              [(a, b, z, k) for a in (-89.5, 0, 0.0, 51.477928)
               for b in (-179.9, 0, 51.41) for z in (None, 0, 3.5, -12, 14.0)
               for k in (None, 'UTC', 'Asia/Tehran')], 8,
              bound='product of coordinates, zones, keys'),
        Space('zone objects', p_zones, range(nz), 2, bound='all zones'),
        Space('structures', p_struct,
              [t for y in (-1842, -261, 0, 1, 181, 182, 1161)
               for t in M.boundary_days(y) if t not in M.GAP], 8,
              bound='boundary days of seven years x forms x zones'),
        Space('one wrong byte', p_corrupt, lens, 1,
              bound='every position x all 256 values, bytes and str'),
        Space('two wrong bytes', p_corrupt2, pairs, 64,
              bound='date states: every two positions (thorough: all states, '
                    'all 65,536 values)'),
        Space('wrong length', p_length,
              [(n, k) for n in STATES for k in range(0, 16)], 8,
              bound='state lengths 0 to 15'),
        Space('wrong zone', p_badzone, range(6), 6, bound='six non-zones')]


if __name__ == '__main__':
    main('C13', build,
         ['Protocols below 4 drop fold, as in the standard library. '
          'IsoCalendarDate comes back as a plain equal tuple.'],
         'product of boundary fields and protocols; all one- and two-byte '
         'corruptions')
