"""POSIX timestamps identify the instant."""
import time as T
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import astro as A
import model as M
import badidatetime as bd

TIER = 'quick'
BC = bd.BahaiCalendar()
TEHRAN = (35.69435, 51.288701, 3.5)
PLACES = (TEHRAN, (51.477928, -0.001545, 0.0), (55.0, 24.9, 2.0),
          (-33.87, 151.2, 10.0), (35.5894, -78.7792, -5.0),
          (21.3, -157.8, -10.0), (0.0, 0.0, 0.0), (-17.7, 179.9, 12.0),
          (-45.0, -179.9, -12.0))
EPOCH = 2440585.5       # 1 January 1970 in the day count of the code
TOL = 20                # seconds, independent sunset
EPS = 3e-3              # seconds, the resolution of a converted time
GAP = {(-261, 11, d) for d in range(8, 20)} | {(-261, 12, 1)}
real_time = T.time


def start(ymd, place=TEHRAN):
    return (A.day_jd(M.ordinal(*ymd), *place[:2]) - EPOCH) * 86400


def secs(t):
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


def short(dt):
    if dt.is_short:
        return tuple(dt.b_date)
    k, v, y, m, d = dt.b_date
    return (M.short_year(k, v, y), m, d)


def check(ts, ymd, off, lg):
    """The datetime of ts is day ymd, off seconds after its sunset."""
    dt = bd.datetime.fromtimestamp(ts, short=not lg)
    step(2)
    if dt.is_short is lg:
        raise Fail(f"fromtimestamp({ts}, short={not lg}) gave {dt!r}")
    if short(dt) != ymd:
        raise Fail(f"fromtimestamp({ts}) gave {dt!r}, expected {ymd}")
    if off is not None and abs(secs(dt.b_time) - off) > TOL:
        raise Fail(f"fromtimestamp({ts}) gave {dt!r}, expected "
                   f"{off:.0f} s after sunset")
    if dt.tzinfo is not None:
        raise Fail(f"fromtimestamp({ts}) is not naive: {dt!r}")
    back = dt.timestamp()
    if abs(back - ts) > EPS:
        raise Fail(f"{dt!r}.timestamp() is {back}, made from {ts}")
    return dt


OFFS = (30.25, 3601, 19999.5, 43200, 61234.123456, 86400 - 180)


def every_year(y):
    ds = M.days_of(y)
    n = len(ds)
    ix = (range(n) if TIER == 'thorough' else
          {0, n - 1, (341, 342, n - 20, n - 19)[y % 4], (y * 61) % n})
    last = None
    for j, i in enumerate(sorted(ix)):
        ymd = ds[i]
        if ymd in GAP:
            continue
        s = start(ymd)
        for k in ((j + y) % 6, (j + y + 3) % 6):
            o = OFFS[k]
            dt = check(round(s, 3) + o, ymd, o, bool((y + j + k) & 1))
            if k == 2:
                step()
                d = bd.date.fromtimestamp(round(s, 3) + o,
                                          short=dt.is_short)
                if tuple(d.b_date) != tuple(dt.b_date) or (
                        type(d) is not bd.date):
                    raise Fail(f"date.fromtimestamp({s + o}) gave {d!r}, "
                               f"datetime {dt!r}")
        key = (M.ordinal(*short(dt)), secs(dt.b_time))
        if last and not key > last:
            raise Fail(f"{dt!r} does not come after the one before")
        last = key
        outcome('year')


def boundary(y):
    """A second around the sunset that starts a day."""
    ds = M.days_of(y)
    for i in ({(y * 53) % len(ds), 0} if TIER == 'quick' else
              range(0, len(ds), 7)):
        ymd = ds[i]
        n = M.ordinal(*ymd)
        if n == M.FIRST_ORD or ymd in GAP or M.from_ordinal(n - 1) in GAP:
            continue
        prev = M.from_ordinal(n - 1)
        s = BC.timestamp_from_badi_date(ymd)
        p = BC.timestamp_from_badi_date(prev)
        step(2)
        if abs(s - start(ymd)) > TOL:
            raise Fail(f"timestamp_from_badi_date({ymd}) is {s}, expected "
                       f"{start(ymd):.0f}")
        lg = bool((y + i) & 1)
        a = M.long_form(y) + ymd[1:] if lg else ymd
        if abs(bd.datetime(*a).timestamp() - s) > 1e-4:
            raise Fail(f"datetime{a}.timestamp() is "
                       f"{bd.datetime(*a).timestamp()}, expected {s}")
        last = None
        for k in (-200, -2, -.01, .01, 1, 150):
            ts = s + k
            if k < 0 and s - p > 86400 and ts - p > 86399.9:
                note('seconds after 24 hours (known finding)')
                continue
            dt = check(ts, prev if k < 0 else ymd, None, lg)
            t = secs(dt.b_time)
            want = k if k > 0 else ts - p
            if abs(t - want) > 2 * EPS:
                raise Fail(f"fromtimestamp({ts}) gave {dt!r}, "
                           f"{want} s after the start of the day")
            key = (M.ordinal(*short(dt)), t)
            if last and not key > last:
                raise Fail(f"{dt!r} of {ts} does not come after the one "
                           "before")
            last = key
        outcome('boundary')


def places(c):
    y, i = c
    pl = PLACES[i]
    ds = M.days_of(y)
    for k, ymd in enumerate((ds[0], ds[(y * 17 + i * 40) % len(ds)],
                             ds[-1])):
        if ymd in GAP or M.ordinal(*ymd) == M.FIRST_ORD:
            continue
        o = OFFS[(y + i + k) % 6]
        ts = round(start(ymd, pl), 2) + o
        step(4)
        r = BC.badi_date_from_timestamp(ts, *pl, us=True, short=True)
        if r[:3] != ymd or abs(secs(r[3:7]) - o) > TOL:
            raise Fail(f"badi_date_from_timestamp({ts}, {pl}) gave {r}, "
                       f"expected {ymd} {o} s")
        b = BC.timestamp_from_badi_date(r, *pl)
        if abs(b - ts) > EPS:
            raise Fail(f"timestamp_from_badi_date({r}, {pl}) is {b}, "
                       f"expected {ts}")
        lf = BC.badi_date_from_timestamp(ts, *pl, us=True)
        if lf != M.long_form(y) + r[1:]:
            raise Fail(f"long form of {ts} at {pl}: {lf}, short {r}")
        tz = bd.TZWithCoords(*pl)
        sh = bool((y + k) & 1)
        dt = bd.datetime.fromtimestamp(ts, tz, short=sh)
        want = r if sh else lf
        if tuple(dt.b_date) + tuple(dt.b_time) != want or (
                dt.tzinfo is not tz):
            raise Fail(f"fromtimestamp({ts}, TZWithCoords{pl}) gave {dt!r}, "
                       f"expected {want}")
        outcome(f"place {i}")


def clock(c):
    """now() and today() show the system clock."""
    y, sh = c
    ds = M.days_of(y)
    ymd = ds[(y * 29) % len(ds)]
    ts = round(start(ymd), 2) + OFFS[y % 6]
    T.time = lambda: ts
    try:
        a = bd.datetime.now(short=sh)
        b = bd.date.today(short=sh)
        tz = bd.TZWithCoords(*PLACES[4])
        e = bd.datetime.now(tz, short=sh)
    finally:
        T.time = real_time
    step(3)
    w = bd.datetime.fromtimestamp(ts, short=sh)
    if a != w or a.b_date != w.b_date or short(a) != ymd:
        raise Fail(f"now() at {ts} gave {a!r}, expected {w!r}")
    if tuple(b.b_date) != tuple(w.b_date) or type(b) is not bd.date:
        raise Fail(f"today() at {ts} gave {b!r}, expected {w!r}")
    w = bd.datetime.fromtimestamp(ts, tz, short=sh)
    if e.b_date != w.b_date or e.b_time != w.b_time or e.tzinfo is not tz:
        raise Fail(f"now(tz) at {ts} gave {e!r}, expected {w!r}")


def steady(c):
    """Seconds of one hour, one after the other."""
    y, h = c
    ds = M.days_of(y)
    ymd = ds[(y * 31 + 7) % len(ds)]
    s = round(start(ymd)) + h * 3600 + 60
    last = None
    for k in range(0, 3600, 45 if TIER == 'quick' else 5):
        ts = s + k
        if h == 23 and k > 3300:
            break
        dt = check(ts, ymd, ts - start(ymd), False)
        t = secs(dt.b_time)
        if last is not None and abs(t - last[1] - (ts - last[0])) > 2 * EPS:
            raise Fail(f"{dt!r} of {ts}: {t - last[1]} s after that of "
                       f"{last[0]}")
        last = ts, t


def long_days(y):
    bad = n = 0
    for ymd in M.boundary_days(y):
        nx = M.ordinal(*ymd) + 1
        p = BC.timestamp_from_badi_date(ymd)
        s = BC.timestamp_from_badi_date(M.from_ordinal(nx))
        if s - p < 86402:
            continue
        n += 1
        ts = (s + p + 86400) / 2
        dt = bd.datetime.fromtimestamp(ts)
        step(3)
        if dt.b_date != ymd:
            if dt.b_date != M.from_ordinal(nx) or secs(dt.b_time) > s - p:
                raise Fail(f"fromtimestamp({ts}) gave {dt!r}")
            bad += 1
    if bad:
        raise Fail("the time after 24:00 of long days is shown as the start "
                   "of the next day")


def refused(c):
    (t,) = c
    if t == 'nan':
        t = float('nan')
    elif t == 'inf':
        t = float('inf')
    elif t == '-inf':
        t = float('-inf')
    for f in (bd.datetime.fromtimestamp, bd.date.fromtimestamp):
        ok, r = call(f, t)
        if ok:
            raise Fail(f"fromtimestamp({t!r}) gave {r!r}")


def build(tier):
    global TIER
    TIER = tier
    q = tier == 'quick'
    lim = 200
    ends = [(x,) for x in (start((1161, 19, 19)) + 86400 * 400,
                           start((-1842, 1, 1)) - 86400 * 400,
                           1e13, -1e13, 1e18, -1e18, 'nan', 'inf', '-inf',
                           '0x', None)]
    return [
        Space('every year', every_year, M.YEARS, chunk=16,
              bound='every year; quick: 4 days x 2 times, thorough: every '
                    'day'),
        Space('sunsets', boundary, M.YEARS[::1 if not q else 2] if q else
              M.YEARS, chunk=8, bound='instants around sunsets'),
        Space('places', places,
              [(y, i) for y in M.YEARS for i in range(9)
               if (y + i * 7) % (lim if q else 9) == 0
               or y in (-1841, 1, 126, 1161)], chunk=4),
        Space('clock', clock, [(y, b) for y in range(-1800, 1161, 61)
                               for b in (True, False)], chunk=4),
        Space('steady', steady,
              [(y, h) for y in ((-500, 126, 182, 900) if q else
                                range(-1800, 1161, 97))
               for h in range(24) if not q or (y + h) % 3 == 0], chunk=1),
        Space('long days', long_days, [-1000, 1, 126, 182, 1000], chunk=1),
        Space('refused', refused, ends, chunk=2),
    ]


if __name__ == '__main__':
    main('C19', build, bounds='all years; instants around sunset, midday and '
                              'midnight; nine places',
         assumptions=['sunset of lib/astro.py within 20 s',
                      'times have a resolution of 3 ms',
                      'the 10 days of the reform gap are left to C04',
                      'aware datetime.timestamp() uses clock arithmetic, '
                      'pinned by the tests'])
