"""UTC offsets and time zones are applied consistently."""
import datetime as D
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TD = D.timedelta
TIER = 'quick'
DAY = 86400 * 10**6
GAPO = range(577725, 577735)
LO, HI = M.FIRST_ORD * DAY, (M.LAST_ORD + 1) * DAY - 1
BADIOFF = TD(hours=3, minutes=30)


class Mine(bd.datetime):
    """A user class."""


class Zone(bd.tzinfo):
    """A user zone; answers what it is told."""

    def __init__(self, off, dst=None, name=None):
        self.off, self.d, self.name = off, dst, name

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return self.d

    def tzname(self, dt):
        return self.name

    def fromutc(self, dt):
        if dt.tzinfo is not self or dt.fold:
            raise Fail(f"a zone is asked for the local time of {dt!r}")
        return dt + self.off


class Seasons(bd.tzinfo):
    """A user zone with summer time in months 4 to 10."""

    def dst(self, dt):
        return TD(hours=1) if 4 <= dt.month <= 10 else TD(0)

    def utcoffset(self, dt):
        return TD(hours=-5) + self.dst(dt)

    def tzname(self, dt):
        return 'SUM' if self.dst(dt) else 'WIN'

    def fromutc(self, dt):
        if dt.tzinfo is not self or dt.fold:
            raise Fail(f"a zone is asked for the local time of {dt!r}")
        x = dt + TD(hours=-5)
        return x + self.dst(x)


def name_of(u):
    """The name of an offset of u microseconds."""
    if u == 0:
        return 'UTC'
    s, us = divmod(abs(u), 10**6)
    t = f"UTC{'-' if u < 0 else '+'}{s // 3600:02d}:{s // 60 % 60:02d}"
    if s % 60 or us:
        t += f":{s % 60:02d}"
    return t + (f".{us:06d}" if us else '')


def us_of(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def hms(u):
    s, us = divmod(u % DAY, 10**6)
    return s // 3600, s // 60 % 60, s % 60, us


def fields(n, form):
    y, m, d = M.from_ordinal(n)
    return (y, m, d) if form else M.long_form(y) + (m, d)


def make(u, form, tz=None, cls=bd.datetime, fold=0):
    f = fields(u // DAY, form)
    if form:
        f += (None, None)
    return cls(*f, *hms(u), tzinfo=tz, fold=fold)


def usable(u):
    n = u // DAY
    return LO <= u <= HI and n not in GAPO and (
        M.from_ordinal(n)[0] not in M.FUDGE)


SOME = bd.datetime(181, 7, 9, None, None, 12, 30)
SOMEL = bd.datetime(1, 10, 10, 7, 9, 12, 30)


def zone_is(z, off, name, dst):
    for arg in (None, SOME, SOMEL):
        step(4)
        got = z.utcoffset(arg), z.tzname(arg), z.badioffset(arg), z.dst(arg)
        want = off, name, off - BADIOFF, dst
        if got != want:
            raise Fail(f"{z!r} for {arg!r}: {got}, expected {want}")
    for bad in (1, 'x', SOME.date(), SOME.time()):
        for f in (z.utcoffset, z.tzname, z.badioffset, z.fromutc):
            ok, r = call(f, bad)
            if ok or not isinstance(r, TypeError):
                raise Fail(f"{z!r}.{f.__name__}({bad!r}) gave {r!r}")


def offset(case):
    """One fixed offset, in microseconds."""
    (u,) = case
    td = TD(microseconds=u)
    z = bd.timezone(td)
    zone_is(z, td, name_of(u), None if u else TD(0))
    n = bd.timezone(td, 'Some name')
    zone_is(n, td, 'Some name', None)
    e = bd.timezone(td, '')
    if e.utcoffset(None) != td or e.tzname(None) != '':
        raise Fail(f"timezone({td!r}, '') is {e!r}")
    if u and str(z) != name_of(u) or str(n) != 'Some name':
        raise Fail(f"str of {z!r} is {str(z)}, of {n!r} {str(n)}")
    if u == 0 and z is not bd.UTC:
        raise Fail(f"timezone(timedelta(0)) is {z!r}")
    o = bd.timezone(TD(microseconds=u + (1 if u < 0 else -1)))
    if not z == n or z != n or hash(z) != hash(n) or z == o or not z != o:
        raise Fail(f"comparison of {z!r}, {n!r}, {o!r}")
    if z == 1 or z == td or not z != 'x':
        raise Fail(f"{z!r} equals something else")
    aware = bd.time(10, 20, 30, 40, tzinfo=z)
    dt = bd.datetime(181, 7, 9, None, None, 1, 2, 3, 4, tzinfo=z)
    lg = bd.datetime(1, 10, 10, 7, 9, 1, 2, 3, 4, tzinfo=z)
    for x in (aware, dt, lg):
        step(3)
        if (x.utcoffset() != td or x.tzname() != name_of(u)
                or x.dst() != (None if u else TD(0))):
            raise Fail(f"{x!r}: {x.utcoffset()}, {x.tzname()}, {x.dst()}")
        n = x.replace(tzinfo=None)
        if (n.utcoffset(), n.tzname(), n.dst()) != (None, None, None):
            raise Fail(f"{n!r}: {n.utcoffset()}, {n.tzname()}, {n.dst()}")
        if hasattr(x, 'badioffset') and (x.badioffset() != td - BADIOFF
                                         or n.badioffset() is not None):
            raise Fail(f"{x!r}: badioffset {x.badioffset()}")
    step()
    f = z.fromutc(dt)
    w = (M.ordinal(181, 7, 9) * 86400 + 3723) * 10**6 + 4 + u
    if (f.b_date, f.b_time) != (fields(w // DAY, True), hms(w)) or (
            f.tzinfo is not z):
        raise Fail(f"{z!r}.fromutc({dt!r}) is {f!r}")
    ok, r = call(z.fromutc, dt.replace(tzinfo=bd.BADI))
    if ok or not isinstance(r, ValueError):
        raise Fail(f"{z!r}.fromutc of another zone gave {r!r}")
    outcome('offset')


def refused(case):
    (k,) = case
    tests = {
        'large': [lambda s=s: bd.timezone(s) for s in
                  (TD(days=1), TD(days=-1), TD(days=1, microseconds=1),
                   TD(days=-1, microseconds=-1), TD.max, TD.min,
                   TD(hours=30))],
        'coords': [lambda h=h: bd.TZWithCoords(1.0, 2.0, h) for h in
                   (24, -24, 24.5, -1000, 1e9)],
    }
    kinds = {
        'type': [lambda x=x: bd.timezone(x) for x in
                 (1, 3.5, None, '+01:00', SOME)] + [
                     lambda x=x: bd.timezone(TD(hours=1), x) for x in
                     (1, None, b'x')] + [
                         lambda: bd.timezone()],
        'arg': [lambda x=x, c=c: c(x) for x in (1, 'UTC', 3.5, TD(0))
                for c in (SOME.astimezone,
                          lambda z: bd.datetime.fromtimestamp(0, z),
                          lambda z: bd.datetime.now(z),
                          lambda z: SOME.replace(tzinfo=z),
                          lambda z: bd.time(1, tzinfo=z),
                          lambda z: bd.datetime.combine(SOME.date(),
                                                        SOME.time(), z))],
    }
    for f in tests.get(k, []) + kinds.get(k, []):
        ok, r = call(f)
        if ok or not isinstance(r, ValueError if k in tests else TypeError):
            raise Fail(f"{k}: gave {r!r}")
    if k == 'zone':
        for off in (TD(days=1), TD(days=-1), TD(days=5)):
            for x in (SOME.replace(tzinfo=Zone(off)),
                      bd.time(1, tzinfo=Zone(off))):
                for f in (x.utcoffset, x.isoformat, lambda: hash(x)):
                    ok, r = call(f)
                    if ok or not isinstance(r, ValueError):
                        raise Fail(f"offset {off}: gave {r!r}")
        for off in (1, 'x', 2.5, 0, '', 0.0, False):
            for x in (SOME.replace(tzinfo=Zone(off)),
                      bd.time(1, tzinfo=Zone(off))):
                ok, r = call(x.utcoffset)
                if ok or not isinstance(r, TypeError):
                    raise Fail(f"offset {off!r}: gave {r!r}")
            for x in (SOME.replace(tzinfo=Zone(TD(0), off)),
                      bd.time(1, tzinfo=Zone(TD(0), off))):
                ok, r = call(x.dst)
                if ok or not isinstance(r, TypeError):
                    raise Fail(f"dst {off!r}: gave {r!r}")
        for nm in (1, b'x', 2.5, 0, b'', False):
            for x in (SOME.replace(tzinfo=Zone(TD(0), None, nm)),
                      bd.time(1, tzinfo=Zone(TD(0), None, nm))):
                ok, r = call(x.tzname)
                if ok or not isinstance(r, TypeError):
                    raise Fail(f"name {nm!r}: gave {r!r}")
        for x in (SOME, SOMEL, bd.time(1)):
            for tz in (None, Zone(None)):
                z = x.replace(tzinfo=tz)
                if (z.utcoffset(), z.dst(), z.tzname()) != (None,) * 3:
                    raise Fail(f"{z!r} without offset gives one")
                if x != z or not x == z or hash(x) != hash(z):
                    raise Fail(f"{x!r} differs from {z!r}")


def coords(case):
    """A zone with coordinates."""
    q, lat, lon, key = case
    h = None if q is None else q / 4
    z = bd.TZWithCoords(lat, lon, h, key=key)
    td = TD(hours=h or 0)
    zone_is(z, td, key or name_of(us_of(td)), TD(0))
    if z.coordinates != (lat, lon, h) or (z.lat, z.lon, z.zone) != (
            lat, lon, h) or z.key != (key or ''):
        raise Fail(f"{z!r}: {z.coordinates}, {z.key!r}")
    if str(z) != f"{lat}, {lon}, {h}" + (f", {key}" if key else ''):
        raise Fail(f"str({z!r}) is {str(z)}")
    p = bd.timezone(td)
    if z != p or hash(z) != hash(p):
        raise Fail(f"{z!r} differs from {p!r}")
    dt = SOME.replace(tzinfo=z)
    if dt.utcoffset() != td or dt.dst() != TD(0) or dt.tzinfo is not z:
        raise Fail(f"{dt!r}: {dt.utcoffset()}")
    outcome('coordinates')


OFFS = (0, 60, -60, 210, -210, 330, 345, 720, -720, 840, 1439, -1439, 1, -1,
        599, -599)
ZONES = [bd.timezone(TD(minutes=m)) for m in OFFS] + [
    bd.BADI, bd.UTC, bd.timezone.max, bd.timezone.min, bd.LOCAL,
    bd.timezone(TD(hours=-5), 'EST'), bd.TZWithCoords(35.5, -78.8, -5.0),
    bd.TZWithCoords(-17.7, 179.9, 13.0, key='Pacific/Fiji'),
    bd.timezone(TD(seconds=3723, microseconds=456789)),
    bd.timezone(-TD(seconds=3723, microseconds=456789)),
    Zone(TD(hours=2), TD(hours=1), 'user'), Zone(-TD(minutes=90)),
    bd.TZWithCoords(1.0, 2.0, None)]
NZ = len(ZONES)
TIMES = (0, 1, 5025 * 10**6 + 7, 43200 * 10**6 - 1, 43200 * 10**6,
         75600 * 10**6 + 999999, DAY - 1)


def off_us(z):
    return us_of(z.utcoffset(None))


def convert(u, form, za, zb, cls=bd.datetime, fold=0):
    d = make(u, form, za, cls, fold)
    before = repr(d)
    ok, r = call(d.astimezone, zb)
    v = u - off_us(za)                       # clock time in UTC
    w = v + off_us(zb)
    if za is zb:
        v = w = u
    if not (LO <= v <= HI and LO <= w <= HI):
        if ok or not isinstance(r, (OverflowError, ValueError)):
            raise Fail(f"{d!r}.astimezone({zb!r}) gave {r!r} outside the "
                       "calendar")
        outcome('outside')
        return
    if not ok:
        raise Fail(f"{d!r}.astimezone({zb!r}) raised "
                   f"{type(r).__name__}: {r}")
    if not usable(v) or not usable(w):
        note('skipped: known findings (fudge years, reform gap)')
        return
    want = fields(w // DAY, form), hms(w)
    if (r.b_date, r.b_time) != want or r.is_short is not form:
        raise Fail(f"{d!r}.astimezone({zb!r}) is {r!r}, expected {want}")
    if r.tzinfo is not zb or type(r) is not cls:
        raise Fail(f"{d!r}.astimezone({zb!r}) is {r!r}: zone or class")
    if r.utcoffset() != zb.utcoffset(None):
        raise Fail(f"{r!r}.utcoffset() is {r.utcoffset()!r}")
    if not r == d or r - d or hash(r) != hash(d.replace(fold=0)):
        raise Fail(f"{r!r} is not the instant of {d!r}")
    b = r.astimezone(za)
    step(4)
    if (b.b_date, b.b_time, b.is_short) != (d.b_date, d.b_time, form) or (
            b.tzinfo is not za):
        raise Fail(f"{d!r} to {zb!r} and back is {b!r}")
    ut = d.utctimetuple() if za is not zb else None
    wf = fields(v // DAY, True) + hms(v)[:3] if za is not zb else None
    if wf:
        f = M.long_form(wf[0])
        head = ((ut.tm_year,) if form else
                (ut.tm_kull_i_shay, ut.tm_vahid, ut.tm_year))
        if head != ((wf[0],) if form else f) or (
                ut.tm_mon, ut.tm_mday, ut.tm_hour, ut.tm_min,
                ut.tm_sec) != wf[1:] or ut.tm_isdst != 0:
            raise Fail(f"{d!r}.utctimetuple() is {ut!r}, expected {wf}")
        if ut.tm_yday != M.yday(*wf[:3]) or (
                ut.tm_wday != M.weekday(v // DAY)):
            raise Fail(f"{d!r}.utctimetuple() is {ut!r}: day of year or week")
    if repr(d) != before:
        raise Fail(f"{before} changed to {d!r}")
    outcome('converted')


def every_year(y):
    days = M.boundary_days(y)
    n = len(days)
    for k, i in enumerate(sorted({0, n - 1, (y * 7) % n} if TIER == 'quick'
                                 else range(n))):
        u = M.ordinal(*days[i]) * DAY + TIMES[(y + k) % len(TIMES)]
        if not usable(u):
            continue
        a = (y * 5 + k * 11) % NZ
        b = (a + 1 + (y + k * 3) % (NZ - 1)) % NZ
        convert(u, bool((y + k) & 1), ZONES[a], ZONES[b],
                Mine if y % 5 == 0 else bd.datetime, y % 3 == 0)


def pairs(case):
    """All pairs of zones."""
    a, b, ymd, t, form = case
    convert(M.ordinal(*ymd) * DAY + TIMES[t], form, ZONES[a], ZONES[b])


def ends(case):
    """The first and last instants of the calendar."""
    a, e, form = case
    z = ZONES[a]
    for h in (0, 1, 24, 25, 49):
        u = h * 3600 * 10**6
        u = HI - u if e else LO + u
        for zb in (bd.UTC, bd.timezone.max, bd.timezone.min):
            convert(u, form, z, zb)


def naive(case):
    """A naive datetime is read as time of the local place."""
    y, a = case
    ds = M.days_of(y)
    ymd = ds[(y * 37) % len(ds)]
    u = M.ordinal(*ymd) * DAY + TIMES[y % 6]
    if not usable(u - DAY) or not usable(u + DAY):
        return
    form = bool(y & 1)
    z = ZONES[a]
    d = make(u, form)
    r = d.astimezone(z)
    w = u - us_of(BADIOFF) + off_us(z)
    if (r.b_date, r.b_time) != (fields(w // DAY, form), hms(w)) or (
            r.tzinfo is not z) or r.is_short is not form:
        raise Fail(f"{d!r}.astimezone({z!r}) is {r!r}")
    r = d.astimezone()
    if (r.b_date, r.b_time, r.utcoffset()) != (d.b_date, d.b_time, BADIOFF):
        raise Fail(f"{d!r}.astimezone() is {r!r}")
    x = make(u, form, z).astimezone()
    w = u - off_us(z) + us_of(BADIOFF)
    step(3)
    if (x.b_date, x.b_time, x.utcoffset()) != (
            fields(w // DAY, form), hms(w), BADIOFF):
        raise Fail(f"{make(u, form, z)!r}.astimezone() is {x!r}")
    if d.utctimetuple()[-6:-3] != hms(u)[:3] and (
            d.utctimetuple().tm_hour, d.utctimetuple().tm_min,
            d.utctimetuple().tm_sec) != hms(u)[:3]:
        raise Fail(f"{d!r}.utctimetuple() is {d.utctimetuple()!r}")
    n = d.replace(tzinfo=Zone(None))
    r = n.astimezone(z)
    w = u - us_of(BADIOFF) + off_us(z)
    if (r.b_date, r.b_time) != (fields(w // DAY, form), hms(w)):
        raise Fail(f"{n!r}.astimezone({z!r}) is {r!r}")


def seasons(case):
    """Every hour around the changes of a user zone with summer time."""
    y, m, k, form = case
    z = Seasons()
    n = M.ordinal(y, m, 1)
    for h in range(-8, 16):
        v = n * DAY + (h * 3600 + k * 1200) * 10**6      # UTC
        d = make(v, form, bd.UTC)
        r = d.replace(fold=h % 2).astimezone(z)
        w = v - 5 * 3600 * 10**6
        s = 4 <= M.from_ordinal(w // DAY)[1] <= 10
        w += 3600 * 10**6 * s
        step(3)
        if (r.b_date, r.b_time) != (fields(w // DAY, form), hms(w)):
            raise Fail(f"{d!r}.astimezone() is {r!r}")
        s2 = 4 <= M.from_ordinal(w // DAY)[1] <= 10
        want = (TD(hours=-5 + s2), TD(hours=s2), 'SUM' if s2 else 'WIN')
        if (r.utcoffset(), r.dst(), r.tzname()) != want:
            raise Fail(f"{r!r}: {r.utcoffset()}, {r.dst()}, {r.tzname()}")
        if r.timetuple().tm_isdst != int(s2):
            raise Fail(f"{r!r}.timetuple() is {r.timetuple()!r}")
        if s == s2:
            b = r.astimezone(bd.UTC)
            if (b.b_date, b.b_time) != (d.b_date, d.b_time) or b != r:
                raise Fail(f"{r!r} is {b!r}, expected {d!r}")
    outcome('seasons')


def constants(case):
    for z, off, name in ((bd.UTC, TD(0), 'UTC'),
                         (bd.timezone.utc, TD(0), 'UTC'),
                         (bd.BADI, BADIOFF, 'Asia/Tehran'),
                         (bd.timezone.badi, BADIOFF, 'Asia/Tehran'),
                         (bd.timezone.min, TD(minutes=-1439), 'UTC-23:59'),
                         (bd.timezone.max, TD(minutes=1439), 'UTC+23:59'),
                         (bd.LOCAL, BADIOFF, 'UTC+03:30'),
                         (bd.timezone.local, BADIOFF, 'UTC+03:30')):
        c = hasattr(z, 'coordinates')
        zone_is(z, off, name, TD(0) if c else None)
    if bd.UTC is not bd.timezone.utc or bd.BADI is not bd.timezone.badi:
        raise Fail('two UTC or BADI zones')
    if bd.BADI.coordinates != bd.BADI_COORD or (
            bd.UTC.coordinates != bd.GMT_COORD):
        raise Fail(f"{bd.BADI.coordinates}, {bd.UTC.coordinates}")


def build(tier):
    global TIER
    TIER = tier
    q = tier == 'quick'
    mins = [m * 60 * 10**6 for m in range(-1439, 1440)]
    fine = [s for k in (1, 10**6, 59 * 10**6, 60 * 10**6, 3600 * 10**6,
                        12 * 3600 * 10**6, DAY) for j in (-1, 0, 1)
            for g in (1, -1) for s in [g * (k + j)] if abs(s) < DAY]
    fine += [] if q else [s * 10**6 for s in range(-86399, 86400, 7)]
    days = [(181, 1, 1), (-1, 19, 19), (-1000, 0, 4), (1000, 18, 19)]
    zz = range(NZ)
    return [
        Space('constants', constants, [(1,)]),
        Space('offsets', offset, [(u,) for u in sorted(set(mins + fine))],
              chunk=32, bound='every whole minute, boundary microseconds'),
        Space('refused', refused, [('large',), ('coords',), ('type',),
                                   ('arg',), ('zone',)]),
        Space('coordinates', coords,
              [(h, *p) for i, h in enumerate([None, *range(-95, 96)])
               for p in ((51.5, -0.1, None), (-33.9, 151.2, 'A/B'))] + [
                   (4, lat, lon, None) for lat in (-90, -1.5, 0, 90.0)
                   for lon in (-180, -0.001, 0.0, 179.99)], chunk=16),
        Space('conversion, every year', every_year, M.YEARS, chunk=16,
              bound='every year; quick: 3 boundary days'),
        Space('all pairs of zones', pairs,
              [(a, b, d, (a + b * 3 + i) % 7, bool((a + b + i) & 1))
               for a in zz for b in zz for i, d in enumerate(days)
               if not q or (a + b) % 4 == i], chunk=16,
              bound='all ordered pairs of the zones'),
        Space('ends', ends, [(a, e, f) for a in zz for e in (0, 1)
                             for f in (True, False)
                             if not q or (a + e + f) % 2], chunk=2),
        Space('naive', naive, [(y, (y * 3) % NZ) for y in
                               range(-1836, 1160, 23 if q else 1)], chunk=4),
        Space('seasons', seasons,
              [(y, m, k, bool((y + k) & 1)) for y in
               ((-300, 181) if q else range(-1800, 1161, 47))
               for m in (4, 11) for k in range(3)], chunk=1),
    ]


if __name__ == '__main__':
    main('C20', build,
         bounds='offsets: every minute; conversions: every year, all pairs '
                'of 29 zones',
         assumptions=['aware arithmetic is on the clock of 24-hour days '
                      '(pinned by the tests)',
                      'zones of user classes bring their own fromutc()'])
