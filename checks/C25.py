"""Week day, day of the year, and time structures tell the same day."""
import datetime as D
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd
from badidatetime._structures import struct_time

TD = D.timedelta
TIER = 'quick'
DAYS = ('Jalál', 'Jamál', 'Kamál', 'Fiḍāl', '`Idāl', 'Istijlāl',
        'Istiqlāl')
MON = ('Ayyám-i-Há', 'Bahá', 'Jalál', 'Jamál', "'Aẓamat", 'Núr', 'Raḥmat',
       'Kalimát', 'Kamál', "Asmá'", "'Izzat", 'Mashíyyat', "'Ilm", 'Qudrat',
       'Qawl', 'Masá’il', 'Sharaf', 'Sulṭán', 'Mulk', "'Alá'")
NAMES = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec',
         'tm_wday', 'tm_yday', 'tm_isdst', 'tm_zone', 'tm_gmtoff')
DAY = 86400 * 10**6


class Zone(bd.tzinfo):
    """A user zone; answers what it is told."""

    def __init__(self, off, dst=None, name=None):
        self.off, self.d, self.name = off, dst, name

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return self.d

    def tzname(self, dt):
        return self.name

    def __reduce__(self):
        return Zone, (self.off, self.d, self.name)


class Seasons(bd.tzinfo):
    """A user zone with summer time in months 4 to 10."""

    def dst(self, dt):
        return TD(hours=1) if 4 <= dt.month <= 10 else TD(0)

    def utcoffset(self, dt):
        return TD(hours=-5) + self.dst(dt)

    def tzname(self, dt):
        return 'SUM' if self.dst(dt) else 'WIN'


# name -> (zone, offset, dst flag, zone name) of a day in month m
def zones():
    h = TD(hours=1)
    out = {
        'none': (None, lambda m: (None, -1, None)),
        'utc': (bd.UTC, lambda m: (0, 0, 'UTC')),
        'badi': (bd.BADI, lambda m: (12600, 0, 'Asia/Tehran')),
        '+1': (bd.timezone(h), lambda m: (3600, -1, 'UTC+01:00')),
        '-9:30': (bd.timezone(-9.5 * h, 'X Y'),
                  lambda m: (-34200, -1, 'X Y')),
        'min': (bd.timezone.min, lambda m: (-86340, -1, 'UTC-23:59')),
        'max': (bd.timezone(TD(days=1) - TD(microseconds=1)), lambda m: (
            86399.999999, -1, 'UTC+23:59:59.999999')),
        'place': (bd.TZWithCoords(35.5, -78.7, -5.0, key='Ral'),
                  lambda m: (-18000, 0, 'Ral')),
        'user': (Zone(2 * h, h, 'U'), lambda m: (7200, 1, 'U')),
        'user0': (Zone(TD(0), TD(0), 'V'), lambda m: (0, 0, 'V')),
        'user-': (Zone(-3 * h, -h, 'W'), lambda m: (-10800, 1, 'W')),
        'silent': (Zone(None), lambda m: (None, -1, None)),
        'seasons': (Seasons(), lambda m: (
            (-14400, 1, 'SUM') if 4 <= m <= 10 else (-18000, 0, 'WIN'))),
    }
    return out


ZN = zones()


def struct_is(t, date, hms, wd, yd, dst, zone, off, what):
    """All items by position and by name."""
    want = (*date, *hms, wd, yd, dst, zone, off)
    step()
    if tuple(t) != want:
        raise Fail(f"{what} gave {tuple(t)}, expected {want}")
    names = NAMES
    if len(date) == 5:
        names = ('tm_kull_i_shay', 'tm_vahid') + NAMES
    got = tuple(getattr(t, n, '?') for n in names)
    if got != want:
        raise Fail(f"{what} gave the named items {got}, expected {want}")
    if t.short is not (len(date) == 3):
        raise Fail(f"{what}.short is {t.short!r}")


def ctext(wd, y, m, d, hms):
    return (f"{DAYS[wd]} {MON[m]} {d:2d} {hms[0]:02d}:{hms[1]:02d}:"
            f"{hms[2]:02d} {'-' if y < 0 else ''}{abs(y):04d}")


def day(ymd, kind):
    """kind: bit 0 long form, bit 1 datetime."""
    y, m, d = ymd
    n = M.ordinal(*ymd)
    wd, yd = M.weekday(n), M.yday(*ymd)
    a = M.long_form(y) + (m, d) if kind & 1 else ymd
    hms = (0, 0, 0)
    if kind & 2:
        hms = n % 24, n % 60, n // 7 % 60
        o = bd.datetime(*a, *(() if kind & 1 else (None, None)), *hms)
    else:
        o = bd.date(*a)
    if y in M.FUDGE:
        wd = (wd + 1) % 7       # known finding, reported by `advance`
    step(5)
    got = o.weekday(), o.isoweekday()
    if got != (wd, wd + 1):
        raise Fail(f"{o!r}: weekday, isoweekday are {got}, "
                   f"expected {wd}, {wd + 1}")
    if not {y - 1, y, y + 1} & set(M.FUDGE) or yd in range(8, 350):
        if (w := o.isocalendar()[2]) != wd + 1:
            raise Fail(f"{o!r}: isocalendar says week day {w}, not {wd + 1}")
    struct_is(o.timetuple(), a, hms, wd, yd, -1, None, None,
              f"{o!r}.timetuple()")
    if kind & 2 or TIER == 'thorough':
        if (c := o.ctime()) != (w := ctext(wd, *ymd, hms)):
            raise Fail(f"{o!r}.ctime() is {c!r}, expected {w!r}")
    if not kind & 2 or TIER == 'thorough':
        # (years before 1 have their own year directives: C17)
        if (s := o.strftime('%j %u %w')) != (w := f"{yd:03d} {wd + 1} {wd}"):
            raise Fail(f"{o!r} formats %j %u %w as {s!r}, expected {w!r}")
    outcome(f"week day {wd}")


def year(case):
    (y,) = case
    days = M.days_of(y)
    if TIER == 'quick':
        ix = {0, len(days) - 1, 341, 342, 341 + M.ayyam(y),
              342 + M.ayyam(y), (y * 19) % 342, (y * 19 - 1) % 342}
        days = [days[i] for i in sorted(ix)]
    for i, ymd in enumerate(days):
        for k in ([(i + y) % 4] if TIER == 'quick' else range(4)):
            day(ymd, k)


def advance(case):
    """The week day of the year's first day follows that of the last day of
    the year before."""
    (y,) = case
    a = bd.date(y - 1, 19, 19).weekday()
    b = bd.date(y, 1, 1).weekday()
    step(2)
    if b != (a + 1) % 7:
        raise Fail(f"week day {a} is followed by {b}")


TIMES = ((0, 0, 0, 0), (0, 0, 0, 999999), (23, 59, 59, 999999),
         (3, 30, 0, 0), (20, 29, 59, 1), (12, 5, 9, 500000), (1, 0, 0, 0))


def zoned(case):
    """timetuple, utctimetuple, and ctime of aware datetimes."""
    ymd, zn = case
    z, f = ZN[zn]
    y, m, d = ymd
    off, dst, name = f(m)
    n = M.ordinal(*ymd)
    wd, yd = M.weekday(n), M.yday(*ymd)
    for i, hms in enumerate(TIMES):
        for form in (1, 0):
            a = (ymd if form else M.long_form(y) + (m, d))
            pad = (None, None) if form else ()
            for fold in ((0, 1) if i == 4 else (0,)):
                o = bd.datetime(*a, *pad, *hms, tzinfo=z, fold=fold)
                struct_is(o.timetuple(), a, hms[:3], wd, yd, dst, name, off,
                          f"{o!r}.timetuple()")
                w = ctext(wd, *ymd, hms)
                if (c := o.ctime()) != w:
                    raise Fail(f"{o!r}.ctime() is {c!r}, expected {w!r}")
                u = (n * 86400 + hms[0] * 3600 + hms[1] * 60 + hms[2]
                     ) * 10**6 + hms[3] - round((off or 0) * 10**6)
                un, us = divmod(u, DAY)
                ok, t = call(o.utctimetuple)
                if not M.FIRST_ORD <= un <= M.LAST_ORD:
                    if ok or not isinstance(t, (OverflowError, ValueError)):
                        raise Fail(f"{o!r}.utctimetuple() gave {t!r} "
                                   "outside the calendar")
                    outcome('overflow')
                    continue
                if not ok:
                    raise Fail(f"{o!r}.utctimetuple() raised {t!r}")
                uy, um, ud = M.from_ordinal(un)
                s = us // 10**6
                struct_is(t, (uy, um, ud) if form else
                          M.long_form(uy) + (um, ud),
                          (s // 3600, s // 60 % 60, s % 60), M.weekday(un),
                          M.yday(uy, um, ud), 0, None, None,
                          f"{o!r}.utctimetuple()")
                outcome('other UTC day' if un != n else 'same UTC day')


def build_struct(case):
    """The structure holds the items it is given."""
    ymd, zn = case
    z, f = ZN[zn]
    y, m, d = ymd
    off, dst, name = f(m)
    for form in (1, 0):
        a = ymd if form else M.long_form(y) + (m, d)
        for hms in ((0, 0, 0), (23, 59, 59), (7, 8, 9)):
            for wd, yd in ((0, 1), (6, 366), (3, 77)):
                for flag in (-1, 0, 1):
                    t = struct_time(a + hms + (wd, yd, flag), z) if z else (
                        struct_time(a + hms + (wd, yd, flag)))
                    # A zone that knows about summer time decides.
                    struct_is(t, a, hms, wd, yd, flag if dst == -1 else dst,
                              name, off, f"struct_time({a + hms}, {zn})")


def struct_bad(case):
    """Wrong lengths, flags, and dates are refused."""
    what, arg = case
    if what == 'length':
        seq = tuple(range(1, arg + 1))[:-1] + (0,) if arg else ()
        bads = [seq]
    elif what == 'flag':
        bads = [(181, 1, 1, 0, 0, 0, 0, 1, arg),
                (1, 10, 10, 1, 1, 0, 0, 0, 0, 1, arg)]
    else:
        p, v = arg
        s = [181, 1, 1, 0, 0, 0, 0, 1, -1]
        g = [1, 10, 10, 1, 1, 0, 0, 0, 0, 1, -1]
        bads = []
        if p >= 0:
            s[p] = v
            bads.append(tuple(s))
            if p:
                g[p + 2] = v
                bads.append(tuple(g))
        else:
            g[p + 3] = v
            bads.append(tuple(g))
    for b in bads:
        ok, r = call(struct_time, b)
        if ok or not isinstance(r, (TypeError, ValueError, AssertionError)):
            raise Fail(f"struct_time({b}) gave {r!r}")
        outcome(type(r).__name__)


def build(tier):
    global TIER
    TIER = tier
    special = [y for y in (-1841, -1800, -262, -1, 0, 1, 2, 19, 20, 180, 181,
                           182, 361, 362, 541, 1160)]
    ds = [d for y in special for d in M.boundary_days(y)
          if d not in M.GAP]
    keep = [d for d in ds if tier == 'thorough' or d[1] in (0, 1, 4, 10, 19)]
    ends = [(-1842, 1, 1), (-1842, 1, 2), (1161, 19, 18), (1161, 19, 19)]
    zoned_cases = []
    for i, d in enumerate(keep):
        for j, zn in enumerate(ZN):
            if tier == 'thorough' or (i + j) % 5 == 0:
                zoned_cases.append((d, zn))
    zoned_cases += [(d, zn) for d in ends for zn in ZN]
    bad = [('length', n) for n in range(0, 16) if n not in (9, 11)]
    bad += [('flag', v) for v in (-2, 2, 3, 99, None, 'x', 0.5)]
    bad += [('field', (p, v)) for p, vs in (
        (0, (-1843 - 1, 1163, 5000)), (1, (-1, 20, 99)), (2, (0, 20, -1)),
        (3, (-1, 25)), (4, (-1, 60)), (5, (-1, 61)), (-2, (0, 20)),
        (-3, (-6, 5))) for v in vs]
    return [
        Space('advance', advance, [(y,) for y in M.YEARS][1:], chunk=128,
              bound='all 3003 year changes'),
        Space('days', year, [(y,) for y in M.YEARS], chunk=16,
              bound='every year; 8 days in rotating forms (thorough: every '
              'day, both forms, both classes)'),
        Space('zoned', zoned, zoned_cases, chunk=8,
              bound='boundary days x 13 zones x 8 times x both forms'),
        Space('structures', build_struct,
              [(d, zn) for d in ((181, 1, 1), (-1842, 19, 19), (1161, 0, 4),
                                 (0, 6, 10), (1, 4, 19)) for zn in ZN],
              chunk=4),
        Space('refused', struct_bad, bad, chunk=4),
    ]


if __name__ == '__main__':
    main('C25', build, [
        'Days of the years -1796, -1792, and -1788 (ordinals one too large, '
        'known finding of C01) are compared with the shifted week day.',
    ], bounds='all years; see the bound of each space')
