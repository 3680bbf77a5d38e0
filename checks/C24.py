"""Times of day convert between their numeric forms without loss."""
import itertools
import math
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import badidatetime as bd

BC = bd.BahaiCalendar()
GC = bd.GregorianCalendar()
TIER = 'quick'
MS = 2e-3          # hours are rounded to a millionth: 3.6 ms at most / 2
USC = (0, 1, 2, 9, 99, 248, 249, 250, 999, 1000, 1001, 4095, 33333, 99999,
       100000, 123456, 248999, 249000, 333333, 499999, 500000, 500001,
       654321, 666667, 899999, 900000, 999000, 999990, 999998, 999999)


def have(obj, name):
    """An internal helper may be renamed; the public forms remain."""
    if not hasattr(obj, name):
        note(f'no helper {name}')
        return None
    return getattr(obj, name)


def hms(s):
    return s // 3600, s // 60 % 60, s % 60


def fields(t, what, hours=24):
    h, m, s = t[:3]
    if not (0 <= h < hours and 0 <= m < 60 and 0 <= s < 60
            and h == int(h) and m == int(m)):
        raise Fail(f"{what} gave {t}: a field out of range")
    if len(t) > 3 and not (0 <= t[3] < 10**6 and t[3] == int(t[3])
                           and s == int(s)):
        raise Fail(f"{what} gave {t}: a field out of range")


def day_fraction(minute):
    """All seconds of a minute, to a fraction of the day and back."""
    to = have(BC, '_decimal_day_from_hms')
    fro = have(BC, '_hms_from_decimal_day')
    if not (to and fro):
        return
    for k in range(60):
        s = minute * 60 + k
        t = hms(s)
        for us in (USC[s % 3::3] if TIER == 'quick' else USC):
            f = to(*t, us)
            step(4)
            if abs(f * 86400 - s - us / 1e6) > 1e-9:
                raise Fail(f"{t} {us} us is {f} of a day")
            if us and abs(to(*t[:2], t[2] + us / 1e6) - f) > 1e-14:
                raise Fail(f"{t} {us} us: fractional seconds differ")
            if s + us / 1e6 > 86400 - MS:
                continue
            for d in (0, 19):
                b = fro(f + d)
                fields(b, f"time of day {f + d}")
                g = b[0] * 3600 + b[1] * 60 + b[2]
                if abs(g - s - us / 1e6) > MS:
                    raise Fail(f"day fraction {f + d} of {t} {us} us gave "
                               f"{b}")
                b4 = fro(f + d, us=True)
                fields(b4, f"time of day {f + d} with us")
                if abs(b4[0] * 3600 + b4[1] * 60 + b4[2] + b4[3] / 1e6
                       - g) > 2e-6:
                    raise Fail(f"day fraction {f + d}: {b} and {b4}")
    outcome('minute')


def seconds(minute):
    to = have(BC, '_seconds_from_dhms')
    fro = have(BC, '_dhms_from_seconds')
    tzd, tzf = have(BC, '_tz_decimal_from_dhms'), have(
        BC, '_tz_dhms_from_decimal')
    if not (to and fro and tzd and tzf):
        return
    for k in range(60):
        s = minute * 60 + k
        d, r = divmod(s, 86400)
        t = (d, *hms(r))
        zone = (s % 27 - 13) / 2
        step(6)
        if to(*t) != s:
            raise Fail(f"{t} is {to(*t)} seconds, expected {s}")
        if to(*t, zone=zone) != s + zone * 3600:
            raise Fail(f"{t} zone {zone} is {to(*t, zone=zone)} seconds")
        if fro(s) != t:
            raise Fail(f"{s} seconds are {fro(s)}, expected {t}")
        z = s + zone * 3600
        if 0 <= z < 2 * 86400 and fro(s, zone) != (
                int(z // 86400), *hms(int(z % 86400))):
            raise Fail(f"{s} seconds in zone {zone} are {fro(s, zone)}")
        for us in (USC[s % 3::3] if TIER == 'quick' else USC):
            x = to(*t, us)
            if abs(x - s - us / 1e6) > 1e-9:
                raise Fail(f"{t} {us} us is {x} seconds")
            b = fro(x, us=True)
            if b != t + (us,):
                raise Fail(f"{x} seconds are {b}, expected {t + (us,)}")
            b = fro(x)
            if b[:3] != t[:3] or abs(b[3] - t[3] - us / 1e6) > 1e-9:
                raise Fail(f"{x} seconds are {b}, expected {t}")
        f = tzd(*t)
        if abs(f - s / 86400) > 1e-15:
            raise Fail(f"{t} is {f} days")
        b = tzf(f)
        if abs(b[0] * 86400 + b[1] * 3600 + b[2] * 60 + b[3] - s) > 1e-9:
            raise Fail(f"{f} days are {b}, expected {t}")
    outcome('minute')


# Fractions of a second finer than a microsecond.
SUBUS = (4e-7, 6e-7, .4999996, .9999984, .9999994, .9999996, .99999999,
         1 - 2**-40)


def micro(c):
    """Splitting seconds: exact to the microsecond."""
    lo, hi = c
    f = have(BC, '_sec_microsec_from_seconds')
    if not f:
        return
    for us in range(lo, hi):
        for s in (0, 1, us % 60, 58, 59):
            step()
            r = f(s + us / 1e6)
            if r != (s, us):
                raise Fail(f"{s + us / 1e6!r} s gave {r}, expected "
                           f"{(s, us)}")
    for s in range(60):
        for x in SUBUS:
            step()
            r = f(s + x)
            if r[0] != s or not 0 <= r[1] <= 999999 or abs(
                    r[1] - x * 1e6) > 1.01 or type(r[1]) is not int:
                raise Fail(f"{s + x!r} s gave {r}")
    outcome('thousand microseconds')


def degrees(d):
    """All minutes (and seconds) of arc of a degree."""
    to, fro = have(BC, '_decimal_from_dms'), have(BC, '_dms_from_decimal')
    if not (to and fro):
        return
    for m in range(60):
        for s in ((0, 1, 29, 59, (m * 7 + d) % 60, 30.25, 59.999)
                  if TIER == 'quick' else (*range(60), 30.25, 59.999)):
            for pos, neg, words in (('N', 'S', ('LAT', 'lat', 'LATITUDE',
                                                'Lati')),
                                    ('E', 'W', ('LON', 'lon', 'longitude',
                                                'Long'))):
                if d > 90 and pos == 'N':
                    continue
                w = words[(d + m) % 4]
                for dr, sign in ((pos, 1), (neg, -1), (pos.lower(), 1),
                                 (neg.lower(), -1)):
                    step(2)
                    x = to(d, m, s, dr)
                    v = sign * (d + m / 60 + s / 3600)
                    if abs(x - v) > 1e-12:
                        raise Fail(f"{d} {m} {s} {dr} is {x}")
                    a, b, c, e = fro(x, w)
                    if not (0 <= b <= 59 and -1e-6 < c < 60 + 1e-6) or abs(
                            a + b / 60 + c / 3600 - abs(v)) > 1e-10:
                        raise Fail(f"{x} {w} is {a} {b} {c}")
                    if v and e != dr.upper():
                        raise Fail(f"{x} {w} points to {e}, not "
                                   f"{dr.upper()}")
    outcome('degree')


def hour_angle(minute):
    to, fro = have(BC, '_degrees_from_hms'), have(BC, '_hms_from_degrees')
    if not (to and fro):
        return
    for k in range(60):
        s = minute * 60 + k
        t = hms(s)
        x = to(*t)
        step(2)
        if abs(x - s / 240) > 1e-10:
            raise Fail(f"{t} is {x} degrees")
        b = fro(x)
        if abs(b[0] * 3600 + b[1] * 60 + b[2] - s) > 1e-6 or not (
                0 <= b[1] <= 59 and -1e-6 < b[2] < 60 + 1e-6):
            raise Fail(f"{x} degrees are {b}, expected {t}")


def badi_dates(minute):
    """The same through the dates of both calendars."""
    for k in ((0, 1, 30, 59) if TIER == 'quick' else range(60)):
        s = minute * 60 + k
        t = hms(s)
        us = USC[(s // 7) % len(USC)]
        step(6)
        d = BC.date_from_kvymdhms((1, 10, 10, 6, 9) + t + (us,))
        if d[:4] != (1, 10, 10, 6) or abs(
                (d[4] - 9) * 86400 - s - us / 1e6) > .05:
            raise Fail(f"{t} {us} us is {d}")
        if s < 86400 - 1:
            b = BC.kvymdhms_from_b_date(d)
            fields(b[5:], f"kvymdhms_from_b_date({d})")
            if b[:5] != (1, 10, 10, 6, 9) or abs(
                    b[5] * 3600 + b[6] * 60 + b[7] - s - us / 1e6) > .05:
                raise Fail(f"{d} is {b}, made from {t} {us} us")
            b = BC.kvymdhms_from_b_date(d, us=True)
            fields(b[5:], f"kvymdhms_from_b_date({d}, us=True)")
            h = BC.kvymdhms_from_b_date(d, us=True, short=True)
            if h != (181, 6, 9) + b[5:]:
                raise Fail(f"{d} is {b} and {h}")
        full = BC.kvymdhms_from_b_date((1, 10, 10, 6, 9) + t + (us,),
                                       us=True)
        if full != (1, 10, 10, 6, 9) + t + (us,):
            raise Fail(f"{t} {us} us became {full}")
        g = GC.date_from_ymdhms((2024, 6, 12) + t)
        if g[:2] != (2024, 6) or abs((g[2] - 12) * 86400 - s) > 1e-5:
            raise Fail(f"Gregorian {t} is {g}")
        if s < 86400 - 1:
            b = GC.ymdhms_from_date(g)
            fields(b[3:], f"ymdhms_from_date({g})")
            if b[:3] != (2024, 6, 12) or abs(
                    b[3] * 3600 + b[4] * 60 + b[5] - s) > MS:
                raise Fail(f"{g} is {b}, made from {t}")
            b = GC.ymdhms_from_date(g, us=True)
            fields(b[3:], f"ymdhms_from_date({g}, us=True)")
            if abs(b[3] * 3600 + b[4] * 60 + b[5] + b[6] / 1e6 - s) > MS:
                raise Fail(f"{g} is {b} with us, made from {t}")
            b = GC.ymdhms_from_date((2024, 6, 12) + t + (us,), us=True)
            if b[:3] != (2024, 6, 12) or abs(
                    b[3] * 3600 + b[4] * 60 + b[5] + b[6] / 1e6 - s
                    - us / 1e6) > MS:
                raise Fail(f"Gregorian {t} {us} us is {b}")
    outcome('minute')


def trim(c):
    f = have(BC, '_trim_hms')
    if not f:
        return
    n = len(c)
    while n and c[n - 1] == 0:
        n -= 1
    if f(tuple(c)) != tuple(c[:n]):
        raise Fail(f"_trim_hms({c}) is {f(tuple(c))}")


def fractional(minute):
    """Fractional fields of a datetime become whole ones."""
    long = minute % 2
    a = (1, 10, 10, 0, 4) if long else (181, 0, 4, None, None)
    for k in range(60):
        s = minute * 60 + k
        h, m, x = hms(s)
        cases = [((s / 3600,), s * 10**6, 40)]
        for us in (USC[s % 5::5] if TIER == 'quick' else USC):
            cases += [((h, m + (x + us / 1e6) / 60), s * 10**6 + us, 1),
                      ((h, m, x + us / 1e6), s * 10**6 + us, 1)]
        for f in SUBUS:
            cases.append(((h, m, x + f), s * 10**6 + f * 1e6, 1.01))
        if not x:
            cases += [((float(h), float(m)), s * 10**6, 0),
                      ((h, m, 0.0), s * 10**6, 0)]
        for t, want, tol in cases:
            d = bd.datetime(*a, *t)
            step()
            f = d.hour, d.minute, d.second, d.microsecond
            if any(type(v) is not int for v in f):
                raise Fail(f"time {t} of a datetime gave {f}: not integers")
            fields(f, f"time {t} of a datetime")
            if d.b_time != f:
                raise Fail(f"{d!r}: fields {f}, b_time {d.b_time}")
            got = (f[0] * 3600 + f[1] * 60 + f[2]) * 10**6 + f[3]
            if abs(got - want) > tol:
                raise Fail(f"time {t} of a datetime gave {f}")
    for t in ((1.5, 1), (1.5, 0, 1), (1.5, 0, 0, 1), (1.5, 0, .5),
              (1, 1.5, 1), (1, 1.5, 0, 1), (1, 1, 1.5, 1)):
        ok, r = call(bd.datetime, *a, *t)
        if ok or not isinstance(r, ValueError):
            raise Fail(f"time {t} of a datetime gave {r!r}")


def refused(c):
    k, args = c
    f = have(BC, k)
    if f:
        ok, r = call(f, *args)
        if ok or not isinstance(r, AssertionError):
            raise Fail(f"{k}{tuple(args)} gave {r!r}")


def build(tier):
    global TIER
    TIER = tier
    q = tier == 'quick'
    day = range(1440)
    return [
        Space('day fractions', day_fraction, day, chunk=16,
              bound='every second of the day, 31 microsecond values '
                    '(quick: a third)'),
        Space('seconds', seconds, range(2880), chunk=16,
              bound='every second of two days, 31 microsecond values '
                    '(quick: a third)'),
        Space('microseconds', micro,
              [(i, i + 1000) for i in range(0, 10**6, 1000)], chunk=8,
              bound='every microsecond of five seconds'),
        Space('degrees', degrees, range(181), chunk=2,
              bound='every minute of arc'),
        Space('hour angles', hour_angle, day, chunk=16,
              bound='every second'),
        Space('dates', badi_dates, day, chunk=16,
              bound='four seconds of every minute' if q else
              'every second'),
        Space('fractional', fractional, day, chunk=16,
              bound='every second of the day as fraction of the hour, the '
                    'minute, and the second (quick: a fifth of the '
                    'microsecond values)'),
        Space('trim', trim,
              [t for n in range(6) for t in itertools.product(
                  (0, 1, 59), repeat=n)], chunk=64),
        Space('refused', refused, [
            ('_decimal_from_dms', (1, 2, 3, 'X')),
            ('_decimal_from_dms', (1, 2, 3, '')),
            ('_dms_from_decimal', (1.5, 'XYZ')),
            ('_dms_from_decimal', (1.5, 'LA')),
            ('_dms_from_decimal', (1.5, '')),
            ('_dms_from_decimal', (1.5, 'LATX')),
            ('_seconds_from_dhms', (0, 1, 2, 3.5, 7)),
            ('_decimal_day_from_hms', (1, 2, 3.5, 7))]),
    ]


if __name__ == '__main__':
    main('C24', build,
         bounds='every second of the day, every microsecond of five '
                'seconds, every minute of arc',
         assumptions=['day fractions hold 2 ms (hours are rounded to six '
                      'places), day fractions of dates 0.05 s',
                      'the last 2 ms of the day are left out (pinned: they '
                      'round to hour 24)'])
