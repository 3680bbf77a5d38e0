"""Gregorian conversions: JD, historic and exact mode, POSIX timestamps."""
import datetime as D
import math
import _boot  # noqa: F401
from engine import Fail, Space, call, eq, main, outcome, rejects, step
import badidatetime as bd

GC = bd.GregorianCalendar()
TIER = 'quick'
EXACT0 = 1721422.5                    # exact mode: JD of Rata Die 0
ML = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def gleap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def jdn(y, m, d, julian):
    """Integer day number (noon) of a civil date."""
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    n = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    return n - 32083 if julian else n - yy // 100 + yy // 400 - 32045


def historic(y, m, d):
    return jdn(y, m, d, (y, m, d) < (1582, 10, 15)) - .5


def hist_len(y, m):
    return ML[m - 1] + (m == 2 and (y % 4 == 0 if y < 1583 else gleap(y)))


def exact_len(y, m):
    return ML[m - 1] + (m == 2 and gleap(y))


def p_days(case):
    """Every day of the year, both modes and the historic reverse."""
    (y,) = case
    n = D.date(y, 1, 1).toordinal()
    for m in range(1, 13):
        for d in range(1, exact_len(y, m) + 1):
            j = GC.jd_from_gregorian_date((y, m, d), exact=True)
            if j != n + EXACT0:
                raise Fail(f"exact JD of {(y, m, d)} is {j}")
            n += 1
        for d in range(1, hist_len(y, m) + 1):
            if (y, m) == (1582, 10) and 5 <= d <= 14:
                continue
            want = historic(y, m, d)
            j = GC.jd_from_gregorian_date((y, m, d))
            r = GC.gregorian_date_from_jd(want)
            if j != want:
                raise Fail(f"historic JD of {(y, m, d)} is {j}, not {want}")
            if r != (y, m, d):
                raise Fail(f"historic date of JD {want} is {r}")
        step(3 * ML[m - 1])
    outcome(f"leap={gleap(y)},{y % 4 == 0}")


def edges(y, ln):
    out = []
    for m in range(1, 13):
        out += [(m, 1), (m, ln(y, m))]
        if m == 2:
            out.append((2, 28))
    return sorted(set(out))


def p_reverse(case):
    """Exact mode: JD to date with fractions at the ends of the months."""
    (y,) = case
    n0 = D.date(y, 1, 1).toordinal()
    for k, (m, d) in enumerate(edges(y, exact_len)):
        if TIER == 'quick' and (k + y) % 4 and (m, d) not in (
                (1, 1), (12, 31), (2, 29), (3, 1)):
            continue
        n = D.date(y, m, d).toordinal()
        for f in ((0, .25, .5, .75)[(k + y // 3) % 4],
                  ) if TIER == 'quick' else (0, .25, .5, .75, .9375):
            r = GC.gregorian_date_from_jd(n + EXACT0 + f, exact=True)
            step()
            if r != (y, m, d + f):
                raise Fail(f"exact date of JD {n + EXACT0 + f} is {r}, not "
                           f"{(y, m, d + f)}")
            h = GC.gregorian_date_from_jd(historic(y, m, d) + f)
            step()
            if h != (y, m, d + f) and not (y, m) == (1582, 10):
                raise Fail(f"historic date of {historic(y, m, d) + f}: {h}")


TIMES = [(0, 0, 0), (0, 0, 1), (0, 0, 59), (0, 59, 59), (1, 0, 0),
         (5, 59, 59), (6, 0, 0), (11, 59, 59), (12, 0, 0), (12, 0, 1),
         (13, 1, 1), (17, 30, 30), (18, 0, 0), (23, 0, 0), (23, 59, 0),
         (23, 59, 58), (23, 59, 59)]


def instant(y, m, d, rest, exact):
    day = historic(y, m, d) if not exact else jdn(y, m, d, False)
    rest = tuple(rest) + (0,) * (4 - len(rest))
    return day * 86400 + rest[0] * 3600 + rest[1] * 60 + rest[2] + (
        rest[3] / 1e6)


def p_times(case):
    """Date and time to JD and back, in hours, minutes, seconds (and us)."""
    y, m, d, exact = case
    base = (jdn(y, m, d, False) - .5 + (EXACT0 - 1721424.5) if exact
            else historic(y, m, d))
    for h, mi, s in TIMES:
        g = (y, m, d, h, mi, s)
        want = h * 3600 + mi * 60 + s
        j = GC.jd_from_gregorian_date(g, exact=exact)
        step()
        if abs((j - base) * 86400 - want) > 1e-4:
            raise Fail(f"JD of {g} exact={exact} is {j}")
        jd = base + (want + .25) / 86400  # .25 s: no rounding over a minute
        r = GC.gregorian_date_from_jd(jd, hms=True, exact=exact)
        u = GC.gregorian_date_from_jd(jd, hms=True, us=True, exact=exact)
        p = GC.gregorian_date_from_jd(jd, exact=exact)
        step(3)
        if r[:5] != g[:5] or abs(r[5] - s - .25) > 2e-3 or len(r) != 6:
            raise Fail(f"{g} exact={exact} -> {jd} -> {r}")
        if u[:6] != g or abs(u[6] - 250000) > 2000 or len(u) != 7:
            raise Fail(f"{g} exact={exact} -> {jd} -> {u}")
        if p[:2] != (y, m) or abs(p[2] - d - (want + .25) / 86400) > 1e-8:
            raise Fail(f"{g} exact={exact} -> {jd} -> {p}")
        f = GC.date_from_ymdhms(g) if exact or (m, d) != (2, 29) else None
        if f is not None:
            step()
            if f[:2] != (y, m) or abs(f[2] - d - want / 86400) > 1e-8:
                raise Fail(f"date_from_ymdhms({g}) = {f}")
            b = GC.ymdhms_from_date((y, m, d + (want + .25) / 86400))
            c = GC.ymdhms_from_date((y, m, d + (want + .25) / 86400),
                                    us=True)
            step(2)
            if b[:5] != g[:5] or abs(b[5] - s - .25) > 2e-3:
                raise Fail(f"ymdhms_from_date of {g} + .25 s = {b}")
            if c[:6] != g or abs(c[6] - 250000) > 2000:
                raise Fail(f"ymdhms_from_date(us) of {g} + .25 s = {c}")
            for n in range(4, 7):       # fewer fields, and microseconds
                k = g[:n] + (0,) * (6 - n)
                q = k[3] * 3600 + k[4] * 60 + k[5]
                e = GC.date_from_ymdhms(g[:n])
                v = GC.ymdhms_from_date(g[:n])
                w = GC.ymdhms_from_date(k + (250000,), us=True)
                j = GC.jd_from_gregorian_date(g[:n], exact=exact)
                z = k + (750000,)
                eu = GC.date_from_ymdhms(z)
                ju = GC.jd_from_gregorian_date(z, exact=exact)
                step(6)
                if e[:2] != (y, m) or abs(e[2] - d - q / 86400) > 1e-8:
                    raise Fail(f"date_from_ymdhms({g[:n]}) = {e}")
                if eu[:2] != (y, m) or abs((eu[2] - d) * 86400 - q
                                           - .75) > 1e-3:
                    raise Fail(f"date_from_ymdhms({z}) = {eu}")
                if abs((ju - base) * 86400 - q - .75) > 1e-4:
                    raise Fail(f"JD of {z} exact={exact} is {ju}")
                if abs((v[3] * 60 + v[4]) * 60 + v[5] - q) > 2e-3 or (
                        v[:3] != g[:3]):
                    raise Fail(f"ymdhms_from_date({g[:n]}) = {v}")
                if w[:6] != k or abs(w[6] - 250000) > 2000:
                    raise Fail(f"ymdhms_from_date({k}, 250000 us) = {w}")
                if abs((j - base) * 86400 - q) > 1e-4:
                    raise Fail(f"JD of {g[:n]} exact={exact} is {j}")


def p_bc(case):
    """Historic mode before the year 1: the proleptic Julian calendar."""
    (y,) = case
    for m, d in edges(y, hist_len):
        want = historic(y, m, d)
        if want < 0:
            continue
        eq(GC.jd_from_gregorian_date((y, m, d)), want, f"JD of {(y, m, d)}")
        for f in (0, .5, .75):
            eq(GC.gregorian_date_from_jd(want + f), (y, m, d + f),
               f"date of JD {want + f}")
        eq(GC.gregorian_year_from_jd(want + .25), y, f"year of JD {want}")


def p_rules(case):
    """Exact mode with both leap year rules, also before the year 1."""
    (y,) = case
    for alt in (False, True):
        leap = y % 4 == 0 and (y % 128 != 0 if alt else gleap(y))
        p = y - 1
        base = p * 365 + p // 4 - (
            p // 128 if alt else p // 100 - p // 400) + EXACT0
        for m, d in edges(y, lambda _, m: ML[m - 1] + (m == 2 and leap)):
            j = base + sum(ML[:m - 1]) + (m > 2 and leap) + d
            eq(GC.jd_from_gregorian_date((y, m, d), exact=True, alt=alt), j,
               f"JD of {(y, m, d)} alt={alt}")
            if TIER == 'quick' and (m, d) not in (
                    (12, 31),) + ((1, 1), (2, 28), (2, 29), (3, 1)
                                  ) * (y % 4 == 0 and (y % 100 == 0
                                                       or y % 64 == 0)):
                continue
            f = (0, .25, .5, .75)[(y + m) % 4] if (m, d) != (2, 29) else 0
            for f in {0, f}:
                eq(GC.gregorian_date_from_jd(j + f, exact=True, alt=alt),
                   (y, m, d + f), f"date of JD {j + f} alt={alt}")
            eq(GC.gregorian_date_from_jd(j, exact=True, alt=alt, hms=True),
               (y, m, d, 0, 0, 0), f"date and time of JD {j} alt={alt}")
        rejects(GC.jd_from_gregorian_date, (y, 2, 29 + leap), exact=True,
                alt=alt, what=f"{(y, 2, 29 + leap)} alt={alt}")
    outcome(f"{y % 4 == 0},{y % 100 == 0},{y % 128 == 0}")


def p_invalid(case):
    """Dates and times that do not exist are refused in both modes."""
    (y,) = case
    for exact, ln in ((True, exact_len), (False, hist_len)):
        for m in range(0, 14):
            if m in (0, 13):
                bad = [0, 1, 28]
            else:
                n = ln(y, m)
                bad = [0, n + 1, n + 2]
                ok, v = call(GC.jd_from_gregorian_date, (y, m, n),
                             exact=exact)
                if not ok:
                    raise Fail(f"{(y, m, n)} exact={exact} refused: {v}")
            if (y, m) == (1582, 10) and not exact:
                bad += range(5, 15)
            for d in bad:
                ok, v = call(GC.jd_from_gregorian_date, (y, m, d),
                             exact=exact)
                if ok:
                    raise Fail(f"{(y, m, d)} exact={exact} gave {v}")
        for g in ((y, -3, 1), (y, 3, -1), (y, -3, -1), (y, -1, 31),
                  (y, 3, -.5), (y, 12, 32), (y, 3, .5), (y + .5, 3, 1)):
            ok, v = call(GC.jd_from_gregorian_date, g, exact=exact)
            if ok:
                raise Fail(f"{g} exact={exact} gave {v}")
        for t in ((24, 0, 0), (0, 60, 0), (-1, 0, 0), (0, -1, 0), (0, 0, -1),
                  (5, 5, -.5), (0, 0, 61), (0, 0, 75), (23, 59, 86400)):
            ok, v = call(GC.jd_from_gregorian_date, (y, 3, 1, *t),
                         exact=exact)
            if ok:
                raise Fail(f"{(y, 3, 1, *t)} exact={exact} gave {v}")
        for g in ((y, 3, 1.5, 1, 0, 0), (y, 3, 1.5, 0, 1, 0),
                  (y, 3, 1.5, 0, 0, 1), (y, 3, 1, 1.5, 1, 0),
                  (y, 3, 1, 1.5, 0, 1), (y, 3, 1, 0, 1.5, 1)):
            ok, v = call(GC.jd_from_gregorian_date, g, exact=exact)
            if ok:
                raise Fail(f"{g} exact={exact} gave {v}")


EPOCH = D.datetime(1970, 1, 1)


def p_posix(case):
    """POSIX timestamps around the ends of months, any zone."""
    (y,) = case
    for k, (m, d) in enumerate(edges(y, exact_len)):
        if TIER == 'quick' and (k + y) % 5 and (m, d) not in (
                (1, 1), (12, 31), (2, 29)):
            continue
        for t in (0, 1, 43200, 86399, 86399.75, -1, -.5):
            for zone in ((0, 3.5, -11, 14, -3.5)[(k + y) % 5],):
                ts = (D.datetime(y, m, d) - EPOCH).total_seconds() + t
                try:
                    w = EPOCH + D.timedelta(seconds=ts + zone * 3600)
                except OverflowError:
                    continue
                want = (w.year, w.month, w.day, w.hour, w.minute, w.second,
                        w.microsecond)
                r = GC.posix_timestamp(ts, zone=zone, us=True)
                q = GC.posix_timestamp(ts, zone=zone)
                step(2)
                if r != want:
                    raise Fail(f"posix_timestamp({ts}, zone={zone}, us=True)"
                               f" = {r}, not {want}")
                if q != want[:5] + (want[5] + want[6] / 1e6,):
                    raise Fail(f"posix_timestamp({ts}, zone={zone}) = {q}")


def build(tier):
    global TIER
    TIER = tier
    ys = [(y,) for y in range(1, 3006)]
    big = [y for y in range(1, 3006) if tier == 'thorough' or y % 37 == 5
           or y % 100 == 0 or y in (1, 3005, 1581, 1582, 1583, 1970, 2024)]
    times = [(y, m, d, e) for y in big for e in (False, True)
             for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (7, 31), (10, 4),
                          (10, 15), (12, 31))
             if d <= (exact_len if e else hist_len)(y, m)]
    inv = [c for c in ys if tier == 'thorough' or c[0] % 4 == 0
           or c[0] % 10 == 3 or c[0] in (1, 1581, 1582, 1583, 3005)]
    return [
        Space('days', p_days, ys, 32, bound='every day of 3005 years'),
        Space('reverse', p_reverse, ys, 16),
        Space('times', p_times, times, 8),
        Space('bc', p_bc, [(y,) for y in range(-4712, 1)], 64),
        Space('rules', p_rules, [(y,) for y in range(-4712, 3006)], 64),
        Space('invalid', p_invalid, inv, 32),
        Space('posix', p_posix, ys, 16),
    ]


if __name__ == '__main__':
    main('C05', build, bounds='all days of the years 1 to 3005 in both modes, '
         'month ends of -4712 to 0 in both modes, month ends of all years '
         'with the 4|128 leap rule, all month lengths',
         assumptions=['datetime of the standard library',
                      'integer Julian-calendar day number formula'])
