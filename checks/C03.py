"""Naw-Ruz: the year starts on the sunset-to-sunset day of the equinox."""
import math
import os
import _boot  # noqa: F401
from engine import HERE, Fail, Space, eq, main, note, outcome, step
import astro as A
import model as M
import datetime as D
import badidatetime as bd

TEHRAN = (35.69435, 51.288701, 3.5)
TOL = 0.3 / 1440          # days
PLACES = (TEHRAN, (51.477928, -0.001545, 0.0), (60.2, 24.9, 2.0),
          (-33.87, 151.2, 10.0), (35.5894, -78.7792, -5.0),
          (21.3, -157.8, -10.0), (0.0, 0.0, 0.0))
BC = bd.BahaiCalendar()
# Universal House of Justice, table of the years 172 to 221: leap years.
OFFICIAL = {174, 178, 182, 187, 191, 195, 199, 203, 207, 211, 216, 220}


def observed_start(y):
    """Rata Die of the civil day whose sunset starts year y, read from the
    Gregorian date the code gives for Naw-Ruz in Tehran."""
    g = BC.naw_ruz_g_date(y)
    if g[1] != 3 or not 1 <= g[2] < 32:
        raise Fail(f"naw_ruz_g_date({y}) = {g}")
    gy = g[0]
    base = D.date(gy + (400 if gy < 1 else 0), 3, 1).toordinal() - (
        146097 if gy < 1 else 0)
    step()
    return base + math.floor(g[2]) - 1, g[2] % 1


def rule(y):
    """(Rata Die by the equinox rule, minutes between equinox and sunset)."""
    gy = y + 1843
    e = A.eqx(gy) - A.dT(gy + .2) / 86400
    rd = math.floor(e - 1721424.5 + TEHRAN[1] / 360)
    ss = A.sunset(rd, *TEHRAN[:2])
    return (rd - 1 if e < ss else rd), (e - ss) * 1440


def p_equinox(case):
    (y,) = case
    got, frac = observed_start(y)
    want, margin = rule(y)
    if abs(margin) < 1.5:
        note('equinox within 90 s of sunset (either day allowed)')
        if abs(got - want) > 1:
            raise Fail(f"year {y} starts {got - want} days from the equinox")
    elif got != want:
        raise Fail(f"year {y} starts {got - want:+d} day(s) from the equinox "
                   f"rule (equinox {margin:+.1f} min after sunset)")
    outcome('equinox after sunset' if margin > 0 else 'before sunset')


def p_near(case):
    """Every year starts within a day of the equinox rule, and on the day the
    reference calendar has."""
    (y,) = case
    got, frac = observed_start(y)
    want, margin = rule(y)
    if abs(got - want) > 1:
        raise Fail(f"year {y} starts {got - want:+d} days from the equinox")
    if got != M.year_start(y):
        raise Fail(f"year {y} starts on Rata Die {got}, not "
                   f"{M.year_start(y)}")
    ss = A.day_jd(got, *TEHRAN[:2]) + TEHRAN[2] / 24 - 1721422.5
    if abs(got + frac - ss) > TOL:
        raise Fail(f"year {y} starts {(got + frac - ss) * 1440:.2f} min after "
                   "the sunset in Tehran")


def p_leap(case):
    """Leap years: the official table and the project's own year list."""
    (y,) = case
    jd = [BC.jd_from_badi_date((k, 1, 1)) for k in (y, y + 1)]
    step(2)
    n = round(jd[1] - jd[0])
    want = 366 if (y in OFFICIAL if 172 <= y <= 221 else M.leap(y)) else 365
    eq(n, want, f"length of year {y}")
    last = bd.date(y, 0, 4 + (n == 366))
    step()
    if last.day != 4 + (n == 366):
        raise Fail(f"intercalary days of {y}")
    outcome(f"length {n}")


def p_table(case):
    """contrib/charts/YearStart.csv as published: Gregorian date, leap."""
    y, gy, gd, leap = case
    g = BC.naw_ruz_g_date(y)
    step()
    if g[:2] != (gy, 3) or math.floor(g[2]) != math.floor(gd):
        raise Fail(f"naw_ruz_g_date({y}) = {g}, published {(gy, 3, gd)}")
    try:
        bd.date(y, 0, 5)
        got = True
    except AssertionError:
        got = False
    eq(got, leap, f"year {y} is a leap year")


def p_places(case):
    """Naw-Ruz and Ridvan begin at the local sunset, any place, any zone."""
    y, i = case
    lat, lon, zone = PLACES[i]
    for what, fn, n in (('Naw-Ruz', BC.naw_ruz_g_date, 0),
                        ('Ridvan', BC.first_day_of_ridvan_g_date, 31)):
        rd = M.year_start(y) + n
        g = fn(y, lat, lon, zone)
        h = fn(y, lat, lon, zone, hms=True)
        step(2)
        want = A.day_jd(rd, lat, lon) + zone / 24 - 1721422.5
        sh = 400 if g[0] < 1 else 0
        got = (D.date(g[0] + sh, g[1], math.floor(g[2])).toordinal()
               - (146097 if sh else 0) + g[2] % 1)
        if abs(got - want) > TOL:
            raise Fail(f"{what} of {y} at {PLACES[i]}: {g}, "
                       f"{(got - want) * 1440:.2f} min after sunset")
        sec = h[3] * 3600 + h[4] * 60 + h[5]
        if (h[:3] != (g[0], g[1], math.floor(g[2]))
                or abs(sec - g[2] % 1 * 86400) > .01 or not (
                    0 <= h[3] < 24 and 0 <= h[4] < 60 and 0 <= h[5] < 60)):
            raise Fail(f"{what} of {y}: hms {h} is not {g}")


def published():
    import re
    out = []
    for line in open(os.path.join(HERE, 'data', 'YearStart.csv')):
        m = re.match(r'\((\d+), 1, 1\)\|\((\d+), 3, ([\d.]+)\)\|(\d)\|.*\|'
                     r'(True|False)\|', line)
        if m:
            out.append((int(m[1]), int(m[2]), float(m[3]), m[5] == 'True'))
    assert len(out) > 200, len(out)
    return out


def build(tier):
    ys = [(y,) for y in M.YEARS]
    return [
        Space('equinox', p_equinox, [(y,) for y in range(-278, 542)], 16,
              bound='years -278 to 541, where the independent equinox '
              'calculation is accurate enough'),
        Space('near', p_near, ys, 16, bound='every year'),
        Space('leap', p_leap, ys, 16, bound='every year'),
        Space('published-table', p_table, published(), 16),
        Space('places', p_places,
              [(y, i) for y in M.YEARS for i in range(len(PLACES))
              ], 64),
    ]


if __name__ == '__main__':
    main('C03', build, bounds='all 3004 years of the calendar',
         assumptions=['equinox and sunset of lib/astro.py (Meeus, NOAA)',
                      'outside -278..541 the start is decided to a day by '
                      'the equinox and exactly by data/leap_years.txt'])
