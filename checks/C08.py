"""Sunset, sunrise, noon, and midday against an independent Sun."""
import datetime as D
import math
import _boot  # noqa: F401
from engine import Fail, Space, call, main, outcome, step
import astro as A
import model as M
import badidatetime as bd

BC = bd.BahaiCalendar()
TEHRAN = (35.69435, 51.288701, 3.5)
GMT = (51.477928, -0.001545, 0.0)
PLACES = (TEHRAN, GMT, (55.0, 24.9, 2.0), (-33.87, 151.2, 10.0),
          (35.5894, -78.7792, -5.0), (21.3, -157.8, -10.0), (0.0, 0.0, 0.0),
          (-17.7, 179.9, 12.0), (-45.0, -179.9, -12.0))
LATS = (-55, -40.5, -23.4, -0.5, 10, 35.7, 50, 60)
LONS = (-179.5, -120.25, -74, -15.1, 0.5, 51.3, 100, 151.2, 179.5)
TIER = 'quick'
TOL = .3                               # minutes


def mins(t):
    return t[0] * 60 + t[1] + t[2] / 60


def wrap(x, n):
    """Circular distance."""
    return abs((x + n / 2) % n - n / 2)


def p_grid(case):
    """Sunrise and sunset of one civil day over the globe."""
    gy, m, d, k = case
    rd = D.date(gy, m, d).toordinal()
    for i, lat in enumerate(LATS):
        for j, lon in enumerate(LONS):
            if TIER == 'quick' and (i + j + k) % 2:
                continue
            noon = rd + 1721425 - lon / 360
            tol = TOL / 1440 * (3 if abs(lat) > 52 else 1)
            s = A.sunset(rd, lat, lon)
            r = A.sunset(rd, lat, lon, rise=True)
            if s is None or r is None:
                continue
            gs = BC._sun_setting(noon, lat, lon)
            gr = BC._sun_rising(noon, lat, lon)
            step(2)
            if abs(gs - s) > tol or abs(gr - r) > tol:
                raise Fail(f"{gy}-{m:02}-{d:02} at {lat}, {lon}: sunrise off "
                           f"{(gr - r) * 1440:.2f} min, sunset off "
                           f"{(gs - s) * 1440:.2f} min")
            if not gr < gs < gr + 1:
                raise Fail(f"{gy}-{m}-{d} at {lat}, {lon}: {gr} {gs}")
            if k % 2 == 0:
                for h0 in (.5667, .125):
                    x = A.sunset(rd, lat, lon, h0)
                    y = A.sunset(rd, lat, lon, h0, rise=True)
                    a = BC._sun_setting(noon, lat, lon, offset=h0)
                    b = BC._sun_rising(noon, lat, lon, offset=h0)
                    step(2)
                    if abs(a - x) > tol or abs(b - y) > tol:
                        raise Fail(f"{gy}-{m}-{d} at {lat}, {lon} altitude "
                                   f"{h0}: off {(a - x) * 1440:.2f}, "
                                   f"{(b - y) * 1440:.2f} min")
    outcome(f"month {m}")


def p_moments(case):
    """All moments of one local civil day have the same sunrise and sunset,
    and those of the next day are about a day later."""
    gy, m, d = case
    rd = D.date(gy, m, d).toordinal()
    for i, lon in enumerate(range(-180, 181, 12)):
        lat = LATS[(i + rd) % 7]
        noon = rd + 1721425 - lon / 360
        s, r = BC._sun_setting(noon, lat, lon), BC._sun_rising(noon, lat, lon)
        if not r < noon < s or s - r > 1:
            raise Fail(f"{gy}-{m}-{d} at {lat}, {lon}: sunrise {r}, noon "
                       f"{noon}, sunset {s}")
        for f in ((-.49, -.3, -.1, .1, .3, .49) if TIER == 'thorough'
                  else (-.49, (-.3, -.1, .1, .3)[(i + d) % 4], .49)):
            for n in (0, 1, -1):
                a = BC._sun_setting(noon + f + n, lat, lon)
                b = BC._sun_rising(noon + f + n, lat, lon)
                step(2)
                tol = 1e-6 if not n else .005
                if abs(a - s - n) > tol or abs(b - r - n) > tol:
                    raise Fail(f"{gy}-{m}-{d} at {lat}, {lon}, {f:+} days "
                               f"from noon: sunset {a - s - n:+.6f}, sunrise "
                               f"{b - r - n:+.6f} days off")
    outcome(f"month {m}")


def p_transit(case):
    """The Sun culminates at the reference time (fraction of the UT day)."""
    gy, m, d = case
    rd = D.date(gy, m, d).toordinal()
    for lon in LONS:
        jd = rd + 1721424.5
        t = BC._sun_transit(jd, lon)
        step()
        f = (720 - 4 * lon - A.sun(jd + t)[1]) / 1440
        if wrap(t - f, 1) * 1440 > .4:
            raise Fail(f"transit on {gy}-{m}-{d} at {lon}: {t}, "
                       f"{wrap(t - f, 1) * 1440:.2f} min off")


def picks(y, k, n):
    sel = [d for d in M.boundary_days(y) if d not in M.GAP]
    return [d for j, d in enumerate(sel) if (j + k) % n == 0
            or d[1:] in ((0, 4), (19, 1))]


def p_utc_sunset(case):
    y, i = case
    lat, lon, zone = PLACES[i]
    args = () if i == 0 and y % 2 else (lat, lon, zone)
    for n, ymd in enumerate(picks(y, y + i, 12 if TIER == 'quick' else 2)):
        t = BC.utc_sunset(ymd if n % 2 else ymd + (5, 30, 0), *args)
        step()
        w = (A.day_jd(M.ordinal(*ymd), lat, lon) + .5 + zone / 24) % 1 * 1440
        if not (0 <= t[0] < 24 and 0 <= t[1] < 60 and 0 <= t[2] < 60):
            raise Fail(f"utc_sunset({ymd}, {args}) = {t}")
        if wrap(mins(t) - w, 1440) > TOL:
            raise Fail(f"utc_sunset({ymd}) at {PLACES[i]} = {t}, off "
                       f"{wrap(mins(t) - w, 1440):.2f} min")
    outcome(f"place {i}")


def p_midday(case):
    """Midday is half of the (Greenwich) day that starts on the date."""
    (y,) = case
    for ymd in picks(y, y, 8 if TIER == 'quick' else 1):
        if y == -261 and ymd[1] == 11:
            continue                    # the reform gap
        rd = M.ordinal(*ymd)
        half = (A.day_jd(rd + 1, *GMT[:2]) - A.day_jd(rd, *GMT[:2])) / 2
        m = BC.midday(ymd, _short=True)
        h = BC.midday(M.long_form(y) + ymd[1:], _short=False, hms=True)
        step(2)
        if abs(m - half) * 1440 > TOL or abs(mins(h) / 1440 - m) > 1e-6:
            raise Fail(f"midday of {ymd}: {m} {h}, expected {half:.6f}")


def p_length(case):
    """The length of a day is the distance of two sunsets."""
    y, i = case
    lat, lon, zone = PLACES[i]
    for ymd in picks(y, y + i, 16 if TIER == 'quick' else 4):
        rd = M.ordinal(*ymd)
        if abs(rd - A.REFORM) < 30:
            continue
        jd = math.floor(rd + 1721422.5 + .5)
        want = A.day_jd(rd + 1, lat, lon) - A.day_jd(rd, lat, lon)
        x = BC._day_length(jd, lat, lon, decimal=True)
        h = BC._day_length(jd, lat, lon)
        step(2)
        # In the west the integer JD belongs to the civil day before.
        if abs(x - want) * 1440 > TOL * 2:
            raise Fail(f"length of {ymd} at {PLACES[i]}: {x}, not {want}")
        if wrap(mins(h) - x * 1440, 1440) > .01 or h[0] not in (23, 24):
            raise Fail(f"length of {ymd} at {PLACES[i]}: {x} but {h}")


def build(tier):
    global TIER
    TIER = tier
    every = tier == 'thorough'
    cal = [(m, d) for m in range(1, 13) for d in (1, 11, 21)]
    gys = [*range(1, 3005, 25 if every else 125), 1582, 1844, 1900, 2024,
           3004]
    grid = [(gy, m, d, k + n) for n, gy in enumerate(gys)
            for k, (m, d) in enumerate(cal) if every or (k + n) % 3 == 0]
    trans = [(gy, m, d) for gy in gys for m, d in cal]
    us = [(y, i) for y in M.YEARS for i in range(len(PLACES))
          if every or (y + i) % 9 == 0]
    mid = [(y,) for y in M.YEARS if every or y % 4 == 0
           or y in (-1744, -1644, -1544, -1344, -1244, -1144, -944, -844,
                    -744, -544, -444, -344) or 100 < y < 250]
    ln = [(y, i) for y in M.YEARS for i in range(len(PLACES))
          if (every and (y + i) % 3 == 0) or (y + 7 * i) % 36 == 0]
    return [
        Space('grid', p_grid, grid, 2, bound='latitudes x longitudes x days'),
        Space('moments', p_moments, [
            (gy, m, d) for n, gy in enumerate(gys) for m, d in cal
            if (3 * n + m + d // 10) % 9 == 0 or every], 2,
            bound='31 longitudes x moments of three days'),
        Space('transit', p_transit, trans, 8),
        Space('utc-sunset', p_utc_sunset, us, 16),
        Space('midday', p_midday, mid, 8),
        Space('day-length', p_length, ln, 8),
    ]


if __name__ == '__main__':
    main('C08', build, bounds='8 latitudes x 9 longitudes x 36 days of the '
         'year x years 1 to 3004 in steps; every year at nine places',
         assumptions=['Sun of lib/astro.py within 18 s (54 s beyond 52 '
                      'degrees of latitude)', 'latitudes up to 60 degrees'])
