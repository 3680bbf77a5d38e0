"""Badi and Gregorian dates convert into each other without loss."""
import datetime as D
import math
import _boot  # noqa: F401
from engine import Fail, Space, call, main, outcome, step
import astro as A
import model as M
import badidatetime as bd

BC = bd.BahaiCalendar()
TEHRAN = (35.69435, 51.288701, 3.5)
PLACES = (TEHRAN, (51.477928, -0.001545, 0.0), (55.0, 24.9, 2.0),
          (-33.87, 151.2, 10.0), (35.5894, -78.7792, -5.0),
          (21.3, -157.8, -10.0), (0.0, 0.0, 0.0), (-17.7, 179.9, 12.0),
          (-45.0, -179.9, -12.0))
TIMES = ((0, 0, 0, 500000), (6, 30, 15, 500000), (12, 0, 0, 250000),
         (17, 59, 59, 500000), (23, 30, 30, 750000), (3, 0, 59, 125000))
TIER = 'quick'
TOL = .3 * 60                          # seconds, reference sunset
NEAR = .006                            # seconds, round trip


def secs(t):
    t = tuple(t) + (0,) * (4 - len(t))
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


def greg(n):
    """Proleptic Gregorian date of Rata Die n (also year 0 and before)."""
    if n < 1:
        d = D.date.fromordinal(n + 146097)
        return d.year - 400, d.month, d.day
    d = D.date.fromordinal(n)
    return d.year, d.month, d.day


def rd_of(g):
    if g[0] < 1:
        return D.date(g[0] + 400, g[1], g[2]).toordinal() - 146097
    return D.date(g[0], g[1], g[2]).toordinal()


def days(y, i):
    sel = [d for d in M.boundary_days(y)
           if d not in M.GAP and d != (-261, 11, 9)]
    k = 7 if TIER == 'quick' else 1
    return [d for n, d in enumerate(sel) if (n + y + i) % k == 0
            or n in (0, len(sel) - 1) and i == 0 or d[1:] == (0, 5)]


def p_pair(case):
    y, i = case
    lat, lon, zone = PLACES[i]
    args = () if (i == 0 and y % 2) else (lat, lon, zone)
    for k, ymd in enumerate(days(y, i)):
        t = TIMES[(k + y) % len(TIMES)]
        rd = M.ordinal(*ymd)
        g = BC.gregorian_date_from_badi_date(ymd + t, *args, us=True)
        step()
        inst = (A.day_jd(rd, lat, lon) - 1721422.5) * 86400 + secs(t)
        if (len(g) != 7 or any(type(v) is not int for v in g)
                or not (0 <= g[3] < 24 and 0 <= g[4] < 60 and 0 <= g[5] < 60)):
            raise Fail(f"Gregorian date of {ymd + t} at {PLACES[i]}: {g}")
        got = rd_of(g) * 86400 + secs(g[3:])
        if abs(got - zone * 3600 - inst) > TOL:
            raise Fail(f"Gregorian date of {ymd + t} at {PLACES[i]}: {g}, "
                       f"{got - zone * 3600 - inst:.1f} s off")
        # Back: the argument is GMT.
        u = got - zone * 3600
        n, s = divmod(u, 86400)
        us = round(s * 1e6)
        sec = us // 1000000
        back = greg(int(n)) + (sec // 3600, sec // 60 % 60)
        if (k + y) % 2:
            back += (sec % 60, us % 1000000)
        else:
            back += (sec % 60 + us % 1000000 / 1e6,)
        if i % 2 == 0:
            b = BC.badi_date_from_gregorian_date(back, *args, us=True,
                                                 short=True)
            step()
            ok = b[:3] == ymd and abs(secs(b[3:]) - secs(t)) < NEAR
        else:
            b = BC.badi_date_from_gregorian_date(back, *args, us=True)
            step()
            ok = (b[:5] == M.long_form(y) + ymd[1:]
                  and abs(secs(b[5:]) - secs(t)) < NEAR)
        if not ok:
            raise Fail(f"{ymd + t} at {PLACES[i]} -> {g} -> GMT {back} -> {b}")
    outcome(f"place {i}")


def p_civil(case):
    """In Tehran the day starts on the evening of the model's civil day."""
    (y,) = case
    for ymd in days(y, 3):
        g = BC.gregorian_date_from_badi_date(ymd)
        step()
        if g[:3] != greg(M.ordinal(*ymd)) or not 16 <= g[3] <= 19:
            raise Fail(f"{ymd} starts on {g}, expected the evening of "
                       f"{greg(M.ordinal(*ymd))}")
        if len(g) != 6:
            raise Fail(f"fields of {g}")


def p_options(case):
    """us, short, trim, and rtd only change the presentation."""
    (y,) = case
    k = M.long_form(y)
    for ymd in ((y, 1, 1), (y, 0, M.ayyam(y)), (y, 10, 19), (y, 19, 19)):
        if M.ordinal(*ymd) == M.LAST_ORD:
            continue
        g = greg(M.ordinal(*ymd))          # 00:00 GMT, some 9 h after sunset
        g = greg(M.ordinal(*ymd) + 1) + (6, 0, 0)
        f = BC.badi_date_from_gregorian_date
        a = f(g, us=True, short=True)
        b = f(g, us=True)
        c = f(g, short=True)
        d = f(g)
        e = f(g, *TEHRAN, short=True, us=True, trim=True)
        r = f(g[:3] + (15,), short=True, rtd=True)
        q = f(g[:3] + (15,), rtd=True)
        step(7)
        if a[:3] != ymd or len(a) != 7 or b != k + a[1:] or e != a:
            raise Fail(f"forms of {g}: {a} {b} {e}")
        if c[:3] != ymd or abs(secs(c[3:]) - secs(a[3:])) > NEAR or (
                d != k + c[1:]):
            raise Fail(f"forms of {g}: {c} {d}")
        v = f(g[:5] + (4, 750000), us=True, short=True)
        w = f(g[:5] + (4.75,), us=True, short=True)
        step(2)
        if v != w or abs(secs(v[3:]) - secs(a[3:]) - 4.75) > NEAR:
            raise Fail(f"{g} 4.75 s later: {v} {w}, not 4.75 s after {a}")
        nxt = M.from_ordinal(M.ordinal(*ymd) + 1)
        if r != nxt or q[:5] != M.long_form(nxt[0]) + nxt[1:] or any(q[5:]):
            raise Fail(f"rounded day of {g[:3] + (15,)}: {r} {q}")
        x = BC.gregorian_date_from_badi_date(ymd + (1, 2, 3, 500000),
                                             us=True)
        z = BC.gregorian_date_from_badi_date(ymd + (1, 2, 3.5), us=False)
        w = BC.gregorian_date_from_badi_date(ymd + (1, 2, 3.5), *TEHRAN)
        step(3)
        if len(x) != 7 or len(z) != 6 or z != w or x[:5] != z[:5] or abs(
                secs(x[3:]) - secs(z[3:])) > NEAR:
            raise Fail(f"Gregorian forms of {ymd}: {x} {z} {w}")


def build(tier):
    global TIER
    TIER = tier
    every = tier == 'thorough'
    pair = [(y, i) for y in M.YEARS for i in range(len(PLACES))
            if every or (y + i) % 5 == 0 or i == 0 and y % 2 == 0
            or 150 < y < 220]
    opts = [(y,) for y in M.YEARS if every or y % 8 == 0 or y in (
        M.MINYEAR, M.MAXYEAR) or 170 < y < 200]
    return [
        Space('pair', p_pair, pair, 16),
        Space('civil', p_civil, [(y,) for y in M.YEARS], 16),
        Space('options', p_options, opts, 8),
    ]


if __name__ == '__main__':
    main('C06', build, bounds='all 3004 years, boundary days of each month, '
         'nine places, six times of day',
         assumptions=['sunset of lib/astro.py within 18 s',
                      'leap-year table data/leap_years.txt (decided by C03)',
                      'round trips within 6 ms (the library rounds to 2 ms)'])
