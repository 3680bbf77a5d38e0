"""Badi dates and Julian days: one instant, one date, in order, anywhere."""
import itertools
import math
import _boot  # noqa: F401
from engine import Fail, Space, call, eq, main, note, outcome, step
import astro as A
import model as M
import badidatetime as bd

BC = bd.BahaiCalendar()
TEHRAN = (35.69435, 51.288701, 3.5)
PLACES = (TEHRAN, (51.477928, -0.001545, 0.0), (55.0, 24.9, 2.0),
          (-33.87, 151.2, 10.0), (35.5894, -78.7792, -5.0),
          (21.3, -157.8, -10.0), (0.0, 0.0, 0.0), (-17.7, 179.9, 12.0),
          (-45.0, -179.9, -12.0))
TOL = 0.3 / 1440
TIER = 'quick'


def summary(bad, what):
    if bad:
        items = sorted(bad.items())
        raise Fail(f"{what}: " + '; '.join(
            f"{k} on {len(v)} day(s), first {v[0]}, last {v[-1]}"
            for k, v in items))


def days(y):
    if TIER == 'thorough':
        return M.days_of(y)
    if -5 < y < 260 or y in (-261, -1842, 1161):
        return M.boundary_days(y)
    # Rotate through the months so that each year tests other days.
    out = [d for k, d in enumerate(M.boundary_days(y)) if (k + y) % 3 == 0
           or d[1] in (0, 19)]
    return out


def p_forward(case):
    """A day starts at the reference sunset of its civil day (Tehran), and
    successive days start about 24 hours apart."""
    (y,) = case
    bad, prev = {}, None
    for ymd in days(y):
        rd = M.ordinal(*ymd)
        ok, jd = call(BC.jd_from_badi_date, ymd)
        if not ok:
            bad.setdefault(f"raises {type(jd).__name__}", []).append(ymd[1:])
            prev = None
            continue
        off = jd - A.day_jd(rd, *TEHRAN[:2])
        if abs(off) > TOL:
            bad.setdefault('not at the reference sunset', []).append(
                ymd[1:] + (round(off * 1440, 2),))
        if prev and rd - prev[0] and abs(
                jd - prev[1] - (rd - prev[0])) > .0022 * (rd - prev[0]):
            bad.setdefault('step', []).append(ymd[1:])
        prev = rd, jd
    outcome(f"leap={M.leap(y)}")
    summary(bad, f"jd_from_badi_date in year {y}")


TIMES = ((0, 0, 0, 0), (0, 0, 1, 0), (0, 59, 59, 999999), (5, 45, 30, 250000),
         (11, 59, 59, 500000), (12, 0, 0, 0), (17, 30, 7, 1), (23, 40, 0, 0))


def total(t):
    t = tuple(t) + (0,) * (4 - len(t))
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


def p_instants(case):
    """jd(date, time) = jd(date) + time, and converting back gives the date
    and the time, at any place."""
    y, i = case
    lat, lon, zone = PLACES[i]
    sel = M.boundary_days(y)
    k = 5 if TIER == 'quick' else 1
    bad = {}
    for n, ymd in enumerate(sel):
        if (n + y + i) % k and not (n in (0, len(sel) - 1)):
            continue
        if ymd in M.GAP or ymd == (-261, 11, 9):
            continue
        t = TIMES[(n + y) % len(TIMES)]
        for hms in {t, (0, 0, 0, 0)}:
            sec = hms[2] + hms[3] / 1e6 if n % 2 else hms[2]
            arg = ymd + ((hms[0], hms[1], sec) if n % 2 else hms)
            jd0 = BC.jd_from_badi_date(ymd, lat, lon, zone)
            jd = BC.jd_from_badi_date(arg, lat, lon, zone)
            step(3)
            if abs(jd - jd0 - total(hms) / 86400) > 2e-9:
                raise Fail(f"jd of {arg} at {PLACES[i]} is {jd - jd0} days "
                           "after the start of the day")
            if abs(jd0 - A.day_jd(M.ordinal(*ymd), lat, lon)) > TOL:
                raise Fail(f"{ymd} at {PLACES[i]} starts at {jd0}")
            ok, r = call(BC.badi_date_from_jd, jd, lat, lon, zone, us=True,
                         short=True)
            if not ok:
                raise Fail(f"badi_date_from_jd({jd}, {PLACES[i]}) for {arg}: "
                           f"{type(r).__name__} {r}")
            if r[:3] != ymd or abs(total(r[3:7]) - total(hms)) > 2e-3:
                raise Fail(f"{arg} at {PLACES[i]} -> {jd} -> {r}")


def p_sweep(case):
    """Every half hour of the days around a year boundary, the intercalary
    days and midsummer belongs to the day whose sunset precedes it."""
    y, i = case
    lat, lon, zone = PLACES[i]
    for first in ((y, 19, 19), (y, 18, 19), (y, 6, 10), (y, 13, 4)):
        rd = M.ordinal(*first)
        if rd + 2 > M.LAST_ORD:
            continue
        starts = [BC.jd_from_badi_date(M.from_ordinal(rd + k), lat, lon, zone)
                  for k in range(3)]
        step(3)
        grid = 8 if TIER == 'quick' else 48
        for k in range(2):
            for g in range(grid):
                jd = starts[k] + (g + .5) / grid
                if jd >= starts[k + 1] - 1e-5:
                    continue
                r = BC.badi_date_from_jd(jd, lat, lon, zone, us=True,
                                         short=True)
                step()
                want = M.from_ordinal(rd + k)
                sec = (jd - starts[k]) * 86400
                if r[:3] != want or abs(total(r[3:7]) - sec) > 2e-3:
                    raise Fail(f"{jd} at {PLACES[i]} is {r}, not {want} "
                               f"{sec:.3f} s")


def p_forms(case):
    """short, us, fraction, rtd and trim only change the presentation."""
    (y,) = case
    for ymd, frac in (((y, 1, 1), .25), ((y, 0, 3), .5), ((y, 19, 19), .75),
                      ((y, 7, 12), .123456)):
        k = M.long_form(y)
        jd = BC.jd_from_badi_date(ymd) + frac
        step(1)
        s = BC.badi_date_from_jd(jd, us=True, short=True)
        lg = BC.badi_date_from_jd(jd, us=True)
        p = BC.badi_date_from_jd(jd, short=True)
        pl = BC.badi_date_from_jd(jd)
        fr = BC.badi_date_from_jd(jd, fraction=True)
        rt = BC.badi_date_from_jd(jd - frac, short=True, rtd=True, trim=True)
        rl = BC.badi_date_from_jd(jd - frac, rtd=True, trim=True)
        st = BC.badi_date_from_jd(jd - frac, short=True, us=True, trim=True)
        d = BC.badi_date_from_jd(jd, *TEHRAN, us=True, short=True)
        step(9)
        sec = frac * 86400
        if s[:3] != ymd or abs(total(s[3:]) - sec) > 2e-3 or len(s) != 7:
            raise Fail(f"us short form of {jd}: {s}")
        eq(lg, (*k, *s[1:]), f"long form of {jd}")
        eq(d, s, f"default place is Tehran, {jd}")
        if p[:3] != ymd or abs(total(p[3:]) - sec) > 2e-3:
            raise Fail(f"short form of {jd}: {p}")
        eq(pl, (*k, *p[1:]), f"long form without us of {jd}")
        if fr[:2] != ymd[:2] or abs(fr[2] - ymd[2] - frac) > 2e-6:
            raise Fail(f"fraction form of {jd}: {fr}")
        eq(rt, ymd, f"rtd form of {jd - frac}")
        eq(rl, (*k, *ymd[1:]), f"long rtd form of {jd - frac}")
        eq(st, ymd, f"trimmed form of {jd - frac}")
        if frac != .5 and ymd != (1161, 19, 19):
            near = M.from_ordinal(M.ordinal(*ymd) + (frac > .5))
            eq(BC.badi_date_from_jd(jd, short=True, rtd=True, trim=True),
               near, f"nearest day of {jd}")
            step()
        if ymd != (1161, 19, 19):
            for f in (.01, .47, .4995, .5005, .53, .99):
                near = M.from_ordinal(M.ordinal(*ymd) + (f > .5))
                eq(BC.badi_date_from_jd(jd - frac + f, short=True, rtd=True),
                   near, f"nearest day of {jd - frac + f}")
                step()


def p_options(case):
    """At most one of fraction, us, and rtd can be asked for."""
    fraction, us, rtd, short, trim = case
    kw = dict(fraction=fraction, us=us, rtd=rtd, short=short, trim=trim)
    for jd in (2460389.2, 2394645.4):
        ok, r = call(BC.badi_date_from_jd, jd, **kw)
        step()
        if ok != (fraction + us + rtd <= 1):
            raise Fail(f"badi_date_from_jd({jd}, {kw}): {r}")


def p_range(case):
    (jd,) = case
    ok, r = call(BC.badi_date_from_jd, jd)
    if ok:
        raise Fail(f"badi_date_from_jd({jd}) outside the calendar gave {r}")


def build(tier):
    global TIER
    TIER = tier
    every = tier == 'thorough'
    ys = [(y,) for y in M.YEARS]
    inst = [(y, i) for y in M.YEARS for i in range(len(PLACES))
            if every or (y + i) % 9 == 0 or i == 0 and -10 < y < 300]
    sweep = [(y, i) for y in M.YEARS for i in range(len(PLACES))
             if (every and (y + i) % 9 == 0) or (y + 5 * i) % 99 == 0]
    sweep = [c for c in sweep if c[0] != -261]
    forms = [(y,) for y in M.YEARS if every or y % 12 == 0 or 170 < y < 200
             or y in (-1842, 1161)]
    hi = BC.jd_from_badi_date((1161, 19, 19))
    lo = BC.jd_from_badi_date((-1842, 1, 1))
    return [
        Space('forward', p_forward, ys, 16, bound='every year'),
        Space('instants', p_instants, inst, 16),
        Space('sweep', p_sweep, sweep, 4),
        Space('forms', p_forms, forms, 8),
        Space('options', p_options, list(itertools.product((False, True),
                                                           repeat=5))),
        Space('range', p_range, [(hi + k,) for k in (1.5, 2, 30, 366, 1000)]
              + [(lo - k,) for k in (370, 800, 5000)]),
    ]


if __name__ == '__main__':
    main('C04', build, bounds='all 3004 years; boundary days of each month; '
         'nine places',
         assumptions=['sunset of lib/astro.py within 18 s',
                      'leap-year table data/leap_years.txt (decided by C03)',
                      'places between 55 N and 45 S, where the Sun sets every '
                      'day'])
