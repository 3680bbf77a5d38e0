"""Seasons, Delta T, and the two Julian day counts."""
import math
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, step
import astro as A
import badidatetime as bd

BC = bd.BahaiCalendar()
GC = bd.GregorianCalendar()
TIER = 'quick'
LAM = (0, 90, 180, 270)
# Meeus, Astronomical Algorithms, tables 27.A and 27.B.
MEAN = {
    0: ((1721139.29189, 365242.1374, .06134, .00111, -.00071),
        (2451623.80984, 365242.37404, .05169, -.00411, -.00057)),
    90: ((1721233.25401, 365241.72562, -.05323, .00907, .00025),
         (2451716.56767, 365241.62603, .00325, .00888, -.0003)),
    180: ((1721325.70455, 365242.49558, -.11677, -.00297, .00074),
          (2451810.21715, 365242.01767, -.11575, .00337, .00078)),
    270: ((1721414.39987, 365242.88257, -.00769, -.00933, -.00006),
          (2451900.05952, 365242.74049, -.06223, -.00823, .00032))}
TOL = 60
BASE = 1721422.5                      # JD of Rata Die 0 in the exact count
FRAC = (0, 1 / 64, .25, .5, .75, 63 / 64)


def helper(name):
    if not hasattr(BC, name):
        note(f'no helper {name}')
    return getattr(BC, name, None)


def moment(g, lam):
    """Equinox or solstice in dynamical time."""
    a = MEAN[lam][g > 1000]
    j = A.poly((g - 2000) / 1000 if g > 1000 else g / 1000, a)
    t = (j - 2451545) / 36525
    w = math.radians(35999.373 * t - 2.47)
    dl = 1 + .0334 * math.cos(w) + .0007 * math.cos(2 * w)
    s = sum(p * math.cos(math.radians(q + c * t)) for p, q, c in A.EQ)
    return j + .00001 * s / dl


def longitude(jde):
    """Apparent longitude of the Sun, Meeus ch. 25, 0.01 degrees."""
    t = (jde - 2451545) / 36525
    m = math.radians(357.52911 + t * (35999.05029 - .0001537 * t))
    c = (math.sin(m) * (1.914602 - t * (.004817 + .000014 * t))
         + math.sin(2 * m) * (.019993 - .000101 * t)
         + .000289 * math.sin(3 * m))
    om = math.radians(125.04 - 1934.136 * t)
    return (280.46646 + t * (36000.76983 + .0003032 * t) + c - .00569
            - .00478 * math.sin(om)) % 360


def p_season(case):
    """The four moments of a year, from any day of it, in any zone."""
    (g,) = case
    f = helper('_find_moment_of_equinoxes_or_solstices')
    if not f:
        return
    days = ((1, 1), (3, 20), (7, 1), (12, 31))
    last = None
    for lam in LAM + (0,):
        y = g + (last is not None and lam == 0)
        want = moment(y, lam)
        dt = A.dT(y + (.2, .46, .71, .96)[lam // 90]) / 86400
        got = set()
        for m, d in days:
            jd = GC.jd_from_gregorian_date((y, m, d))
            got.add(f(jd, lam))
            for zone in ((3.5, -10, 12.75) if m == 7 else ()):
                z = f(jd, lam, zone)
                step()
                if abs(z - f(jd, lam) - zone / 24) > 2e-6:
                    raise Fail(f"{y} {lam}: zone {zone} gives {z}")
            step()
        if len(got) > 1:
            raise Fail(f"{y} {lam}: {sorted(got)}, one moment was expected")
        r = got.pop()
        # The dynamical time, see the space 'universal'.
        e = min(abs(r - want), abs(r - want + dt)) * 86400
        if e > TOL:
            raise Fail(f"{y} {lam}: {r} is {e:.0f} s off {want}")
        d = min(abs((longitude(x) - lam + 180) % 360 - 180)
                for x in (r, r + dt))
        if d > .02:
            raise Fail(f"{y} {lam}: the Sun is {d:.4f} degrees away at {r}")
        if last is not None and not 88 < r - last < 95:
            raise Fail(f"{y} {lam}: {r} follows {last}")
        last = r


def p_universal(case):
    """The moment is in universal time."""
    f = helper('_find_moment_of_equinoxes_or_solstices')
    if not f:
        return
    bad = []
    for g in range(*case):
        for lam in LAM:
            dt = A.dT(g + (.2, .46, .71, .96)[lam // 90]) / 86400
            r = f(GC.jd_from_gregorian_date((g, 7, 1)), lam)
            step()
            if abs(r - moment(g, lam) + dt) * 86400 > TOL:
                bad.append((g, lam))
    if bad:
        raise Fail(f"{len(bad)} moments are not in universal time")


def p_delta(case):
    """Delta T of each month of a year."""
    (g,) = case
    f = helper('_delta_t')
    if not f:
        return
    for m in range(1, 13):
        want = A.dT(g + (m - .5) / 12)
        for d in (1, 15.5, 28.9):
            jd = GC.jd_from_gregorian_date((g, m, d))
            r = f(jd, seconds=True)
            q = f(jd)
            step(2)
            if abs(r - want) > 1e-6 * max(1, abs(want)):
                raise Fail(f"Delta T of {g}-{m}-{d} is {r}, not {want}")
            if abs(q * 86400 - r) > 1e-6 * max(1, abs(want)):
                raise Fail(f"Delta T of {g}-{m}-{d} is {q} days, {r} s")


def p_counts(case):
    """Every day: the exact and the historic day count are one to one."""
    lo, hi = case
    to, fro = helper('_meeus_from_exact'), helper('_exact_from_meeus')
    if not (to and fro):
        return
    prev = None
    for rd in range(lo, hi):
        k = A.hist_diff(rd)
        gap = A.REFORM - 10 <= rd < A.REFORM
        for x in FRAC if rd % 16 == 0 or prev != k or gap else (0,):
            jd = BASE + rd + x
            ok, r = call(to, jd)
            step(2)
            if ok == gap or not ok and not isinstance(r, ValueError):
                raise Fail(f"historic day of {jd}: {r!r}")
            if ok and r != jd + k:
                raise Fail(f"historic day of {jd} is {r}, not {jd + k}")
            if ok and fro(r) != jd:
                raise Fail(f"exact day of {r} is {fro(r)}, not {jd}")
        if prev is not None and k == prev + 1 and rd < A.REFORM - 10:
            # The Julian leap day which the exact count does not have.
            for x in FRAC:
                j = BASE + rd + prev + x
                ok, r = call(fro, j)
                step()
                if ok or not isinstance(r, ValueError):
                    raise Fail(f"exact day of {j}, which has none: {r!r}")
        prev = k


def build(tier):
    global TIER
    TIER = tier
    lo, hi, n = -730 * 2, 1096000, 4096
    return [
        Space('season', p_season, [(g,) for g in range(-1000, 3000)], 64,
              bound='every year of the tables'),
        Space('universal', p_universal, [(-1000, 3001)], 1),
        Space('delta', p_delta, [(g,) for g in range(-1999, 3001)], 64,
              bound='every month of 5000 years'),
        Space('counts', p_counts, [(a, min(a + n, hi) + 1)
                                   for a in range(lo, hi, n)], 8,
              bound='every day'),
    ]


if __name__ == '__main__':
    main('C29', build, bounds='all years of the tables, all months, all days',
         assumptions=['Meeus, Astronomical Algorithms, ch. 25 and 27',
                      'Espenak and Meeus polynomials of Delta T'])
