"""Day count: ordinals number the days of the calendar consecutively."""
import _boot  # noqa: F401
from engine import Fail, Space, call, main, outcome, step
import model as M
import badidatetime as bd

TIER = 'quick'


def days(y):
    return M.days_of(y) if TIER == 'thorough' else M.boundary_days(y)


def tally(bad, what, n):
    """One deterministic message per year, whatever was wrong in it."""
    if bad:
        items = sorted(bad.items(), key=lambda k: (-len(k[1]), str(k[0])))
        raise Fail(f"{what}: " + '; '.join(
            f"{k} on every day" if len(v) == n else
            f"{k} on {len(v)} day(s), first {v[0]}, last {v[-1]}"
            for k, v in items))


def p_toordinal(case):
    """date(...).toordinal() is the reference day count."""
    (y,) = case
    bad = {}
    for ymd in days(y):
        ok, n = call(bd.date(*ymd).toordinal)
        if not ok:
            bad.setdefault(f"raises {type(n).__name__}", []).append(ymd[1:])
        elif type(n) is not int:
            bad.setdefault(f"type {type(n).__name__}", []).append(ymd[1:])
        elif n != M.ordinal(*ymd):
            bad.setdefault(f"offset {n - M.ordinal(*ymd):+d}",
                           []).append(ymd[1:])
    outcome(f"year length {M.year_len(y)}")
    tally(bad, f"toordinal in year {y}", len(days(y)))


def p_long(case):
    """Long form dates and datetimes have the ordinal of the short form."""
    (y,) = case
    for m, d in ((1, 1), (10, 7), (18, 19), (0, M.ayyam(y)), (19, 19)):
        n = M.ordinal(y, m, d)
        for v in (bd.date(*M.long_form(y), m, d),
                  bd.datetime(y, m, d, None, None, 23, 59, 59, 999999),
                  bd.datetime(*M.long_form(y), m, d)):
            step()
            if v.toordinal() != n:
                raise Fail(f"{v!r}.toordinal() = {v.toordinal()}, not {n}")


def p_fromordinal(case):
    (y,) = case
    bad = {}
    for ymd in days(y):
        if (TIER == 'quick' and not -20 <= y <= 300 and ymd[1] not in (0, 11)
                and ymd[2] != 1):
            continue
        ok, v = call(bd.date.fromordinal, M.ordinal(*ymd))
        if not ok:
            bad.setdefault(f"raises {type(v).__name__}", []).append(ymd[1:])
        elif (v.year, v.month, v.day) != ymd or not v.is_short:
            bad.setdefault('wrong date', []).append(
                ymd[1:] + ('gave', v.year, v.month, v.day))
    tally(bad, f"fromordinal in year {y}", len(days(y)))


def p_fromordinal_long(case):
    (y,) = case
    for m, d in ((1, 1), (9, 19), (0, 1), (0, M.ayyam(y)), (19, 19)):
        n = M.ordinal(y, m, d)
        v = bd.date.fromordinal(n, short=False)
        w = bd.datetime.fromordinal(n)
        step(2)
        if v.is_short or v.b_date != (*M.long_form(y), m, d):
            raise Fail(f"fromordinal({n}, short=False) = {v!r}")
        if type(w) is not bd.datetime or (w.b_date, w.b_time) != (
                (y, m, d), (0, 0, 0, 0)):
            raise Fail(f"datetime.fromordinal({n}) = {w!r}")


def p_bounds(case):
    name, n = case
    if name == 'attr':
        vals = (bd.date.min.toordinal(), bd.date.max.toordinal(),
                bd.date.longmin.toordinal(), bd.date.longmax.toordinal(),
                bd.datetime.min.toordinal(), bd.datetime.max.toordinal())
        want = (M.FIRST_ORD, M.LAST_ORD) * 3
        step(6)
        if vals != want:
            raise Fail(f"ordinals of min/max {vals}, expected {want}")
    else:
        ok, v = call(bd.date.fromordinal, n)
        if ok:
            raise Fail(f"fromordinal({n}) is past the calendar, gave {v!r}")


def build(tier):
    global TIER
    TIER = tier
    ys = [(y,) for y in M.YEARS]
    ext = sorted({y for y in M.YEARS if y % 19 in (0, 1, 7)}
                 | set(range(-20, 300)))
    ext = [(y,) for y in ext if y not in M.FUDGE and y != -261]
    if tier == 'thorough':
        ext = [c for c in ys if c[0] not in M.FUDGE and c[0] != -261]
    return [
        Space('toordinal', p_toordinal, ys, 16,
              bound='every year; every day (thorough) or the first and '
              'last day of each month and all intercalary days'),
        Space('fromordinal', p_fromordinal, ys, 16,
              bound='as toordinal; outside years -20..300 the quick tier '
              'takes first days only'),
        Space('toordinal-long', p_long, ext, 16),
        Space('fromordinal-long', p_fromordinal_long, ext, 16),
        Space('bounds', p_bounds, [('attr', 0)] + [
            ('past', M.LAST_ORD + k) for k in (1, 2, 19, 365, 366, 400)]),
    ]


if __name__ == '__main__':
    main('C01', build, bounds='all 3004 years of the calendar',
         assumptions=['leap-year table data/leap_years.txt (decided by C03)'])
