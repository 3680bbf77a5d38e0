"""Datetime arithmetic is exact to the microsecond."""
import datetime as D
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TD = D.timedelta
TIER = 'quick'
DAY = 86400 * 10**6
GAPO = range(577725, 577735)
BAD = (OverflowError, ValueError, AssertionError)
LO, HI = M.FIRST_ORD * DAY, (M.LAST_ORD + 1) * DAY - 1


class Mine(bd.datetime):
    """A user class."""


def us_of(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def hms(u):
    s, us = divmod(u % DAY, 10**6)
    return s // 3600, s // 60 % 60, s % 60, us


def date_fields(n, form):
    y, m, d = M.from_ordinal(n)
    return (y, m, d) if form else M.long_form(y) + (m, d)


def make(u, form, tz=None, cls=bd.datetime):
    f = date_fields(u // DAY, form)
    if form:
        f += (None, None)
    return cls(*f, *hms(u), tzinfo=tz)


def usable(u):
    n = u // DAY
    return LO <= u <= HI and n not in GAPO and (
        M.from_ordinal(n)[0] not in M.FUDGE)


def plus(d, u, td, form, how=0):
    fn = (lambda: d + td, lambda: td + d, lambda: d - (-td))[how]
    before = repr(d)
    ok, r = call(fn)
    t = u + us_of(td)
    if not LO <= t <= HI:
        if ok or not isinstance(r, BAD):
            raise Fail(f"{d!r} + {td!r} gave {r!r} outside the calendar")
        outcome('out of range refused')
        return None
    if not ok:
        raise Fail(f"{d!r} + {td!r} raised {type(r).__name__}: {r}")
    want = date_fields(t // DAY, form), hms(t)
    if (r.b_date, r.b_time) != want or r.is_short is not form:
        raise Fail(f"{d!r} + {td!r} is {r!r}, expected {want}")
    if type(r) is not type(d) or r.tzinfo is not d.tzinfo or r.fold:
        raise Fail(f"{d!r} + {td!r} is {r!r}: class, zone, or fold")
    if repr(d) != before:
        raise Fail(f"operand changed to {d!r}")
    outcome('sum')
    return r


STEPS = (TD(microseconds=1), TD(microseconds=-1), TD(microseconds=999999),
         TD(seconds=1), TD(seconds=-1), TD(seconds=59, microseconds=1),
         TD(minutes=1), TD(minutes=-61), TD(hours=1), TD(hours=-24),
         TD(hours=25), TD(seconds=86399, microseconds=999999),
         TD(days=1), TD(days=-1, microseconds=-1), TD(days=19),
         TD(days=-19, hours=5), TD(days=365), TD(days=-366, seconds=1),
         TD(days=366, hours=23, minutes=59), TD(days=4, hours=12),
         TD(days=-36525, microseconds=7), TD(days=100000, seconds=86399),
         TD(0))
TIMES = (0, 1, 999999, 10**6, 59 * 10**6, 3599999999, 43200 * 10**6,
         DAY - 10**6, DAY - 1)


def p_steps(case):
    """Ends of months at the ends of the day, all steps (rotated)."""
    (y,) = case
    sel = M.boundary_days(y)
    for j, ymd in enumerate(sel):
        if TIER == 'quick' and (j + y) % 12 and ymd[1:] not in (
                ((19, 19), (0, 4), (0, 5))[y % 3],):
            continue
        u = M.ordinal(*ymd) * DAY + TIMES[(j + y) % len(TIMES)]
        if not usable(u):
            note('skipped: known findings (fudge years, reform gap)')
            continue
        form = bool((j + y) % 2)
        tz = ZONES[(j + y) % len(ZONES)]
        d = make(u, form, tz)
        for i, td in enumerate(STEPS):
            if TIER == 'quick' and (i + j + y) % 10:
                continue
            t = u + us_of(td)
            if t // DAY in GAPO:
                continue
            r = plus(d, u, td, form, (i + y) % 3)
            if r is not None and usable(t):
                ok, x = call(lambda: r - d)
                if not ok or x != td:
                    raise Fail(f"{r!r} - {d!r} is {x!r}, not {td!r}")


def p_turn(case):
    """One microsecond over the turn of each year and of Ayyam-i-Ha."""
    (y,) = case
    which = ((y, 19, 19), (y, 18, 19), (y, 0, M.ayyam(y)))
    for i, ymd in enumerate(which):
        if TIER == 'quick' and (i + y) % 3:
            continue
        u = (M.ordinal(*ymd) + 1) * DAY - 1
        if not usable(u) or not usable(u + 1):
            if u < HI:
                note('skipped: known findings (fudge years, reform gap)')
                continue
        d = make(u, bool(y % 2))
        r = plus(d, u, TD(microseconds=1), bool(y % 2))
        if r is not None:
            plus(r, u + 1, TD(microseconds=-1), bool(y % 2), 2)


ZONES = (None, D.timezone.utc, bd.timezone(TD(hours=3, minutes=30)),
         bd.timezone(TD(hours=-11, minutes=-59)),
         bd.timezone(TD(hours=23, minutes=59)),
         bd.timezone(-TD(hours=23, minutes=59, seconds=59)))
ZONES = (None,) + tuple(bd.timezone(TD(seconds=s)) for s in (
    0, 12600, -43140, 86340, -86399))
NODES = [M.ordinal(*ymd) * DAY + t for ymd, t in (
    ((-1842, 1, 1), 0), ((-1842, 1, 1), 1), ((-1800, 0, 4), DAY - 1),
    ((-1000, 19, 19), 7), ((-361, 19, 19), 3600000000), ((-1, 19, 19),
                                                        DAY - 1),
    ((0, 1, 1), 0), ((1, 1, 1), 43200 * 10**6), ((174, 0, 5), DAY - 1),
    ((181, 18, 19), DAY - 10**6), ((181, 0, 1), 0), ((181, 0, 4), 1),
    ((182, 19, 1), 5), ((361, 19, 19), DAY - 1), ((362, 1, 1), 0),
    ((1161, 19, 19), DAY - 1))]


def p_pairs(case):
    """Differences of all pairs of instants in all pairs of zones."""
    a, i = case
    x = make(a, True, ZONES[i])
    for n, b in enumerate(NODES):
        for j, tz in enumerate(ZONES):
            if TIER == 'quick' and (n + i + j) % 3 and i != j:
                continue
            y = make(b, (n + j) % 2 == 0, tz)
            ok, r = call(lambda: x - y)
            if (i == 0) != (j == 0):
                if ok or not isinstance(r, TypeError):
                    raise Fail(f"{x!r} - {y!r} gave {r!r}")
                outcome('mixed refused')
                continue
            want = a - b
            if i:
                want -= us_of(ZONES[i].utcoffset(None)) - us_of(
                    tz.utcoffset(None))
            if not ok or us_of(r) != want or type(r) is not TD:
                raise Fail(f"{x!r} - {y!r} is {r!r}, expected {want} us")
            outcome('difference')


def p_offsets(i):
    """The same wall time in every pair of offsets."""
    a = M.ordinal(181, 7, 1) * DAY + 5
    b = M.ordinal(181, 6, 19) * DAY + 3
    zx = bd.timezone(TD(minutes=i))
    x = make(a, True, zx)
    for j in OFFS:
        y = make(b, bool(j % 60), bd.timezone(TD(minutes=j)))
        ok, r = call(lambda: x - y)
        if not ok or us_of(r) != a - b - (i - j) * 60 * 10**6:
            raise Fail(f"{x!r} - {y!r} is {r!r}")


OFFS = range(-1410, 1411, 30)


def p_sequence(case):
    u0, form, z, alphabet, depth = case
    tds = [STEPS[i] for i in alphabet]

    def go(d, u, left):
        for td in tds:
            t = u + us_of(td)
            if t // DAY in GAPO:
                continue
            r = plus(d, u, td, form)
            if r is not None and left > 1 and usable(t):
                go(r, t, left - 1)
    go(make(u0, form, ZONES[z]), u0, depth)


def p_types(case):
    form, z = case
    u = M.ordinal(181, 18, 19) * DAY + 5
    d = make(u, form, ZONES[z])
    for other in (1, 1.5, 'x', None, (1,), d, D.datetime(2024, 1, 1)):
        fns = [lambda: d + other, lambda: other + d]
        if other is not d:
            fns += [lambda: d - other, lambda: other - d]
        for fn in fns:
            ok, r = call(fn)
            if ok or not isinstance(r, TypeError):
                raise Fail(f"{d!r} and {other!r}: {r!r}")
    m = make(u, form, ZONES[z], Mine)
    plus(m, u, TD(days=40, microseconds=-6), form)
    # Hour 24 and second 60 count as what they are.
    for h, s in ((24, 0), (24, 59), (23, 60) if form else (24, 1)):
        y = M.from_ordinal(u // DAY)
        f = y + (None, None) if form else M.long_form(y[0]) + y[1:]
        x = bd.datetime(*f, h, 0, s, 0, ZONES[z])
        v = u // DAY * DAY + (h * 3600 + s) * 10**6
        r = x + TD(microseconds=1)
        step()
        if (r.b_date, r.b_time) != (date_fields((v + 1) // DAY, form),
                                    hms(v + 1)):
            raise Fail(f"{x!r} + 1 us is {r!r}")
        if us_of(x - make(u, form, ZONES[z])) != v - u:
            raise Fail(f"{x!r} - {d!r} is {x - d!r}")
    # A fold has no effect on the sum.
    r = d.replace(fold=1) + TD(seconds=1)
    if (r.b_date, r.b_time) != (date_fields(u // DAY, form),
                                hms(u + 10**6)):
        raise Fail(f"fold: {r!r}")


def p_ends(case):
    form, z = case
    for u, td in ((HI, STEPS[0]), (HI, STEPS[12]), (LO, STEPS[1]),
                  (LO, STEPS[13]), (HI - 1, STEPS[0]), (LO + 1, STEPS[1]),
                  (HI, TD.max), (LO, TD.min), (LO, TD(HI // DAY)),
                  (LO, TD(M.LAST_ORD - M.FIRST_ORD)),
                  (HI, -TD(M.LAST_ORD - M.FIRST_ORD)),
                  (HI, TD(999999999)), (LO, -TD(999999999))):
        plus(make(u, form, ZONES[z]), u, td, form)


def build(tier):
    global TIER
    TIER = tier
    deep = tier == 'thorough'
    al = ((0, 1, 12, 17), (11, 13, 16, 6), (2, 14, 18, 9))
    seqs = [(u, bool(i % 2), i % len(ZONES), a, 4 if deep else 3)
            for i, u in enumerate(NODES) for k, a in enumerate(al)
            if deep or (i + k) % 3 == 0]
    fz = [(f, z) for f in (True, False) for z in range(len(ZONES))]
    return [
        Space('ends', p_ends, fz, 1),
        Space('types', p_types, fz, 1),
        Space('pairs', p_pairs, [(a, i) for a in NODES
                                 for i in range(len(ZONES))], 2,
              bound='all pairs of instants and zones'),
        Space('offset pairs', p_offsets, OFFS, 1,
              bound='all pairs of offsets in half hours'),
        Space('sequences', p_sequence, seqs, 1,
              bound='all sequences of up to 3 (thorough 4) steps'),
        Space('turn', p_turn, [(y,) for y in M.YEARS], 16),
        Space('steps', p_steps, [(y,) for y in M.YEARS], 16),
    ]


if __name__ == '__main__':
    main('C10', build, bounds='every year; month ends at the ends of the day '
         'x 23 durations (rotated in quick); all pairs of 16 instants x 6 '
         'zones; all sequences to the depth',
         assumptions=['the years -1796, -1792, -1788 and the ten days of the '
                      'reform gap are excluded (known findings of C01)'])
