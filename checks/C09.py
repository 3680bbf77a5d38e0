"""Date arithmetic counts days."""
import datetime as D
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TD = D.timedelta
TIER = 'quick'
LADDER = (1, -1, 3, -4, 5, -5, 18, -19, 19, -20, 20, 341, -342, 342, 361, -365,
          365, 366, -366, 730, 1461, -6940, 36524, -36525, 100000, -131851,
          250000, -400000, 600000, 7, -7)
GAPO = range(577725, 577735)           # documented reform gap
BAD = (OverflowError, ValueError, AssertionError)


class Mine(bd.date):
    """A user class."""


def make(n, form, cls=bd.date):
    y, m, d = M.from_ordinal(n)
    return cls(y, m, d) if form else cls(*M.long_form(y), m, d)


def fields(n, form):
    y, m, d = M.from_ordinal(n)
    return (y, m, d) if form else M.long_form(y) + (m, d)


def usable(n):
    return M.FIRST_ORD <= n <= M.LAST_ORD and n not in GAPO and (
        M.from_ordinal(n)[0] not in M.FUDGE)


def plus(d, n, k, form, how=0):
    """d (ordinal n) plus k days, compared with the model; the result."""
    td = TD(k)
    fn = (lambda: d + td, lambda: td + d, lambda: d - TD(-k))[how]
    ok, r = call(fn)
    t = n + k
    if not M.FIRST_ORD <= t <= M.LAST_ORD:
        if ok or not isinstance(r, BAD):
            raise Fail(f"{d!r} + {k} days gave {r!r} outside the calendar")
        outcome('out of range refused')
        return None
    if not ok:
        raise Fail(f"{d!r} + {k} days raised {type(r).__name__}: {r}")
    if r.b_date != fields(t, form) or r.is_short is not form:
        raise Fail(f"{d!r} + {k} days is {r!r}, expected {fields(t, form)}")
    if type(r) is not type(d):
        raise Fail(f"{d!r} + {k} days is a {type(r).__name__}")
    if d.b_date != fields(n, form):
        raise Fail(f"operand changed to {d!r}")
    outcome('sum')
    return r


def p_steps(case):
    """Each boundary day plus steps of the ladder."""
    (y,) = case
    sel = M.boundary_days(y)
    if TIER == 'quick':
        sel = [d for j, d in enumerate(sel) if (j + y) % 14 == 0
               or d[1:] == ((19, 19), (0, 4), (1, 1))[y % 3]]
    for j, ymd in enumerate(sel):
        n = M.ordinal(*ymd)
        form = bool((y + j) % 2)
        if not usable(n):
            note('skipped: known findings (fudge years, reform gap)')
            continue
        d = make(n, form)
        ks = LADDER if TIER == 'thorough' else [
            1, LADDER[(y + 7 * j) % len(LADDER)],
            LADDER[(y + 7 * j + 11) % len(LADDER)]]
        for i, k in enumerate(ks):
            if n + k in GAPO:
                continue
            r = plus(d, n, k, form, (i + y) % 3)
            if r is not None and usable(n + k):
                # (d + k) - d = k and (d + k) - k = d
                ok, x = call(lambda: r - d)
                if not ok or x != TD(k):
                    raise Fail(f"{r!r} - {d!r} is {x!r}, expected {k} days")
                if i:
                    plus(r, n + k, -k, form, 2)


def p_between(case):
    """Differences of all pairs, both forms, with d + (e - d) = e."""
    a, = case
    for j, b in enumerate(NODES):
        x, y = make(a, j % 2 == 0), make(b, j % 3 == 0)
        ok, r = call(lambda: x - y)
        if not ok or r != TD(a - b) or type(r) is not TD:
            raise Fail(f"{x!r} - {y!r} is {r!r}, expected {a - b} days")
        if j % 4 == 0:
            plus(y, b, a - b, j % 3 == 0)


def p_sequence(case):
    """All sequences of steps up to the depth from one start."""
    n0, form, alphabet, depth = case

    def go(d, n, left):
        for k in alphabet:
            if n + k in GAPO:
                continue
            r = plus(d, n, k, form)
            if r is None:
                continue
            if left > 1 and usable(n + k):
                go(r, n + k, left - 1)
    go(make(n0, form), n0, depth)


def p_ends(case):
    """The ends of the calendar are exact; huge steps are refused."""
    k, form = case
    plus(make(M.LAST_ORD, form), M.LAST_ORD, k, form)
    plus(make(M.FIRST_ORD, form), M.FIRST_ORD, -k, form)
    for n in (M.FIRST_ORD, M.LAST_ORD, M.year_start(181)):
        d = make(n, form)
        for huge in (M.LAST_ORD, -M.LAST_ORD, 999999999, -999999999):
            plus(d, n, huge, form)


def p_types(case):
    """Seconds of the duration do not count; other operands are refused;
    user classes are kept."""
    form, = case
    n = M.ordinal(181, 18, 19)
    d = make(n, form)
    for td, k in ((TD(hours=23, minutes=59), 0), (TD(1, 86399, 999999), 1),
                  (TD(seconds=-1), -1), (TD(0), 0), (TD(weeks=2), 14)):
        r = d + td
        step()
        if r.b_date != fields(n + k, form):
            raise Fail(f"{d!r} + {td!r} is {r!r}")
    for other in (1, 1.5, 'x', None, (1,), D.date(2024, 1, 1)):
        for fn in (lambda: d + other, lambda: other + d, lambda: d - other,
                   lambda: other - d):
            ok, r = call(fn)
            if ok or not isinstance(r, TypeError):
                raise Fail(f"{d!r} and {other!r}: {r!r}")
    ok, r = call(lambda: d + d)
    if ok or not isinstance(r, TypeError):
        raise Fail(f"{d!r} + {d!r} gave {r!r}")
    plus(make(n, form, Mine), n, 40, form)
    plus(make(n, form, Mine), n, -40, form)


REF = D.date(2000, 6, 15)


def p_partial(case):
    """Parts of a day in a duration are dropped as in the standard library:
    adding uses the days of the duration, subtracting takes them away."""
    n, form, cls = case
    d = make(n, form, (bd.date, Mine)[cls])
    for days in (0, 1, -1, 2, -2, 18, -19):
        for sec in (0, 1, 10800, 43200, 86399):
            for us in (0, 1, 500000, 999999):
                td = TD(days, sec, us)
                for what, r, ref in (
                        ('+', d + td, REF + td), ('r+', td + d, td + REF),
                        ('-', d - td, REF - td)):
                    step()
                    want = fields(n + (ref - REF).days, form)
                    if r.b_date != want or type(r) is not type(d):
                        raise Fail(f"{d!r} {what} {td!r} is {r!r}, not "
                                   f"{want}")


NODES = [M.ordinal(*ymd) for ymd in (
    (-1842, 1, 1), (-1842, 19, 19), (-1800, 0, 4), (-1795, 1, 1),
    (-1700, 18, 19), (-1400, 19, 1), (-1000, 7, 7), (-362, 19, 19),
    (-361, 1, 1), (-300, 0, 1), (-261, 1, 1), (-260, 1, 1), (-1, 19, 19),
    (0, 1, 1), (0, 0, 4), (1, 1, 1), (172, 1, 1), (174, 0, 5), (181, 18, 19),
    (182, 19, 1), (361, 19, 19), (362, 1, 1), (500, 10, 10), (722, 19, 19),
    (1000, 0, 3), (1100, 12, 12), (1161, 1, 1), (1161, 19, 19))]


def build(tier):
    global TIER
    TIER = tier
    deep = tier == 'thorough'
    starts = [(181, 18, 18), (182, 0, 5), (183, 19, 18), (-1, 19, 19),
              (361, 19, 19), (-361, 19, 18), (-1842, 1, 1), (1161, 19, 19)]
    seqs = [(M.ordinal(*s), bool(f), al, 4 if deep else 3)
            for i, s in enumerate(starts) for f in (0, 1)
            for al in ((1, -1, 19, 366), (5, -342, 365, -20), (2, -3, 18))
            ] if deep else [
        (M.ordinal(*s), bool(i % 2), al, 3) for i, s in enumerate(starts)
        for al in ((1, -1, 19, 366), (5, -342, 365, -20))]
    return [
        Space('ends', p_ends, [(k, f) for f in (True, False)
                               for k in (-1, 0, 1, 2, 19, 366)], 1),
        Space('types', p_types, [(True,), (False,)], 1),
        Space('partial', p_partial,
              [(M.ordinal(*t), f, c) for t, f, c in (
                  ((181, 5, 7), True, 0), ((181, 0, 1), False, 0),
                  ((-1, 19, 19), True, 1), ((361, 19, 19), False, 1))]
              if not deep else
              [(n, f, c) for n in NODES[1:-1] for f in (True, False)
               for c in (0, 1) if usable(n)], 1),
        Space('sequences', p_sequence, seqs, 1,
              bound='all sequences of up to 3 (thorough 4) steps'),
        Space('between', p_between, [(n,) for n in NODES], 1,
              bound='all pairs of the nodes'),
        Space('steps', p_steps, [(y,) for y in M.YEARS], 16),
    ]


if __name__ == '__main__':
    main('C09', build, bounds='every year; month ends x 30 step sizes (3 in '
         'quick, rotated), all pairs of 28 nodes, all step sequences to the '
         'depth',
         assumptions=['the years -1796, -1792, -1788 and the ten days of the '
                      'reform gap are excluded (known findings of C01)'])
