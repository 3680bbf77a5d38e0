"""Long and short forms are two spellings of the same date."""
import math
import pickle
import _boot  # noqa: F401
from engine import Fail, Space, call, eq, main, outcome, step
import model as M
import badidatetime as bd

BC = bd.BahaiCalendar()
TIER = 'quick'
TIMES = ((), (0, 0, 0, 0), (1,), (0, 2), (0, 0, 3), (0, 0, 0, 4),
         (23, 59, 59, 999999), (12, 0, 0, 0), (24, 0, 0, 1), (24, 59, 59, 5),
         (5, 6, 7), (1, 2, 3.5), (10, 0, 59.999999), (None, None, None, None))


def full(t):
    t = tuple(v or 0 for v in t)
    return t + (0,) * (4 - len(t))


def trimmed(t):
    t = list(full(t))
    while t and t[-1] == 0:
        t.pop()
    return tuple(t)


def p_years(case):
    """Every year in both directions, with and without trimmed times."""
    (y,) = case
    k = M.long_form(y)
    if not (1 <= k[1] <= 19 and 1 <= k[2] <= 19):
        raise Fail(f"model {k}")
    for n, (m, d) in enumerate(((1, 1), (7, 19), (0, 1), (0, M.ayyam(y)),
                                (18, 19), (19, 1), (19, 19))):
        t = TIMES[(n + y) % len(TIMES)]
        for t in (t, ()) if TIER == 'quick' else TIMES:
            for trim, w in ((False, full(t)), (True, trimmed(t))):
                eq(BC.long_date_from_short_date((y, m, d) + t, trim=trim),
                   k + (m, d) + w, f"long form of {(y, m, d) + t} {trim}")
                eq(BC.short_date_from_long_date(k + (m, d) + t, trim=trim),
                   (y, m, d) + w, f"short form of {k + (m, d) + t} {trim}")


def p_fraction(case):
    """Fields to a fractional day and back, long and short result."""
    (y,) = case
    k = M.long_form(y)
    for n, md in enumerate(((1, 1), (0, M.ayyam(y)), (19, 19), (9, 10))):
        for t in (((6, 30, 15, 250000), (0, 0, 1, 0), (23, 59, 58, 500000),
                   (12, 0, 0, 0), (0, 0, 0, 500000), (17, 45, 59, 999999)
                   )[(n + y) % 6::6]):
            sec = t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6
            frac = sec / 86400
            a = BC.date_from_kvymdhms(k + md + t)
            b = BC.date_from_kvymdhms(k + md + t, short=True)
            step(2)
            if a[:4] != k + md[:1] or abs(a[4] - md[1] - frac) > 6e-7:
                raise Fail(f"fractional day of {k + md + t}: {a}")
            if b[:2] != (y, md[0]) or abs(b[2] - md[1] - frac) > 6e-7:
                raise Fail(f"short fractional day of {k + md + t}: {b}")
            for short in (False, True):
                head = ((y,) if short else k) + md
                for src in (k + (md[0], md[1] + frac), k + md + t,
                            k + md + t[:2] + (t[2] + t[3] / 1e6,)):
                    for us in (False, True):
                        for trim in (False, True):
                            r = BC.kvymdhms_from_b_date(src, us=us,
                                                        short=short,
                                                        trim=trim)
                            step()
                            tol = 2e-3 if len(src) == 5 else 1e-9
                            q = full(r[len(head):])
                            got = q[0] * 3600 + q[1] * 60 + q[2] + q[3] / 1e6
                            if r[:len(head)] != head or abs(got - sec) > tol:
                                raise Fail(
                                    f"kvymdhms_from_b_date({src}, us={us}, "
                                    f"short={short}, trim={trim}) = {r}")
                            if trim and r[-1] == 0 and len(r) > len(head):
                                raise Fail(f"{src} not trimmed: {r}")
                            if us and any(type(v) is not int for v in r):
                                raise Fail(f"{src} us=True: {r}")


def p_unique(case):
    """Walking the long form names visits each year exactly once."""
    (kk,) = case
    n = 0
    for v in range(1, 20):
        for q in range(1, 20):
            y = M.short_year(kk, v, q)
            if not M.MINYEAR <= y <= M.MAXYEAR:
                continue
            eq(BC.short_date_from_long_date((kk, v, q, 1, 1), trim=True),
               (y, 1, 1), f"year of {(kk, v, q)}")
            d = bd.date(kk, v, q, 1, 1)
            if (d.kull_i_shay, d.vahid, d.year) != (kk, v, q):
                raise Fail(f"fields of {d!r}")
            if d.toordinal() != bd.date(y, 1, 1).toordinal():
                raise Fail(f"ordinal of {d!r}")
            step(2)
            n += 1
    outcome(f"{n} years in the Kull-i-Shay'")


OPS = [
    ('toordinal', lambda d: d.toordinal()),
    ('weekday', lambda d: d.weekday()),
    ('isoweekday', lambda d: d.isoweekday()),
    ('isocalendar', lambda d: tuple(d.isocalendar())),
    ('isoformat', lambda d: d.isoformat()),
    ('ctime', lambda d: d.ctime()),
    ('hash', lambda d: hash(d)),
    ('strftime', lambda d: d.strftime('%a %A %b %B %d %D %H %j %m %M %n %S '
                                      '%x %Y')),
    ('weeks', lambda d: d.strftime('%u %G %V')),
    ('timetuple', lambda d: tuple(d.timetuple())[-10:]),
]


def p_same(case):
    """The same questions to both forms of one day give the same answers."""
    (y,) = case
    k = M.long_form(y)
    md = (((1, 1), (0, M.ayyam(y))), ((19, 19), (5, 7)), ((18, 19), (0, 1)),
          ((19, 1), (1, 19)))[y % 4]
    quick = TIER == 'quick'
    ops = OPS[y // 4 % 2::2] if quick else OPS
    for m, d in md[y // 12 % 2:][:1] if quick else md:
        for t in ((), (1, 2, 3, 4), (24, 0, 0, 0))[y // 8 % 3:][:2 - quick]:
            if t:
                a = bd.datetime(y, m, d, None, None, *t)
                b = bd.datetime(*k, m, d, *t)
            else:
                a, b = bd.date(y, m, d), bd.date(*k, m, d)
            if not (a == b and b == a and a <= b <= a and not a < b
                    and not a != b):
                raise Fail(f"{a!r} and {b!r} are not equal")
            for name, f in ops:
                if t and name == 'strftime' and y < 0:
                    continue
                if f(a) != f(b):
                    raise Fail(f"{name} of {a!r}: {f(a)}, of {b!r}: {f(b)}")
            if (a - b).total_seconds() != 0:
                raise Fail(f"{a!r} - {b!r} is {a - b}")
            step(len(ops) * 2 + 6)
            if a.is_short is not True or b.is_short is not False:
                raise Fail('is_short')
            for x in (a, b):
                c = pickle.loads(pickle.dumps(x))
                if c.b_date != x.b_date or c.is_short != x.is_short:
                    raise Fail(f"{x!r} unpickled as {c!r}")
    outcome('equal')


def build(tier):
    global TIER
    TIER = tier
    ys = [(y,) for y in M.YEARS]
    fr = [c for c in ys if tier == 'thorough' or c[0] % 3 == 0
          or c[0] % 19 in (0, 1, 18) or -20 < c[0] < 400]
    return [
        Space('years', p_years, ys, 32, bound='every year'),
        Space('unique', p_unique, [(k,) for k in range(-5, 5)], 1),
        Space('fraction', p_fraction, fr, 32),
        Space('same', p_same, ys, 16),
    ]


if __name__ == '__main__':
    main('C07', build, bounds='all 3004 years, month ends, 14 shapes of time, '
         'all trim, us, and short options; nine operations in both forms',
         assumptions=['hours up to 24 and seconds below 60 (the carry of 60 '
                      'seconds and more in the long form is pinned by the '
                      'tests of the project)'])
