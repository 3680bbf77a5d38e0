"""Dates and datetimes are ordered in time and hash consistently."""
import datetime as D
import operator as op
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

OPS = ((op.lt, '<'), (op.le, '<='), (op.eq, '=='), (op.ne, '!='),
       (op.ge, '>='), (op.gt, '>'))
DAY = 86400 * 10**6


class MyDate(bd.date):
    """A user class."""


class MyDatetime(bd.datetime):
    """A user class."""


class Season(D.tzinfo):
    """An offset that depends on the date: +3 h in months 1 to 9."""

    def utcoffset(self, dt):
        return D.timedelta(hours=3 if dt is not None and 1 <= dt.month <= 9
                           else 2)

    def dst(self, dt):
        return self.utcoffset(dt) - D.timedelta(hours=2)

    def tzname(self, dt):
        return 'S'


class Repeat(D.tzinfo):
    """+3 h before the hour 2-3 of 181-10-01 repeats itself, +2 h after."""

    def utcoffset(self, dt):
        t = (*dt.b_date, dt.hour)
        return D.timedelta(hours=3 if t < (181, 10, 1, 2) or
                           t == (181, 10, 1, 2) and not dt.fold else 2)

    def dst(self, dt):
        return self.utcoffset(dt) - D.timedelta(hours=2)

    def tzname(self, dt):
        return 'R'


REPEAT = Repeat()
SEASON = Season()
ZONES = {'naive': None, 'utc': bd.UTC, 'tehran': bd.BADI,
         'p5h30': bd.timezone(D.timedelta(hours=5, minutes=30)),
         'm9': bd.timezone(D.timedelta(hours=-9)),
         'utc2': bd.timezone(D.timedelta(0), 'Z'),
         'p23h59': bd.timezone.max, 'season': SEASON,
         'us': bd.timezone(D.timedelta(microseconds=-1))}


def fields(n, form):
    y, m, d = M.from_ordinal(n)
    return (y, m, d) if form else M.long_form(y) + (m, d)


def check_pair(a, ka, b, kb):
    for f, name in OPS:
        ok, r = call(f, a, b)
        if not ok:
            raise Fail(f"{a!r} {name} {b!r} raised {type(r).__name__}: {r}")
        if r is not f(ka, kb):
            raise Fail(f"{a!r} {name} {b!r} is {r!r}")
    if ka == kb and hash(a) != hash(b):
        raise Fail(f"{a!r} == {b!r} but their hashes differ")
    outcome('equal' if ka == kb else 'less' if ka < kb else 'greater')


# -------------------------------------------------- consecutive days, two forms
def mk_date(n, form, cls=bd.date):
    return cls(*fields(n, form))


def p_chain(y):
    """Neighbouring days of the year, all forms, including the year ends."""
    first = M.year_start(y)
    days = sorted({min(max(M.ordinal(*t), M.FIRST_ORD), M.LAST_ORD)
                   + k for t in M.boundary_days(y) for k in (0, 1)}
                  if TIER == 'quick'
                  else set(range(first - 1, first + M.year_len(y) + 1)))
    days = [n for n in days if M.FIRST_ORD <= n <= M.LAST_ORD]
    vals = [(n, mk_date(n, f)) for n in days for f in (1, 0)]
    for i, (n, a) in enumerate(vals):
        for m, b in vals[max(0, i - 4):i + 5]:
            check_pair(a, n, b, m)
    step(len(vals))
    if len({v for _, v in vals}) != len(days):
        raise Fail(f"year {y}: {len(days)} days make a set of "
                   f"{len({v for _, v in vals})}")


# ------------------------------------------------------- all pairs of dates
PIVOTS = (-1842, -1841, -1500, -262, -261, -1, 0, 1, 2, 18, 19, 20, 180, 181,
          182, 360, 361, 362, 541, 722, 723, 1160, 1161)


def date_values():
    out = []
    for y in PIVOTS:
        for m, d in ((1, 1), (1, 2), (2, 1), (18, 19), (0, 1), (0, M.ayyam(y)),
                     (19, 1), (19, 19)):
            out.append(M.ordinal(y, m, d))
    return out


def p_dates(case):
    i, form = case
    n = DATES[i]
    a = mk_date(n, form, MyDate if i % 5 == 0 else bd.date)
    for m in DATES:
        for f in (1, 0):
            check_pair(a, n, mk_date(m, f), m)


# --------------------------------------------------------- pairs of datetimes
def off_us(zone, n):
    tz = ZONES[zone]
    if tz is None:
        return None
    if zone == 'season':
        h = 3 if 1 <= M.from_ordinal(n)[1] <= 9 else 2
        return h * 3600 * 10**6
    td = tz.utcoffset(None)
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def mk_dt(n, us, zone, form, fold=0, cls=bd.datetime):
    f = fields(n, form)
    if form:
        f += (None, None)
    s, u = divmod(us, 10**6)
    return cls(*f, s // 3600, s // 60 % 60, s % 60, u, ZONES[zone], fold=fold)


def moments():
    """(ordinal, microsecond of the day) around boundaries; the differences
    match those of the offsets, so that equal instants occur in most zones."""
    out = []
    h = 3600 * 10**6
    for y, m, d in ((181, 18, 19), (181, 0, 1), (181, 9, 19), (0, 19, 19)):
        n = M.ordinal(y, m, d)
        out += [(n, 0), (n, DAY - 1), (n + 1, 0), (n, 12 * h),
                (n, 12 * h - 1), (n, 15 * h + h // 2), (n, 17 * h + h // 2)]
    n = M.ordinal(181, 0, 1)
    return out + [(n, 3 * h), (n, h), (n, DAY - h // 60), (n, 14 * h),
                  (n, 11 * h)]


def p_naive(i):
    n, us, form, fold = NAIVE[i]
    a = mk_dt(n, us, 'naive', form, fold)
    for m, vs, g, fo in NAIVE:
        check_pair(a, (n, us), mk_dt(m, vs, 'naive', g, fo), (m, vs))


def p_aware(i):
    n, us, zone, form = AWARE[i]
    a = mk_dt(n, us, zone, form, i % 2, MyDatetime if i % 3 == 0
              else bd.datetime)
    ka = n * DAY + us - off_us(zone, n)
    before = repr(a)
    for j in range(len(AWARE)):
        m, vs, z, g = AWARE[j]
        kb = m * DAY + vs - off_us(z, m)
        b = mk_dt(m, vs, z, g)
        check_pair(a, ka, b, kb)
        if ka == kb and len({a, b}) != 1:
            raise Fail(f"set of {a!r} and {b!r} has two members")
    if repr(a) != before:
        raise Fail(f"{before} changed to {a!r}")


def p_offsets(i):
    """Equal instants and neighbours in every pair of whole-hour offsets."""
    n = M.ordinal(181, 0, 2)
    h = 3600 * 10**6
    x = bd.datetime(181, 0, 2, None, None, 1, 0, 0, 5,
                    bd.timezone(D.timedelta(hours=i)))
    for j in range(-23, 24):
        tz = bd.timezone(D.timedelta(hours=j))
        for k in (0, 1) if (i + j) % 2 else (0, -1):
            t = n * DAY + h + 5 + (j - i) * h + k
            s, us = divmod(t % DAY, 10**6)
            y = bd.datetime(*fields(t // DAY, 1), None, None, s // 3600,
                            s // 60 % 60, s % 60, us, tz)
            step(3)
            if (x == y, x < y, x > y) != (k == 0, k > 0, k < 0):
                raise Fail(f"{x!r} and {y!r}: {(x == y, x < y, x > y)}")
            if k == 0 and hash(x) != hash(y):
                raise Fail(f"hashes of {x!r} and {y!r}")


# ------------------------------------------------------------- unlike kinds
def p_mixed(i):
    things = mixed()
    na, ka, a = things[i]
    for nb, kb, b in things:
        same = ka == kb
        if same:
            continue
        ok, r = call(op.eq, a, b)
        if not ok or r is not False:
            raise Fail(f"{a!r} == {b!r} gave {r!r}")
        ok, r = call(op.ne, a, b)
        if not ok or r is not True:
            raise Fail(f"{a!r} != {b!r} gave {r!r}")
        for f, name in (OPS[0], OPS[1], OPS[4], OPS[5]):
            ok, r = call(f, a, b)
            if ok or not isinstance(r, TypeError):
                raise Fail(f"{a!r} {name} {b!r} gave {r!r}, expected a "
                           "TypeError")
        outcome(f'{ka} / {kb}')


def mixed():
    out = []
    for f in (1, 0):
        n = M.ordinal(181, 0, 2)
        out += [('date', 'date', mk_date(n, f)),
                ('sub', 'date', mk_date(n, f, MyDate)),
                ('naive', 'naive', mk_dt(n, 0, 'naive', f)),
                ('naive', 'naive', mk_dt(n, 0, 'naive', f, 0, MyDatetime)),
                ('utc', 'aware', mk_dt(n, 0, 'utc', f)),
                ('season', 'aware', mk_dt(n, 0, 'season', f)),
                ('p', 'aware', mk_dt(n, 5, 'p5h30', f))]
    return out + [('time', 'time', bd.time(1, 2)),
                  ('int', 'other', 181), ('str', 'other', '0181-00-02'),
                  ('none', 'other', None), ('tuple', 'other', (181, 0, 2)),
                  ('std', 'other', D.date(2024, 3, 1)),
                  ('std', 'other', D.datetime(2024, 3, 1)),
                  ('td', 'other', D.timedelta(1))]


# ------------------------------------------ hours that a zone has two times
def p_repeat(case):
    """A time that its zone has twice is unequal to every time of other zones
    (its hash is that of the first); all else is ordered by the instant."""
    h, mi, fold = case
    a = bd.datetime(181, 10, 1, None, None, h, mi, tzinfo=REPEAT, fold=fold)
    off = 3 if h < 2 or h == 2 and not fold else 2
    ka = (h - off) * 60 + mi
    for o, tz in ((0, ZONES['utc']), (3, P3), (2, P2), (-9, M9)):
        for x in range(max(h - off + o - 1, 0), min(h - off + o + 2, 24)):
            for y in (0, 30):
                b = bd.datetime(181, 10, 1, None, None, x, y, tzinfo=tz)
                kb = (x - o) * 60 + y
                step(6)
                eq = ka == kb and h != 2
                for p, q, kp, kq in ((a, b, ka, kb), (b, a, kb, ka)):
                    got = p == q, p != q, p < q, p > q
                    if got != (eq, not eq, kp < kq, kp > kq):
                        raise Fail(f"{p!r} and {q!r}: ==, !=, <, > {got}")
                if eq and hash(a) != hash(b):
                    raise Fail(f"hashes of {a!r} and {b!r}")
                outcome('equal' if eq else 'twice' if ka == kb else 'unequal')
    for x in range(max(h - 1, 0), min(h + 2, 24)):
        for f in (0, 1):
            b = bd.datetime(181, 10, 1, None, None, x, 30, tzinfo=REPEAT,
                            fold=f)
            got = a == b, a < b, a > b, hash(a) == hash(b)
            k = (h, mi) == (x, 30), (h, mi) < (x, 30), (h, mi) > (x, 30)
            if got[:3] != k or k[0] and not got[3]:
                raise Fail(f"{a!r} and {b!r} of one zone: {got}")


P3, P2, M9 = (bd.timezone(D.timedelta(hours=h)) for h in (3, 2, -9))


# ------------------------------------- sorting every order of small multisets
def p_sort(idx):
    vals = [(SORT[i][0] * DAY + SORT[i][1] - off_us(SORT[i][2], SORT[i][0]),
             mk_dt(*SORT[i])) for i in idx]
    keys = [k for k, _ in vals]
    got = sorted(v for _, v in vals)
    kk = {repr(v): k for k, v in vals}
    if [kk[repr(v)] for v in got] != sorted(keys):
        raise Fail(f"sorted order {got!r}")
    if kk[repr(max(v for _, v in vals))] != max(keys):
        raise Fail("max")
    if kk[repr(min(v for _, v in vals))] != min(keys):
        raise Fail("min")
    step(3)


def build(tier):
    global TIER, DATES, NAIVE, AWARE, SORT
    import itertools
    TIER = tier
    DATES = date_values()
    mo = moments()
    NAIVE = [(n, us, f, k) for n, us in mo for f in (1, 0) for k in (0, 1)]
    zs = [z for z in ZONES if z != 'naive']
    if tier == 'quick':
        AWARE = [(n, us, zs[(i + k) % len(zs)], (i + k) % 2)
                 for i, (n, us) in enumerate(mo) for k in (0, 1, 3)]
    else:
        AWARE = [(n, us, z, f) for i, (n, us) in enumerate(mo) for z in zs
                 for f in (1, 0)]
    n = M.ordinal(181, 0, 4)
    h = 3600 * 10**6
    SORT = [(n, 0, 'utc', 1), (n, 0, 'utc', 0), (n, h, 'p5h30', 1),
            (n - 1, 15 * h, 'm9', 0), (n + 1, 0, 'p23h59', 1),
            (n, 3 * h + h // 2, 'tehran', 1), (n, 2 * h, 'season', 0)]
    k = 3 if tier == 'quick' else 4
    return [
        Space('neighbouring dates', p_chain, list(M.YEARS), 20,
              bound='all years; quick: days at month boundaries and the next, '
                    'thorough: every day; both forms; distance up to 4'),
        Space('all pairs of dates', p_dates,
              [(i, f) for i in range(len(DATES)) for f in (1, 0)], 8,
              bound=f'{len(DATES)} days x both forms, all pairs'),
        Space('all pairs of naive datetimes', p_naive, range(len(NAIVE)), 4,
              bound=f'{len(NAIVE)} values incl. fold, all pairs'),
        Space('all pairs of aware datetimes', p_aware, range(len(AWARE)), 2,
              bound=f'{len(AWARE)} values, {len(zs)} zones, all pairs'),
        Space('offset pairs', p_offsets, range(-23, 24), 1,
              bound='all pairs of whole-hour offsets'),
        Space('repeated hours', p_repeat,
              [(h, m, f) for h in range(24) for m in (0, 30) for f in (0, 1)],
              4, bound='a day with an hour that its zone has twice, every '
              'half hour, both folds, four other zones'),
        Space('unlike kinds', p_mixed, range(len(mixed())), 2,
              bound='all pairs of kinds, all operators'),
        Space('sorting', p_sort,
              list(itertools.permutations(range(len(SORT)), k)), 8,
              bound=f'every order of {k} of {len(SORT)} values')]


if __name__ == '__main__':
    main('C11', build,
         ['Hour 24 and the years of the known ordinal finding (C01) are left '
          'out; an offset that depends on fold is not compared.'],
         'all pairs of the value sets; every year for neighbouring dates')
