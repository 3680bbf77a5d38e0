"""Replacing, combining, and splitting change only the named fields."""
import datetime as D
import itertools
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TD = D.timedelta
TIER = 'quick'
REFUSE = (ValueError, AssertionError, TypeError)


class MyDate(bd.date):
    """A user class."""


class MyDT(bd.datetime):
    """A user class."""


class MyTime(bd.time):
    """A user class."""


class Zone(bd.tzinfo):
    """A user zone, compared by identity."""

    def utcoffset(self, dt):
        return TD(hours=2)

    def dst(self, dt):
        return TD(0)

    def tzname(self, dt):
        return 'Z'

    def __reduce__(self):
        return Zone, ()


# Zones are recognised by identity; two of them are equal.
ZONES = {'none': None, 'utc': bd.UTC, 'badi': bd.BADI,
         'a': bd.timezone(TD(hours=-5)), 'b': bd.timezone(TD(hours=-5)),
         'place': bd.TZWithCoords(1.0, 2.0, 3.5), 'user': Zone()}
DATE = {3: ('year', 'month', 'day'),
        5: ('kull_i_shay', 'vahid', 'year', 'month', 'day')}
TIME = ('hour', 'minute', 'second', 'microsecond')
ALLDATE = ('kull_i_shay', 'vahid', 'year', 'month', 'day')


def exists(f):
    """A date field tuple denotes a day of the calendar."""
    if len(f) == 5:
        k, v, y, m, d = f
        if not (1 <= v <= 19 and 1 <= y <= 19):
            return False
        f = (M.short_year(k, v, y), m, d)
    y, m, d = f
    return (M.MINYEAR <= y <= M.MAXYEAR and 0 <= m <= 19
            and 1 <= d <= M.month_len(y, m))


def time_ok(t):
    h, m, s, us = t
    return 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60 and 0 <= us < 10**6


def seen_date(o):
    if o.is_short:
        return o.year, o.month, o.day
    return o.kull_i_shay, o.vahid, o.year, o.month, o.day


def zone_name(z):
    for n, x in ZONES.items():
        if x is z:
            return n
    return repr(z)


def seen(o):
    """All fields: class, date, time, zone, fold."""
    t = type(o)
    if isinstance(o, bd.datetime):
        return (t, seen_date(o), (o.hour, o.minute, o.second, o.microsecond),
                zone_name(o.tzinfo), o.fold)
    if isinstance(o, bd.date):
        return t, seen_date(o)
    return (t, (o.hour, o.minute, o.second, o.microsecond),
            zone_name(o.tzinfo), o.fold)


def make(st):
    """A value with the given fields."""
    cls = st[0]
    if issubclass(cls, bd.datetime):
        pad = (None, None) if len(st[1]) == 3 else ()
        return cls(*st[1], *pad, *st[2], ZONES[st[3]], fold=st[4])
    if issubclass(cls, bd.date):
        return cls(*st[1])
    return cls(*st[1], ZONES[st[2]], fold=st[3])


def is_value(o, want, what):
    step()
    if seen(o) != want:
        raise Fail(f"{what} gave {o!r}: {show(seen(o))}, "
                   f"expected {show(want)}")
    # The fields of the value really are those of a value so constructed.
    w = make(want)
    if not (o == w and hash(o) == hash(w) and repr(o) == repr(w)):
        raise Fail(f"{what} gave {o!r}, which differs from {w!r}")


def show(st):
    return (st[0].__name__,) + st[1:]


def apply(st, kw):
    """The model of replace: field tuple after the change, or None."""
    cls = st[0]
    st = list(st)
    kw = dict(kw)
    if issubclass(cls, bd.date):
        names = DATE[len(st[1])]
        if len(names) == 3 and ('kull_i_shay' in kw or 'vahid' in kw):
            return None
        st[1] = tuple(kw.get(n, v) for n, v in zip(names, st[1]))
        if not exists(st[1]):
            return None
        i = 2
    else:
        i = 1
    if i < len(st):
        st[i] = tuple(kw.get(n, v) for n, v in zip(TIME, st[i]))
        if not time_ok(st[i]):
            return None
        st[i + 1] = kw.get('tzinfo', st[i + 1])
        st[i + 2] = kw.get('fold', st[i + 2])
        if st[i + 2] not in (0, 1):
            return None
    return tuple(st)


def do_replace(st, kw, o=None, positional=False):
    o = make(st) if o is None else o
    want = apply(st, kw)
    a = dict(kw)
    if 'tzinfo' in a:
        a['tzinfo'] = ZONES[a['tzinfo']]
    if positional:
        names = ((ALLDATE if issubclass(st[0], bd.date) else ())
                 + (TIME + ('tzinfo',) if len(st) > 2 else ()))
        last = max((i for i, n in enumerate(names) if n in a), default=-1)
        args = [a.pop(n) if n in a else (True if n == 'tzinfo' else None)
                for n in names[:last + 1]]
        ok, r = call(o.replace, *args, **a)
    else:
        ok, r = call(o.replace, **a)
    what = f"{o!r}.replace({kw})"
    if want is None:
        if ok:
            raise Fail(f"{what} gave {r!r}: {show(seen(r))}; "
                       "no such value exists")
        if not isinstance(r, REFUSE):
            raise Fail(f"{what} raised {r!r}")
        outcome('refused')
        return None
    if not ok:
        raise Fail(f"{what} raised {r!r}, expected {show(want)}")
    is_value(r, want, what)
    if seen(o) != st:
        raise Fail(f"{what} changed its receiver to {o!r}")
    outcome('replaced')
    return r


def date_values(n):
    """Values for each date field; the last ones are out of range."""
    if n == 3:
        return {'year': (-1842, 0, 1161, 182, -1844, 1163),
                'month': (0, 1, 19, 7, 20, -1),
                'day': (1, 5, 19, 4, 0, 20, -1)}
    return {'kull_i_shay': (1, 0, -5, 4, 5, -6),
            'vahid': (1, 19, 5, 10, 0, 20, -1),
            'year': (1, 19, 10, 11, 0, 20, -1, 180),
            'month': (0, 1, 19, 7, 20, -1),
            'day': (1, 5, 19, 4, 0, 20, -1)}


def replace_date(case):
    """All subsets of the date fields, all values of each."""
    cls, f, rest, names = case
    st = (CLS[cls], f) + ((tuple(rest[0]), *rest[1:]) if rest else ())
    vals = date_values(len(f))
    pick = []
    for n in names:
        v = vals[n]
        if TIER == 'quick' and len(names) > 2:
            v = v[:3] + v[-1:]
        pick.append(v)
    o = make(st)
    for combo in itertools.product(*pick):
        do_replace(st, tuple(zip(names, combo)), o)
    do_replace(st, tuple(zip(names, (p[0] for p in pick))), o, True)


TV = {'hour': (0, 23, 5, 25, -1), 'minute': (0, 59, 7, 60, -1),
      'second': (0, 59, 9, 61, -1),
      'microsecond': (0, 999999, 1, 10**6, -1),
      'tzinfo': tuple(ZONES), 'fold': (0, 1, 2, -1)}


def replace_time(case):
    """All subsets of the time fields, zone, and fold of a time or a
    datetime; a value of each, and each value once."""
    cls, st, names = case
    st = (CLS[cls],) + st
    o = make(st)
    n = max(len(TV[x]) for x in names)
    for i in range(n):
        for shift in range(3 if TIER == 'thorough' else 2):
            kw = tuple((x, TV[x][(i + shift * j) % len(TV[x])])
                       for j, x in enumerate(names))
            do_replace(st, kw, o, i % 2 == 1)
    if len(names) == 2 or TIER == 'thorough' and len(names) == 3:
        for combo in itertools.product(*(TV[x] for x in names)):
            do_replace(st, tuple(zip(names, combo)), o)


def mixed(case):
    """All subsets of all fields of a datetime at once."""
    cls, st, mask = case
    st = (CLS[cls],) + st
    dn = DATE[len(st[1])]
    names = dn + TIME + ('tzinfo', 'fold')
    dv = date_values(len(dn))
    o = make(st)
    for i in range(3):
        kw = tuple((n, (dv.get(n) or TV[n])[i if n != 'fold' else i % 2])
                   for b, n in enumerate(names) if mask >> b & 1)
        do_replace(st, kw, o, i == 1)


def refused(case):
    """Wrong kinds of arguments, and long form fields of short values."""
    cls, st, kw = case
    o = make((CLS[cls],) + st)
    ok, r = call(o.replace, **dict(kw))
    if ok or not isinstance(r, REFUSE):
        raise Fail(f"{o!r}.replace({dict(kw)}) gave {r!r}")


def split(case):
    """Splitting a datetime and combining the parts again."""
    cls, st = case
    full = (CLS[cls],) + st
    o = make(full)
    d, t, tz = o.date(), o.time(), o.timetz()
    is_value(d, (bd.date, full[1]), f"{o!r}.date()")
    is_value(t, (bd.time, full[2], 'none', full[4]), f"{o!r}.time()")
    is_value(tz, (bd.time, full[2], full[3], full[4]), f"{o!r}.timetz()")
    for c in (bd.datetime, MyDT):
        w = (c,) + full[1:]
        is_value(c.combine(d, tz), w, f"{c.__name__}.combine({d!r}, {tz!r})")
        is_value(c.combine(o, tz), w, f"{c.__name__}.combine({o!r}, {tz!r})")
        is_value(c.combine(MyDate(*full[1]), make((MyTime,) + full[2:])), w,
                 'combine of user classes')
        is_value(c.combine(d, t), w[:3] + ('none', full[4]),
                 f"{c.__name__}.combine({d!r}, {t!r})")
        for z in ZONES:
            is_value(c.combine(d, tz, ZONES[z]), w[:3] + (z, full[4]),
                     f"{c.__name__}.combine({d!r}, {tz!r}, {z})")
            is_value(c.combine(date=d, time=t, tzinfo=ZONES[z]),
                     w[:3] + (z, full[4]),
                     f"{c.__name__}.combine({d!r}, {t!r}, tzinfo={z})")
        for a in ((t, d), (d, o), (d, d), (t, t), (None, t), (d, None),
                  ('x', t), (d, 1), (d, t, 5), (d, t, 'x'),
                  (D.date(2024, 1, 1), t), (d, D.time(1))):
            ok, r = call(c.combine, *a)
            if ok or not isinstance(r, REFUSE):
                raise Fail(f"{c.__name__}.combine{a} gave {r!r}")
    if seen(o) != full:
        raise Fail(f"splitting changed {o!r}")
    outcome('split')


# ---------------------------------------------------------------- histories
def h_rep(*kw):
    return lambda st, o: (apply(st, kw), lambda: o.replace(
        **{k: ZONES[v] if k == 'tzinfo' else v for k, v in kw}))


def h_date(st, o):
    """Only the date, at midnight."""
    return (st[:2] + ((0, 0, 0, 0), 'none', 0),
            lambda: type(o).combine(o.date(), bd.time()))


def h_join(st, o):
    return st, lambda: type(o).combine(o.date(), o.timetz())


def h_bare(st, o):
    return st[:3] + ('none', st[4]), lambda: type(o).combine(o, o.time())


def h_rezone(st, o):
    return (st[:3] + ('user', st[4]),
            lambda: type(o).combine(o, o.timetz(), ZONES['user']))


def h_swap(st, o):
    """Another date under the same time."""
    f = ((181, 0, 4) if len(st[1]) == 5 else (1, 10, 11, 0, 5))
    return (st[:1] + (f,) + st[2:],
            lambda: type(o).combine(bd.date(*f), o.timetz()))


def h_time(st, o):
    """The same date with another time."""
    return (st[:2] + ((1, 2, 3, 4), 'a', 1), lambda: type(o).combine(
        o.date(), o.timetz().replace(1, 2, 3, 4, ZONES['a'], fold=1)))


HIST = {'month 0': h_rep(('month', 0)), 'day 5': h_rep(('day', 5)),
        'day 19': h_rep(('day', 19)), 'month 19': h_rep(('month', 19)),
        'year 11': h_rep(('year', 11)), 'vahid 3': h_rep(('vahid', 3)),
        'hour 23': h_rep(('hour', 23), ('microsecond', 7)),
        'zone b': h_rep(('tzinfo', 'b')), 'bare': h_rep(('tzinfo', 'none')),
        'fold 1': h_rep(('fold', 1)), 'fold 0': h_rep(('fold', 0)),
        'midnight': h_date, 'join': h_join, 'drop zone': h_bare,
        'rezone': h_rezone, 'swap': h_swap, 'time': h_time}


def history(case):
    """A sequence of operations; the last one may be refused."""
    cls, st, seq = case
    st = (CLS[cls],) + st
    o = make(st)
    for i, name in enumerate(seq):
        want, act = HIST[name](st, o)
        ok, r = call(act)
        what = f"{show(st)} {' > '.join(seq[:i + 1])}"
        if want is None:
            if ok or not isinstance(r, REFUSE):
                raise Fail(f"{what} gave {r!r}; no such value exists")
            if seen(o) != st:
                raise Fail(f"{what} changed its receiver to {o!r}")
            continue
        if not ok:
            raise Fail(f"{what} raised {r!r}")
        is_value(r, want, what)
        if seen(o) != st:
            raise Fail(f"{what} changed its receiver to {o!r}")
        st, o = want, r


CLS = {'date': bd.date, 'datetime': bd.datetime, 'time': bd.time,
       'MyDate': MyDate, 'MyDT': MyDT, 'MyTime': MyTime}


def subsets(names, lo=1):
    for r in range(lo, len(names) + 1):
        yield from itertools.combinations(names, r)


def build(tier):
    global TIER
    TIER = tier
    deep = tier == 'thorough'
    shorts = [(181, 1, 1), (182, 0, 5), (-1842, 19, 19), (1161, 0, 4)]
    longs = [(1, 10, 10, 1, 1), (1, 10, 11, 0, 5), (-5, 18, 1, 19, 19),
             (0, 19, 19, 7, 9)]
    rest = ((3, 4, 5, 6), 'place', 1)
    rd = []
    for f in shorts + longs:
        for names in subsets(DATE[len(f)]):
            for cls in ('MyDate', 'date'):
                if deep or (cls == 'date') == (f[-1] == 1):
                    rd.append((cls, f, (), names))
            if deep or len(names) < 3:
                rd.append(('MyDT', f, rest, names))
    sts = [((0, 0, 0, 0), 'none', 0), ((23, 59, 59, 999999), 'a', 1),
           ((5, 6, 7, 8), 'user', 0)]
    rt = []
    names = TIME + ('tzinfo', 'fold')
    for i, s in enumerate(sts):
        for sub in subsets(names):
            rt += [('time' if i else 'MyTime', s, sub),
                   ('MyDT' if i else 'datetime',
                    ((181, 0, 4) if i % 2 else (1, 10, 10, 18, 19),) + s,
                    sub)]
    mx = []
    for i, s in enumerate(sts):
        for f in (shorts[i], longs[i + 1]):
            n = len(f) + 6
            for mask in range(1, 1 << n):
                # quick: a third of the masks of each value, all in total
                if deep or mask % 3 == i:
                    mx.append(('MyDT' if mask & 1 else 'datetime',
                               (f,) + s, mask))
    wrong = [('hour', 'x'), ('tzinfo', 5), ('tzinfo', 'UTC')]
    rf = [('datetime', (f,) + sts[2], (kw,)) for f in ((181, 0, 4),
                                                      (1, 10, 10, 1, 1))
          for kw in wrong]
    rf += [('time', sts[2], (kw,)) for kw in wrong]
    for kws in subsets(('kull_i_shay', 'vahid')):
        for v in (-5, 0, 1, 10):
            kw = tuple((k, v) for k in kws)
            rf += [('date', (shorts[0],), kw),
                   ('datetime', (shorts[0],) + sts[1], kw)]
    rf += [(c, s, ((n, 1),)) for c, s in (
        ('date', (shorts[0],)), ('datetime', (shorts[0],) + sts[0]),
        ('time', sts[0])) for n in ('weekday', 'tz', 'short')]
    rf += [('date', (f,), ((n, 1),)) for f in (shorts[0], longs[0])
           for n in names]
    rf += [('time', sts[0], ((n, 1),)) for n in ALLDATE]
    times = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 0, 1),
             (7, 8, 0, 0), (1, 0, 59, 0)]
    sp = [(c, (f, t, z, fold)) for f in shorts + longs
          for t, c in zip(times, ('datetime', 'MyDT') * 3)
          for z in ZONES for fold in (0, 1)
          if deep or z in ('none', 'a', 'user') or t[0] == 23]
    depth = 4 if deep else 3
    starts = [('MyDT', ((182, 0, 5), (5, 6, 7, 8), 'place', 1)),
              ('datetime', ((1, 10, 10, 18, 19), (0, 0, 0, 0), 'none', 0))]
    hs = [(c, s, seq) for c, s in starts
          for seq in itertools.product(HIST, repeat=depth)]
    return [
        Space('dates', replace_date, rd, chunk=2,
              bound='every subset of the date fields, product of boundary '
              'and out-of-range values'),
        Space('times', replace_time, rt, chunk=4,
              bound='every subset of time fields, zone, and fold; pairs: '
              'all value pairs'),
        Space('mixed', mixed, mx, chunk=64,
              bound='all subsets of all 9 or 11 fields of a datetime'),
        Space('refused', refused, rf, chunk=16),
        Space('split and combine', split, sp, chunk=4),
        Space('histories', history, hs, chunk=128,
              bound=f"all {depth}-step sequences of {len(HIST)} operations"),
    ]


if __name__ == '__main__':
    main('C26', build, [
        'Hour 24 and second 60 (accepted by the constructors) are not among '
        'the values; zones are compared by identity.',
    ], bounds='see the bound of each space')
