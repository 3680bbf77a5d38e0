"""The week calendar numbers every day once and reads back."""
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TIER = 'quick'
BAD = (ValueError, AssertionError, TypeError)


def week_of(n, y):
    """Week-year, week, week day of ordinal n in year y, by counting."""
    w = M.week1(y)
    if n < w:
        if y == M.MINYEAR:
            # The year before the calendar: only its length is needed.
            first = M.FIRST_ORD - 365
            wd = M.weekday(first)
            w = first - wd + (7 if wd > 3 else 0)
            return y - 1, (n - w) // 7 + 1, (n - w) % 7 + 1
        y -= 1
        w = M.week1(y)
    else:
        nxt = M.LAST_ORD + 1
        if y < M.MAXYEAR:
            nxt = M.week1(y + 1)
        else:
            wd = M.weekday(nxt)
            nxt += -wd + (7 if wd > 3 else 0)
        if n >= nxt:
            y, w = y + 1, nxt
    return y, (n - w) // 7 + 1, (n - w) % 7 + 1


def weeks(y):
    """Number of weeks of the week-year y."""
    if y < M.MAXYEAR:
        return (M.week1(y + 1) - M.week1(y)) // 7
    wd = M.weekday(M.LAST_ORD + 1)
    return (M.LAST_ORD + 1 - wd + (7 if wd > 3 else 0) - M.week1(y)) // 7


def fudged(y):
    """Years whose ordinals or neighbours' ordinals are the known finding."""
    return bool({y - 1, y, y + 1} & set(M.FUDGE))


def make(ymd, kind):
    y, m, d = ymd
    a = M.long_form(y) + (m, d) if kind & 1 else ymd
    if not kind & 6:
        return bd.date(*a)
    pad = () if kind & 1 else (None, None)
    return bd.datetime(*a, *pad, *((23, 59) if kind & 2 else (0, 0, 1)))


def same(ymd, kind):
    want = week_of(M.ordinal(*ymd), ymd[0])
    o = make(ymd, kind)
    step()
    r = o.isocalendar()
    if tuple(r) != want or (r.year, r.week, r.weekday) != want:
        raise Fail(f"{o!r}.isocalendar() gave {tuple(r)} "
                   f"({r.year}, {r.week}, {r.weekday}), expected {want}")
    if any(type(x) is not int for x in tuple(r)):
        raise Fail(f"{o!r}.isocalendar() gave {tuple(r)}: not integers")
    outcome(f"week {want[1] if want[1] in (1, 52, 53) else '2-51'}")


def ends(y):
    """Days around both ends of the year, and one day of some months."""
    ds = M.days_of(y)
    if TIER == 'thorough':
        return ds
    n = len(ds)
    ix = {*range(8), *range(n - 8, n)} | {
        (y * 5 + k * 31) % n for k in range(3)}
    return [ds[i] for i in sorted(ix)]


def forward(y):
    if fudged(y):
        note('years left to C01 (known finding)')
        return
    for i, ymd in enumerate(ends(y)):
        same(ymd, (i + y) & 7)


def whole(c):
    y, kind = c
    for ymd in M.days_of(y):
        same(ymd, kind)


def back_case(y, w, d, short=True):
    n = M.week1(y) + (w - 1) * 7 + d - 1
    cls = bd.date if (y + w) & 1 else bd.datetime
    ok, r = call(cls.fromisocalendar, y, w, d, short=short)
    if n < M.FIRST_ORD:
        note('before the first day')
        return
    if n > M.LAST_ORD:
        # Year 1162 is the guard year; only a wrong date would be a fault.
        note('after the last day')
        return
    want = M.from_ordinal(n)
    if fudged(want[0]) or fudged(y):
        return
    what = f"{cls.__name__}.fromisocalendar({y}, {w}, {d}, short={short})"
    if not ok:
        raise Fail(f"{what} raised {type(r).__name__}: {r}")
    got = tuple(r.b_date) if hasattr(r, 'b_date') and cls is bd.datetime else (
        (r.year, r.month, r.day) if short else
        (r.kull_i_shay, r.vahid, r.year, r.month, r.day))
    full = want if short else M.long_form(want[0]) + want[1:]
    if got != full or r.is_short is not short or type(r) is not cls:
        raise Fail(f"{what} gave {r!r}, expected {full}")
    outcome('read')


def back(y):
    if fudged(y):
        return
    if TIER == 'thorough':
        ws = range(1, 52)
    else:
        ws = sorted({1, 51, y % 50 + 1})
    for w in ws:
        for d in ((1, 2, 3, 4, 5, 6, 7) if w == 1 or TIER == 'thorough'
                  else sorted({1, 7, (y + w) % 7 + 1})):
            back_case(y, w, d, short=bool((y + d) % 3))
    for w, d in ((0, 1), (-1, 1), (54, 1), (1, 0), (1, 8), (51, -1),
                 (100, 3), (52, 8), (52, 0)):
        ok, r = call(bd.date.fromisocalendar, y, w, d)
        if ok:
            raise Fail(f"fromisocalendar({y}, {w}, {d}) gave {r!r}: "
                       "there is no such week or day")
        if not isinstance(r, BAD):
            raise Fail(f"fromisocalendar({y}, {w}, {d}) raised "
                       f"{type(r).__name__}: {r}")
        outcome('refused')


LASTYEARS = [y for y in M.YEARS if not fudged(y)
             and -1842 < y < 1161]


def last_weeks(c):
    """Weeks 52 and 53 of every year starting on the given week day."""
    wd, leapday = c
    diff = {}
    n = 0
    for y in LASTYEARS:
        if M.weekday(M.year_start(y)) != wd or M.leap(y) != leapday:
            continue
        for w in (52, 53):
            exists = w <= weeks(y)
            for d in ((1, 7) if TIER == 'quick' else range(1, 8)):
                ok, r = call(bd.date.fromisocalendar, y, w, d)
                n += 1
                if not exists:
                    if ok:
                        k = f"week {w} of {weeks(y)}: accepted"
                    elif not isinstance(r, BAD):
                        k = f"week {w}: {type(r).__name__}"
                    else:
                        continue
                elif not ok:
                    k = (f"week {w} of {weeks(y)}: refused with "
                         f"{type(r).__name__}")
                else:
                    got = M.ordinal(r.year, r.month, r.day)
                    off = got - (M.week1(y) + (w - 1) * 7 + d - 1)
                    if not off:
                        continue
                    k = f"week {w} of {weeks(y)}: {off} days off"
                diff[k] = diff.get(k, 0) + 1
    step(n)
    outcome(f"last weeks {wd} {leapday}")
    if diff:
        raise Fail("; ".join(f"{k} ({v} dates)" for k, v in
                             sorted(diff.items())))


def bijection(y):
    """No two days of the year and its neighbours share a week date."""
    seen = {}
    for yy in (y - 1, y):
        ds = M.days_of(yy)
        ds = ds[-10:] if yy < y else ds
        for ymd in ds:
            o = bd.date(*ymd)
            step()
            r = tuple(o.isocalendar())
            if r in seen:
                raise Fail(f"{ymd} and {seen[r]} are both {r}")
            seen[r] = ymd
    outcome('a year without repeats')


def types():
    """One year of every kind: first week day x length x length before."""
    got = {}
    for y in range(1, 1161):
        got.setdefault((M.weekday(M.year_start(y)), M.leap(y),
                        M.leap(y - 1)), y)
    return sorted(got.values())


def build(tier):
    global TIER
    TIER = tier
    ty = types()
    q = tier == 'quick'
    return [
        Space('isocalendar', forward, M.YEARS, chunk=16,
              bound='every year; quick: 8 days at both ends and 3 inner days, '
                    'thorough: every day; short/long date/datetime'),
        Space('whole years', whole,
              [(y, k) for y in ty for k in ((y & 7,) if q else range(8))],
              chunk=1, bound='every day of one year of each of the '
                             f'{len(ty)} kinds (first week day x lengths)'),
        Space('fromisocalendar', back, M.YEARS, chunk=16,
              bound='every year; weeks 1, 51, and one more (thorough: all of '
                    '1-51), first and last week day, numbers that do not '
                    'exist'),
        Space('last weeks', last_weeks,
              [(w, b) for w in range(7) for b in (False, True)], chunk=1,
              bound='weeks 52 and 53 of every year, by first week day'),
        Space('no repeats', bijection, ty if q else list(range(-100, 600)),
              chunk=1),
    ]


if __name__ == '__main__':
    main('C16', build, bounds='all 3004 years',
         assumptions=['years next to -1796, -1792, -1788 are left to C01',
                      'week dates outside the calendar are not judged'])
