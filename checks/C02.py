"""Calendar structure: exactly the days of the calendar can be constructed."""
import itertools

import _boot  # noqa: F401
from engine import Fail, Space, call, main, outcome, step
import model as M
import badidatetime as bd

REJ = (AssertionError, ValueError, TypeError, OverflowError)


def attempt(fn, *a, **k):
    ok, v = call(fn, *a, **k)
    if not ok and not isinstance(v, REJ):
        raise Fail(f"{fn}{a}{k}: raised {type(v).__name__}: {v}")
    return ok, v


def p_short(case):
    """date(y, m, d) for every month -2..21 and day -1..21 of the year."""
    (y,) = case
    good = set(M.days_of(y))
    n = 0
    for m in range(-2, 22):
        for d in range(-1, 22):
            ok, v = attempt(bd.date, y, m, d)
            if ok != ((y, m, d) in good):
                raise Fail(f"date({y}, {m}, {d}) "
                           f"{'accepted' if ok else f'rejected: {v}'}")
            if ok:
                n += 1
                if ((v.year, v.month, v.day) != (y, m, d)
                        or v.b_date != (y, m, d) or v.is_short is not True):
                    raise Fail(f"date({y}, {m}, {d}) holds {v.b_date}")
    outcome(f"{n} days")
    if n != M.year_len(y):
        raise Fail(f"year {y} has {n} days")


def p_limits(case):
    """The constants say which values exist."""
    TD = bd.timedelta
    C = bd.BahaiCalendar
    want = {'KULLISHAY': ((C.KULLISHAY_MIN, C.KULLISHAY_MAX), (-5, 4)),
            'MINYEAR': (bd.MINYEAR, -1842), 'MAXYEAR': (bd.MAXYEAR, 1161),
            'date': ((bd.date.min.b_date, bd.date.max.b_date,
                      bd.date.longmin.b_date, bd.date.longmax.b_date),
                     ((-1842, 1, 1), (1161, 19, 19), (-5, 18, 1, 1, 1),
                      (4, 5, 2, 19, 19))),
            'datetime': (tuple(x.b_date + x.b_time for x in (
                bd.datetime.min, bd.datetime.max)),
                ((-1842, 1, 1, 0, 0, 0, 0), (1161, 19, 19, 0, 0, 0, 0))),
            'time': (tuple((t.hour, t.minute, t.second, t.microsecond)
                           for t in (bd.time.min, bd.time.max)),
                     ((0, 0, 0, 0), (24, 0, 3, 0))),
            'resolution': ((bd.date.resolution, bd.time.resolution,
                            bd.datetime.resolution),
                           (TD(days=1), TD(microseconds=1),
                            TD(microseconds=1))),
            'timezone': (tuple(z.utcoffset(None) for z in (
                bd.timezone.min, bd.timezone.max)),
                (TD(minutes=-1439), TD(minutes=1439)))}
    a, b = want[case[0]]
    step()
    if a != b:
        raise Fail(f"limits of {case[0]}: {a}, not {b}")


def p_long(case):
    """The long form accepts the same days."""
    (y,) = case
    k, v, q = M.long_form(y)
    good = set(M.days_of(y))
    for m in (-1, 0, 1, 10, 18, 19, 20):
        for d in (-1, 0, 1, 4, 5, 6, 19, 20):
            ok, x = attempt(bd.date, k, v, q, m, d)
            if ok != ((y, m, d) in good):
                raise Fail(f"date({k}, {v}, {q}, {m}, {d}) "
                           f"{'accepted' if ok else f'rejected: {x}'}")
            if ok and ((x.kull_i_shay, x.vahid, x.year, x.month, x.day)
                       != (k, v, q, m, d) or x.b_date != (k, v, q, m, d)
                       or x.is_short is not False):
                raise Fail(f"long date holds {x.b_date}")
    for bad in ((k, 0, q), (k, 20, q), (k, v, 0), (k, v, 20), (k, -1, q),
                (k, v, -1), (k, v, 21)):
        ok, x = attempt(bd.date, *bad, 1, 1)
        if ok:
            raise Fail(f"date{bad + (1, 1)} accepted")


def p_datetime(case):
    """datetime has the same days; both ends of each month."""
    (y,) = case
    k = M.long_form(y)
    good = set(M.days_of(y))
    for m in range(-1, 21):
        for d in (0, 1, 4, 5, 6, 19, 20):
            ok, v = attempt(bd.datetime, y, m, d, None, None, 1, 2, 3, 4)
            ok2, w = attempt(bd.datetime, *k, m, d, 1, 2, 3, 4)
            want = (y, m, d) in good
            if ok != want or ok2 != want:
                raise Fail(f"datetime of {(y, m, d)} accepted: {ok}, "
                           f"long form: {ok2}")
            if want and (v.b_date != (y, m, d) or w.b_date != (*k, m, d)
                         or v.b_time != (1, 2, 3, 4) or v.b_time != w.b_time):
                raise Fail(f"datetime of {(y, m, d)} holds {v!r} {w!r}")


def time_ok(h, mi, s, us, fold):
    return (0 <= h <= 24 and 0 <= mi <= 59 and 0 <= s <= 60
            and 0 <= us <= 999999 and fold in (0, 1))


HS = (-1, 0, 1, 11, 12, 13, 23, 24, 25, 26, 100)
MS = (-1, 0, 1, 30, 59, 60, 61)
SS = (-1, 0, 1, 59, 60, 61, 62)
US = (-1, 0, 1, 999999, 1000000)


def p_time(case):
    """Hour 0-24, minute 0-59, second 0-60, microsecond 0-999999, fold."""
    h, mi = case
    for s in SS:
        for us in US:
            for fold in (-1, 0, 1, 2):
                want = time_ok(h, mi, s, us, fold)
                ok, t = attempt(bd.time, h, mi, s, us, fold=fold)
                ok2, x = attempt(bd.datetime, 181, 1, 1, None, None, h, mi,
                                 s, us, fold=fold)
                if ok != want or ok2 != want:
                    raise Fail(f"time {(h, mi, s, us)} fold {fold}: time "
                               f"{'accepted' if ok else 'rejected'}, datetime "
                               f"{'accepted' if ok2 else 'rejected'}")
                if want and not (
                        (t.hour, t.minute, t.second, t.microsecond, t.fold)
                        == (x.hour, x.minute, x.second, x.microsecond, x.fold)
                        == (h, mi, s, us, fold)):
                    raise Fail(f"{t!r} {x!r} do not hold {(h, mi, s, us)}")


def p_allhms(case):
    """Every hour, minute, and second of a day is a valid time."""
    (h,) = case
    for mi in range(60):
        for s in range(61):
            t = bd.time(h, mi, s)
            step()
            if (t.hour, t.minute, t.second, t.microsecond, t.fold,
                    t.tzinfo) != (h, mi, s, 0, 0, None):
                raise Fail(f"time({h}, {mi}, {s}) holds {t!r}")


def p_convert(case):
    """The conversions of the calendar class reject the same dates."""
    (y,) = case
    bc = bd.BahaiCalendar()
    good = set(M.days_of(y))
    k = M.long_form(y)
    for m in (-1, 0, 1, 18, 19, 20):
        for d in (0, 1, 4, 5, 6, 19, 20):
            want = (y, m, d) in good
            ok, v = attempt(bc.long_date_from_short_date, (y, m, d),
                            trim=True)
            ok2, w = attempt(bc.short_date_from_long_date, (*k, m, d),
                             trim=True)
            if ok != want:
                raise Fail(f"long_date_from_short_date({(y, m, d)}) "
                           f"{'accepted' if ok else 'rejected'}")
            if want and (not ok2 or v != (*k, m, d) or w != (y, m, d)):
                raise Fail(f"forms of {(y, m, d)}: {v} {w}")
            if not want:
                ok3, j = attempt(bc.jd_from_badi_date, (y, m, d))
                if ok3:
                    raise Fail(f"jd_from_badi_date({(y, m, d)}) gave {j}")


def p_replace(case):
    """replace() cannot leave the calendar either."""
    (y,) = case
    good = set(M.days_of(y))
    k = M.long_form(y)
    src = [bd.date(y, 3, 5), bd.datetime(y, 3, 5, None, None, 1, 2, 3, 4),
           bd.date(*k, 3, 5), bd.datetime(*k, 3, 5, 1, 2, 3, 4)]
    for m in (-1, 0, 1, 18, 19, 20):
        for d in (0, 1, 4, 5, 6, 19, 20):
            want = (y, m, d) in good
            for s in src:
                ok, v = attempt(s.replace, month=m, day=d)
                if ok != want or ok and v.b_date[-2:] != (m, d):
                    raise Fail(f"{s!r}.replace(month={m}, day={d}) "
                               f"{'gave ' + repr(v) if ok else 'rejected'}")
    for y2 in [y + k for k in range(-5, 6)] + [-y, y + 361, y - 1900,
                                               99999, -99999, 0]:
        for d in (4, 5):
            if (y, 0, d) not in good or y2 in (M.MINYEAR - 1, M.MAXYEAR + 1):
                continue
            want = (M.MINYEAR <= y2 <= M.MAXYEAR
                    and (y2, 0, d) in set(M.days_of(y2)))
            for s in (bd.date(y, 0, d),
                      bd.datetime(y, 0, d, None, None, 1, 2, 3, 4)):
                ok, v = attempt(s.replace, year=y2)
                if ok != want or ok and v.b_date != (y2, 0, d):
                    raise Fail(f"{s!r}.replace(year={y2}) "
                               f"{'gave ' + repr(v) if ok else 'rejected'}")


def p_range(case):
    """Years outside the calendar (one guard year each side) are rejected."""
    fields = case
    for cls in (bd.date, bd.datetime):
        ok, v = call(cls, *fields)
        if ok:
            raise Fail(f"{cls.__name__}{fields} gave {v!r}")


def p_parts(case):
    """A field with a fraction may not be followed by smaller fields."""
    y, m, day, hour = case
    B = bd.BahaiCalendar()
    long = M.long_form(y)
    for minute, sec in itertools.product((0, 1, 0.5, 30.25, 59),
                                         (0, 0.5, 1, 1.5, 59)):
        t = (day, hour, minute, sec)
        nz = [i for i, v in enumerate(t) if v]
        fr = [i for i, v in enumerate(t[:3]) if v % 1]
        bad = bool(fr) and max(nz) > min(fr)
        for what, d in (('jd_from_badi_date', (y, m) + t),
                        ('long_date_from_short_date', (y, m) + t),
                        ('date_from_kvymdhms', (*long, m) + t),
                        ('kvymdhms_from_b_date', (*long, m) + t)):
            ok, v = call(getattr(B, what), d)
            step()
            if ok == bad:
                raise Fail(f"{what}({d}) "
                           f"{'gave ' + repr(v) if ok else 'was refused'}")


def p_whole(case):
    """A fraction of a year, cycle, or month is no date, nor one of a day."""
    y, m, d = case
    B = bd.BahaiCalendar()
    short = (y, m, d)
    long = M.long_form(y) + (m, d)
    for base in (short, long):
        sf = base is short
        for i, part in itertools.product(range(len(base)),
                                         (.5, -.5, 1e-6, float('nan'))):
            f = base[:i] + (base[i] + part,) + base[i + 1:]
            name = (('year', 'month', 'day') if sf else (
                'kull_i_shay', 'vahid', 'year', 'month', 'day'))[i]
            todo = [(c.__name__, c, f, {}) for c in (bd.date, bd.datetime)]
            todo += [(f"{o!r}.replace", o.replace, (), {name: f[i]})
                     for o in (bd.date(*base),
                               bd.datetime(*base, *(None, None) * sf, 1, 2))]
            if i < len(base) - 1:
                todo += [(n, getattr(B, n), (f,), {}) for n in (
                    ('jd_from_badi_date', 'long_date_from_short_date',
                     'gregorian_date_from_badi_date') if sf else
                    ('short_date_from_long_date', 'date_from_kvymdhms',
                     'kvymdhms_from_b_date'))]
            for what, g, args, kw in todo:
                ok, v = call(g, *args, **kw)
                step()
                if ok:
                    raise Fail(f"{what}{args or kw} gave {v}")
        for g in (bd.date, bd.datetime):        # whole numbers are
            ok, v = call(g, *base)
            if not ok or v.b_date != base:
                raise Fail(f"{g.__name__}{base}: {v}")


def p_types(case):
    """Wrong numbers of fields and wrong types never construct anything."""
    args, kw = case
    for cls in (bd.date, bd.datetime):
        ok, v = attempt(cls, *args, **dict(kw))
        if ok:
            raise Fail(f"{cls.__name__}{args} gave {v!r}")


def build(tier):
    ys = [(y,) for y in M.YEARS]
    some = [c for c in ys if tier == 'thorough' or c[0] % 19 in (0, 1, 5)
            or -20 < c[0] < 300 or c[0] in M.LEAPS and c[0] % 3 == 0]
    bad = [((181, 1), ()), ((181,), ()), ((181, 1, 1, 1), ()),
           ((None, None, None), ()), ((181, None, 1), ())]
    far = [*range(-1860, M.MINYEAR - 1), *range(M.MAXYEAR + 2, 1180), -9999,
           -5000, -2000, 1500, 2000, 5000, 9999]
    out = [(y, m, 1) for y in far for m in (0, 1, 19)]
    out += [(k, v, q, 1, 1) for k in (-100, -8, -7, 6, 7, 100)
            for v in (1, 19) for q in (1, 19)]
    out += [(4, v, q, 1, 1) for v in range(5, 20) for q in range(1, 20)
            if M.short_year(4, v, q) > M.MAXYEAR + 1]
    out += [(-5, v, q, 1, 1) for v in range(1, 20) for q in range(1, 20)
            if M.short_year(-5, v, q) < M.MINYEAR - 1]
    return [
        Space('range', p_range, out),
        Space('limits', p_limits, [(k,) for k in (
            'KULLISHAY', 'MINYEAR', 'MAXYEAR', 'date', 'datetime', 'time', 'resolution',
            'timezone')]),
        Space('short', p_short, ys, 16,
              bound='every year, months -2..21, days -1..21'),
        Space('long', p_long, ys, 32),
        Space('datetime', p_datetime, ys, 32),
        Space('conversions', p_convert, some, 16),
        Space('replace', p_replace, some, 16),
        Space('time', p_time, [(h, m) for h in HS for m in MS], 4),
        Space('all-times', p_allhms, [(h,) for h in range(25)], 1,
              bound='every hour, minute, and second'),
        Space('arity', p_types, bad),
        Space('whole', p_whole, [
            (y, m, d) for y in (M.MINYEAR, -722, -1, 0, 1, 180, 181, 361,
                                M.MAXYEAR)
            for m in (1, 0, 2, 18, 19) for d in (1, 2, 4, 19)
            if m or d < 5]),
        Space('parts', p_parts, [
            (y, m, d, h) for y in (-1842, -1, 0, 1, 181, 1161)
            for m in (1, 0, 19) for d in (1, 3.5, 2.000001)
            for h in (0, 1, 0.5, 12, 23.999)]),
    ]


if __name__ == '__main__':
    main('C02', build,
         bounds='all 3004 years x 24 month numbers x 23 day numbers, all '
         '25*60*61 times of day, boundary values of every time field',
         assumptions=['leap-year table data/leap_years.txt (decided by C03)'])
