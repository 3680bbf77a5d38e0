"""ISO text of a value reads back as the same value."""
import datetime as D
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TIER = 'quick'
SPECS = ('auto', 'hours', 'minutes', 'seconds', 'milliseconds',
         'microseconds')
US = (0, 1, 9, 10, 99, 999, 1000, 1001, 99999, 100000, 123456, 500000,
      999000, 999998, 999999)


class MyDatetime(bd.datetime):
    """A user class."""


def date_text(y, m, d):
    return f"{y:04d}-{m:02d}-{d:02d}"


def time_text(h, m, s, us, spec):
    if spec == 'hours':
        return f"{h:02d}"
    if spec == 'minutes':
        return f"{h:02d}:{m:02d}"
    t = f"{h:02d}:{m:02d}:{s:02d}"
    if spec == 'milliseconds':
        t += f".{us // 1000:03d}"
    elif spec == 'microseconds' or spec == 'auto' and us:
        t += f".{us:06d}"
    return t


def cut(h, m, s, us, spec):
    """The time that the text holds."""
    return {'hours': (h, 0, 0, 0), 'minutes': (h, m, 0, 0),
            'seconds': (h, m, s, 0),
            'milliseconds': (h, m, s, us // 1000 * 1000)}.get(
                spec, (h, m, s, us))


def off_text(minutes):
    if minutes is None:
        return ''
    h, m = divmod(abs(minutes), 60)
    return f"{'-' if minutes < 0 else '+'}{h:02d}:{m:02d}"


def zone(minutes):
    return None if minutes is None else bd.timezone(
        D.timedelta(minutes=minutes))


def read(text, fields, time, minutes, cls=bd.datetime):
    ok, r = call(cls.fromisoformat, text)
    if not ok:
        raise Fail(f"{text!r} raised {type(r).__name__}: {r}")
    off = r.utcoffset()
    if ((r.year, r.month, r.day) != fields or r.b_time != time
            or r.microsecond != time[3] or not isinstance(r.second, int)
            or type(r) is not cls or not r.is_short
            or (None if off is None else off // D.timedelta(minutes=1))
            != minutes or (r.tzinfo is None) != (minutes is None)):
        raise Fail(f"{text!r} reads as {r!r}")
    return r


def p_days(y):
    """Every day of the year as date and as datetime, in both forms."""
    for k, (y, m, d) in enumerate(M.days_of(y)):
        want = date_text(y, m, d)
        a, b = bd.date(y, m, d), bd.date(*M.long_form(y), m, d)
        if a.isoformat() != want or b.isoformat() != want or (
                str(a) != want or f"{a}" != want):
            raise Fail(f"{a!r}: {a.isoformat()!r} {b.isoformat()!r} "
                       f"{str(a)!r}, expected {want!r}")
        kk, v, q = M.long_form(y)
        lt = f"{kk:0{3 if kk < 0 else 2}d}-{v:02d}-{q:02d}-{m:02d}-{d:02d}"
        if str(b) != lt:
            raise Fail(f"{b!r}: str {str(b)!r}, expected {lt!r}")
        for short in (True, False):
            ok, r = call(bd.date.fromisoformat, want, short=short)
            if not ok or r.b_date != (a if short else b).b_date or (
                    r.is_short is not short):
                raise Fail(f"{want!r} short={short} reads as {r!r}")
        # rotate time and offset over the days
        i = k + y
        if TIER == 'quick' and i % 3:
            continue
        i //= 3
        t = (i % 24, i % 60, i * 7 % 60, US[i % len(US)])
        mi = (None, 0, 210, -570, 1439, -1439, 59, -1)[i % 8]
        sp = SPECS[i % 6]
        form = i % 2
        f = (y, m, d, None, None) if form else M.long_form(y) + (m, d)
        x = bd.datetime(*f, *t, zone(mi))
        text = want + 'T' + time_text(*t, sp) + off_text(mi)
        if x.isoformat(timespec=sp) != text:
            raise Fail(f"{x!r}: {x.isoformat(timespec=sp)!r}, expected "
                       f"{text!r}")
        if not form:
            st = (lt + 'T' + time_text(*t, 'auto') + off_text(mi))
            if str(x) != st:
                raise Fail(f"{x!r}: str {str(x)!r}, expected {st!r}")
        elif str(x) != x.isoformat():
            raise Fail(f"{x!r}: str {str(x)!r}")
        r = read(text, (y, m, d), cut(*t, sp), mi)
        if sp in ('auto', 'microseconds') and (
                r != x or mi is None and hash(r) != hash(x)):
            raise Fail(f"{text!r}: {r!r} != {x!r}")
        step(4)
    outcome('year')


def p_seconds(h):
    for mi in range(60):
        for s in range(60):
            if h == 24 and (mi or s > 3):
                continue
            for us in ((US[(mi + s) % len(US)],) if TIER == 'quick' else US):
                if h == 24 and us:
                    continue
                x = bd.time(h, mi, s, us)
                w = bd.datetime(181, 0, 3, None, None, h, mi, s, us)
                for sp in SPECS:
                    t = time_text(h, mi, s, us, sp)
                    if x.isoformat(sp) != t:
                        raise Fail(f"{x!r} {sp}: {x.isoformat(sp)!r}")
                    c = cut(h, mi, s, us, sp)
                    if not c[3]:     # see the space "times as they are"
                        for p in 'T ':
                            r = bd.time.fromisoformat(p + t)
                            if (r.hour, r.minute, r.second,
                                    r.microsecond) != c:
                                raise Fail(f"{p + t!r} reads as {r!r}")
                    text = '0181-00-03 ' + t
                    if w.isoformat(' ', sp) != text:
                        raise Fail(f"{w!r}: {w.isoformat(' ', sp)!r}")
                    read(text, (181, 0, 3), c, None)


def p_us(lo):
    for us in range(lo, lo + 1000):
        s = us % 60
        for sp in ('auto', 'milliseconds', 'microseconds'):
            t = time_text(23, 59, s, us, sp)
            w = bd.datetime(181, 0, 3, None, None, 23, 59, s, us)
            if w.isoformat(timespec=sp) != '0181-00-03T' + t:
                raise Fail(f"{w!r}: {w.isoformat(timespec=sp)}")
            read('0181-00-03T' + t, (181, 0, 3), cut(23, 59, s, us, sp),
                 None)


def p_offset(mi):
    z = zone(mi)
    for y in (-1842, -1, 181):
        for k, sp in enumerate(SPECS):
            t = (23, 59, 58, 1000) if k % 2 else (0, 0, 0, 0)
            for cls in (bd.datetime, MyDatetime):
                x = cls(y, 19, 19, None, None, *t, z)
                text = (date_text(y, 19, 19) + 'T' + time_text(*t, sp)
                        + off_text(mi))
                if x.isoformat(timespec=sp) != text:
                    raise Fail(f"{x!r}: {x.isoformat(timespec=sp)!r}, "
                               f"expected {text!r}")
                read(text, (y, 19, 19), cut(*t, sp), mi, cls)
            u = bd.time(*t, z)
            if u.isoformat(sp) != time_text(*t, sp) + off_text(mi):
                raise Fail(f"{u!r}: {u.isoformat(sp)!r}")


def p_odd_offset(case):
    """Offsets with seconds and microseconds: text only (see DESIGN)."""
    s, us = case
    td = D.timedelta(seconds=s, microseconds=us)
    z = bd.timezone(td)
    n = abs(s * 10**6 + us)
    sg = '-' if s * 10**6 + us < 0 else '+'
    h, r = divmod(n, 3600 * 10**6)
    m, r = divmod(r, 60 * 10**6)
    ss, u = divmod(r, 10**6)
    want = f"{sg}{h:02d}:{m:02d}" + (
        (f":{ss:02d}" + (f".{u:06d}" if u else '')) if ss or u else '')
    x = bd.datetime(181, 1, 1, tzinfo=z)
    if x.isoformat() != '0181-01-01T00:00:00' + want:
        raise Fail(f"{x!r}: {x.isoformat()!r}, expected ...{want}")


def p_sep(i):
    sep = ('T', ' ', 't', '_', '\n', '/', 'é', '', '--')[i]
    x = bd.datetime(181, 1, 2, None, None, 3, 4, 5)
    if x.isoformat(sep) != f"0181-01-02{sep}03:04:05":
        raise Fail(f"{sep!r}: {x.isoformat(sep)!r}")


def p_time(case):
    """A time read from its own text."""
    t, mi = case
    x = bd.time(*t, zone(mi))
    ok, r = call(bd.time.fromisoformat, x.isoformat())
    if not ok or r != x or r.utcoffset() != x.utcoffset():
        raise Fail(f"{x.isoformat()!r} reads as {r!r}" if ok else
                   f"{x.isoformat()!r} is refused")


def p_tfrac(case):
    t = case
    x = bd.time(*t)
    ok, r = call(bd.time.fromisoformat, 'T' + x.isoformat())
    if not ok or (r.hour, r.minute, r.second, r.microsecond) != t:
        raise Fail(f"{'T' + x.isoformat()!r} does not give second and "
                   "microsecond")


def build(tier):
    global TIER
    TIER = tier
    return [
        Space('days', p_days, list(M.YEARS), 12,
              bound='every day of the calendar, both forms, rotating time, '
                    'precision, and offset'),
        Space('seconds', p_seconds, range(25), 1,
              bound='every second x six precisions'),
        Space('microseconds', p_us,
              range(0, 10**6, 1000 if tier != 'quick' else 20000), 1,
              bound='thorough: every microsecond'),
        Space('offsets', p_offset, range(-1439, 1440), 30,
              bound='every whole-minute offset x six precisions'),
        Space('odd offsets', p_odd_offset,
              [(s, u) for s in range(-86399, 86400, 601 if tier == 'quick'
                                     else 7)
               for u in (0, 1, 999999)] + [(0, -1), (-1, 0), (59, 0)], 50,
              bound='offsets with seconds and microseconds'),
        Space('separators', p_sep, range(9), 9),
        Space('times as they are', p_time,
              [((1, 2, 3, 0), None), ((1, 2, 3, 0), 210),
               ((0, 0, 0, 0), None)], 3),
        Space('times with a fraction', p_tfrac,
              [(1, 2, 3, u) for u in (1, 500000, 999999)], 3)]


if __name__ == '__main__':
    main('C14', build,
         ['time.fromisoformat needs a leading T or space and keeps fractions '
          'of a second in the second (known findings); offsets with seconds '
          'are written but refused by the parser (two colons).'],
         'every day; every second; every whole-minute offset; precisions')
