"""The ISO parser accepts exactly its documented language."""
import datetime as D
import re
from fractions import Fraction as F
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import model as M
import badidatetime as bd

TIER = 'quick'
A = re.ASCII
DATE = re.compile(r'(-?\d{4}|-\d{3})-(\d\d)(?:-(\d\d))?', A)
BASIC = re.compile(r'(-?\d{4})(\d\d)(\d\d)', A)
ORDX = re.compile(r'(-?\d{4}|-\d{3})-(\d{3})', A)
ORDB = re.compile(r'(-?\d{4})(\d{3})', A)
WEEKX = re.compile(r'(-?\d{4}|-\d{3})-W(\d\d)-(\d)', A)
WEEKB = re.compile(r'(-?\d{4})W(\d\d)(\d)', A)
TIME = re.compile(r'[T ](?:(\d\d)(?:(\d\d)(?:(\d\d))?)?(\.\d+)?'
                  r'|(\d\d):(\d\d)(?::(\d\d))?(\.\d+)?)?', A)
OFF = re.compile(r'([+-])(\d\d)(?::(\d\d))?', A)
REST = re.compile(r'([T ][\d:.]*)?(Z|B|[+-].*)?', A | re.S)
UNKNOWN = 'unknown'      # the week forms of the known finding


def weeks(y):
    n = M.week1(y + 1) if y < M.MAXYEAR else (
        M.week1(y) + 7 * 52 if (M.LAST_ORD + 1 - M.week1(y)) % 7 > 3 else
        M.week1(y) + 7 * ((M.LAST_ORD + 1 - M.week1(y)) // 7))
    return (n - M.week1(y)) // 7


def date_of(t):
    """(y, m, d), None when no such date, False when not of the form."""
    for rx, kind in ((DATE, 'd'), (BASIC, 'd'), (ORDX, 'o'), (ORDB, 'o'),
                     (WEEKX, 'w'), (WEEKB, 'w')):
        g = rx.fullmatch(t)
        if not g:
            continue
        y = int(g[1])
        if not M.MINYEAR <= y <= M.MAXYEAR:
            return None
        if kind == 'd':
            m, d = int(g[2]), int(g[3] or 1)
            if not 0 <= m <= 19 or not 1 <= d <= M.month_len(y, m):
                return None
            return y, m, d
        if kind == 'o':
            k = int(g[2])
            return (y,) + M.month_day(y, k) if 1 <= k <= M.year_len(y) else (
                None)
        w, d = int(g[2]), int(g[3])
        if w >= 52 and w <= 53:
            return UNKNOWN       # C16 decides these
        if not 1 <= w <= 51 or not 1 <= d <= 7:
            return None
        n = M.week1(y) + (w - 1) * 7 + d - 1
        if n < M.FIRST_ORD or y in M.FUDGE or y - 1 in M.FUDGE:
            return UNKNOWN
        return M.from_ordinal(n)
    return False


def time_of(t):
    """Microseconds and exactness, None, or False."""
    if t == '':
        return 0, (0, 0, 0, 0)
    g = TIME.fullmatch(t)
    if not g:
        return False
    p = [x for x in (g[1], g[2], g[3], g[5], g[6], g[7]) if x is not None]
    fr = g[4] or g[8]
    if not p:
        return 0, (0, 0, 0, 0)
    v = [int(x) for x in p]
    if v[0] > 24 or any(x > 59 for x in v[1:2]) or any(
            x > 60 for x in v[2:]):
        return None
    unit = (3600, 60, 1)[len(v) - 1]
    tot = sum(F(x * u) for x, u in zip(v, (3600, 60, 1)))
    if fr:
        tot += F(fr[1:]) / 10 ** len(fr[1:]) * unit
    v += [0] * (3 - len(v))
    return tot * 10**6, None if fr else tuple(v) + (0,)


def zone_of(t):
    """Minutes, None (no zone), 'bad', or False."""
    if t == '':
        return None
    if t == 'Z':
        return 0
    if t == 'B':
        return 210
    g = OFF.fullmatch(t)
    if not g:
        return False
    h, m = int(g[2]), int(g[3] or 0)
    if h > 23 or m > 59:
        return 'bad'
    return (h * 60 + m) * (-1 if g[1] == '-' else 1)


def meaning(t):
    """What the text denotes, or None."""
    for i in range(len(t), 0, -1):
        d = date_of(t[:i])
        if d is False:
            continue
        g = REST.fullmatch(t[i:])
        if not g:
            continue
        tm, z = time_of(g[1] or ''), zone_of(g[2] or '')
        if tm is False or z is False:
            continue
        if d is UNKNOWN:
            return UNKNOWN
        if d is None or tm is None or z == 'bad':
            return None
        return d, tm, z
    return None


BAD = (ValueError, AssertionError)


def judge(t):
    want = meaning(t)
    if want is UNKNOWN:
        note('week forms left to C16')
        return
    ok, r = call(bd.datetime.fromisoformat, t)
    if want is None:
        if ok:
            raise Fail(f"datetime: {t!r} accepted as {r!r}")
        if not isinstance(r, BAD):
            raise Fail(f"datetime: {t!r} raised {type(r).__name__}: {r}")
        outcome('refused')
    else:
        ymd, (us, exact), z = want
        if not ok:
            raise Fail(f"datetime: {t!r} refused: {type(r).__name__}: {r}")
        if r.b_date != ymd or not r.is_short:
            raise Fail(f"datetime: {t!r} gave {r!r}, expected {ymd}")
        if exact is not None and r.b_time != exact:
            raise Fail(f"datetime: {t!r} gave {r!r}, expected {exact}")
        h, m, s, u = r.b_time
        if abs(((h * 60 + m) * 60 + s) * 10**6 + u - us) > 1 or not (
                0 <= h <= 24 and 0 <= m <= 59 and 0 <= s <= 60
                and 0 <= u <= 999999) or any(
                    type(x) is not int for x in (h, m, s, u)):
            raise Fail(f"datetime: {t!r} gave {r!r}, expected {us} us")
        o = r.utcoffset()
        if o != (None if z is None else D.timedelta(minutes=z)):
            raise Fail(f"datetime: {t!r} gave {r!r}, expected offset {z}")
        outcome('accepted')
    # the date parser: exactly the strings without time and zone
    if 'T' not in t and ' ' not in t:
        d = date_of(t)
        if d is UNKNOWN:
            return
        ok, r = call(bd.date.fromisoformat, t)
        if d in (None, False):
            if ok or not isinstance(r, BAD):
                raise Fail(f"date: {t!r} gave {r!r}")
        elif not ok or r.b_date != d:
            raise Fail(f"date: {t!r} gave {r!r}, expected {d}")


def judge_time(t):
    want = time_of(t)
    ok, r = call(bd.time.fromisoformat, t)
    if want in (None, False):
        if ok or not isinstance(r, BAD):
            raise Fail(f"time: {t!r} gave {r!r}")
        outcome('time refused')
        return
    us, exact = want
    if not ok:
        raise Fail(f"time: {t!r} refused: {r}")
    got = ((r.hour * 60 + r.minute) * 60 + F(r.second)) * 10**6
    got += r.microsecond
    if abs(got - us) > 1 or exact and (r.hour, r.minute, r.second,
                                       r.microsecond) != exact:
        raise Fail(f"time: {t!r} gave {r!r}")
    outcome('time accepted')


BASES = ('0181-01-01', '01810101', '0181-01', '0181-001', '0181001',
         '0181-W01-1', '0181W011', '-1842-01-01', '-999-01-01', '1161-19-19',
         '-1842001', '-18420919', '-0009-W20-7', '0000-00-04',
         '0182-00-05', '0181-01-01T12', '0181-01-01T12:30',
         '0181-01-01 12:30:30', '0181-01-01T12:30:30.5', '0181-01-01T1230',
         '0181-01-01T123030', '0181-01-01T12.5', '0181-01-01T1230.5',
         '01810101T123030.25', '0181-01-01T12:30.5', '0181001T1230',
         '0181W011T12Z', '0181-W01-1B', '0181-001-05', '0181-01-05:30',
         '0181-01-01Z', '0181-01-01B', '0181-01-01+05:30', '1161-19-19T+03:30',
         '0181-01-01T12:30:30.5-05:30', '0181-01-01T12:30-05',
         '01810101T1230Z', '-091-01-01 23:59:59.999999+23:59')
CHARS = '0123456789-+:.,TWZBtz \n_e²٣'


def edits(s):
    out = {s}
    for i in range(len(s) + 1):
        out.update(s[:i] + a + s[i:] for a in CHARS)
        out.add(s[:i])
        out.add(s[i:])
        if i < len(s):
            out.update(s[:i] + a + s[i + 1:] for a in CHARS)
            out.add(s[:i] + s[i + 1:])
        if i + 1 < len(s):
            out.add(s[:i] + s[i + 1] + s[i] + s[i + 2:])
    return out


def p_edits(case):
    k, i = case
    for t in sorted(edits(BASES[k])):
        if hash_of(t) % PARTS == i:
            judge(t)


def p_edits2(case):
    k, i = case
    done = set()
    for s in sorted(edits(BASES[k])):
        if hash_of(s) % PARTS == i:
            for t in edits(s):
                if t not in done:
                    done.add(t)
                    judge(t)


PARTS = 8


def hash_of(t):
    n = 0
    for c in t:
        n = (n * 31 + ord(c)) % 1000003
    return n


def p_dates(case):
    """All digits after a year."""
    y, kind = case
    ys = f"{y:04d}" if y >= 0 else f"-{-y:04d}"
    if kind == 'md':
        for i in range(10000):
            judge(f"{ys}-{i // 100:02d}-{i % 100:02d}")
            judge(f"{ys}{i:04d}")
    elif kind == 'o':
        for i in range(1000):
            judge(f"{ys}-{i:03d}")
            judge(f"{ys}{i:03d}")
    elif kind == 'm':
        for i in range(100):
            judge(f"{ys}-{i:02d}")
    else:
        for i in range(1000):
            judge(f"{ys}-W{i // 10:02d}-{i % 10}")
            judge(f"{ys}W{i:03d}")


def p_years(hi):
    """All years of one sign, one date each, and the three-digit form."""
    for y in range(hi * 100, hi * 100 + 100):
        for sg in ('', '-'):
            judge(f"{sg}{y:04d}-00-04")
            judge(f"{sg}{y:04d}1919")
            judge(f"{sg}{y:04d}-366")
            judge(f"{sg}{y:04d}366T1")
            if y < 1000:
                judge(f"{sg}{y:03d}-19-19")
                judge(f"{sg}{y:03d}-019")
                judge(f"{sg}{y:02d}-19-19")


def p_times(h):
    """All pairs of digits as hour, minute, and second."""
    for i in range(100):
        t = f"{h:02d}:{i:02d}"
        for x in ('T' + t, ' ' + t.replace(':', '')):
            judge('0181-01-01' + x)
            judge('0181-01-01' + x + 'Z')
            judge_time(x)
        for j in ((0, 1, 30, 59, 60, 61, 99) if TIER == 'quick'
                  else range(100)):
            for x in (f"T{t}:{j:02d}", f" {h:02d}{i:02d}{j:02d}"):
                judge('01810101' + x)
                judge_time(x)
        for x in (f"T{h:02d}.{i:02d}", f"T{h:02d}.{i % 10}{i:02d}"):
            judge('0181001' + x)
            judge_time(x)


def p_fractions(n):
    """All fractions of up to three digits (thorough: six for seconds)."""
    for d in range(1, 4):
        if n < 10 ** d:
            f = f"{n:0{d}d}"
            for b in ('T23', 'T00', 'T12:59', 'T1200', 'T23:59:59',
                      'T000000', ' 123031'):
                judge(f"0181-01-01{b}.{f}")
                judge_time(f"{b}.{f}")


def p_micro(lo):
    for u in range(lo, lo + 1000):
        judge(f"0181-01-01T12:59:{u % 60:02d}.{u:06d}")


def p_zones(h):
    for sg in '+-':
        judge(f"0181-01-01{sg}{h:02d}")
        judge(f"0181-01-01T12{sg}{h:02d}")
        for m in range(100):
            judge(f"0181-01-01T12:30{sg}{h:02d}:{m:02d}")
            judge(f"0181001{sg}{h:02d}:{m:02d}")


def p_time_edits(k):
    b = ('T12', ' 12', 'T12:30', 'T12:30:30', 'T12:30:30.5', 'T1230',
         'T123030', 'T12.5', 'T1230.5', 'T123030.25', 'T12:30.5', ' 24:59:60',
         '')[k]
    for t in sorted(edits(b)):
        for u in (sorted(edits(t)) if TIER != 'quick' or k in (0, 3)
                  else (t,)):
            judge_time(u)


def p_types(i):
    v = (None, 1, b'0181-01-01', ('0181',), 1.5, bd.date(181, 1, 1))[i]
    for c in (bd.date, bd.datetime, bd.time):
        ok, r = call(c.fromisoformat, v)
        if ok or not isinstance(r, TypeError):
            raise Fail(f"{c.__name__}: {v!r} gave {r!r}")


def build(tier):
    global TIER
    TIER = tier
    ys = (-1842, -1001, -1, 0, 181, 182, 1161, 1162, -1843) if (
        tier == 'quick') else (list(range(-1843, 1163, 31)) + [
            -1, 0, 1, 181, 182, 1161, 1162])
    sp = [
        Space('one edit', p_edits, [(k, i) for k in range(len(BASES))
                                    for i in range(PARTS)], 4,
              bound=f'{len(BASES)} texts, every one-character edit over '
                    f'{len(CHARS)} characters, prefixes, suffixes, swaps'),
        Space('date digits', p_dates, [(y, k) for y in ys
                                       for k in ('md', 'o', 'm', 'w')], 1,
              bound='all digits of month, day, day of year, week, week day'),
        Space('years', p_years, range(100), 2, bound='all four-digit years, '
              'both signs'),
        Space('time digits', p_times, range(100), 2,
              bound='all two-digit hours, minutes; quick seven seconds'),
        Space('fractions', p_fractions, range(1000), 20,
              bound='all fractions of up to three digits'),
        Space('offsets', p_zones, range(100), 4,
              bound='all two-digit hours and minutes'),
        Space('times', p_time_edits, range(13), 1,
              bound='edits of thirteen times (two edits of two, thorough '
                    'all)'),
        Space('types', p_types, range(6), 6)]
    if tier != 'quick':
        sp += [Space('two edits', p_edits2,
                     [(k, i) for k in range(len(BASES))
                      for i in range(PARTS)], 1,
                     bound='every two-character edit of the texts'),
               Space('microseconds', p_micro, range(0, 10**6, 1000), 8,
                     bound='every microsecond')]
    return sp


if __name__ == '__main__':
    main('C15', build,
         ['Refused means ValueError or AssertionError (a field that does not '
          'exist); weeks 52 and 53 are left to C16; a bare T or space is an '
          'empty time (pinned by the tests).'],
         'bounded edits of all forms and all digit combinations')
