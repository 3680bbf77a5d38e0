"""Parsing inverts formatting."""
import re
import _boot  # noqa: F401
from engine import (Fail, Space, call, elsewhere, have_locale, main, note,
                    outcome, step)
import locales
import model as M
import badidatetime as bd
from datetime import timedelta

TIER = 'quick'
BAD = (ValueError, AssertionError)
# Formats that identify a date, with the dates they are used for.
PLAIN = ['%Y-%m-%d', '%d/%m/%Y', '%Y%m%d', '%A, %d. %B (%Y)', '%Y %j',
         '%a %d %B %Y', '%j. %Y', '%m.%d.%Y %%']
SHORTB = ['%d %b %Y', '%c', '%a %b %d %H:%M:%S %Y']
WEEK = ['%G-W%V-%w', '%G %V %a', '%V %A %G', '%Y %U %A', '%w %W %Y']
CENT0 = ['%x', '%y %m %d', '%y-%j']
TIMES = ['%H:%M:%S', '%H%M%S', '%S/%M/%H', '%I:%M:%S %p', '%p %X',
         '%I %M %S%p']
FRAC = ['%H:%M:%S.%f', '%f %H %M %S']


def near_fudge(y):
    return bool({y - 1, y, y + 1} & set(M.FUDGE))


def weeknum(y, n):
    w1 = M.week1(y)
    if n < w1 or (y < M.MAXYEAR and n >= M.week1(y + 1)):
        return 0
    return (n - w1) // 7 + 1


def usable(fmt, ymd):
    y, m, d = ymd
    n = M.ordinal(*ymd)
    if '%b' in fmt or '%c' in fmt:
        return m != 15
    if '%y' in fmt or '%x' in fmt:
        return 0 <= y <= 99
    if '%V' in fmt:
        # Weeks 52 and 53 are left to C16; days of week 1 of the next year
        # or the last week of the year before too.
        return (not near_fudge(y) and 1 <= weeknum(y, n) <= 51
                and n >= M.FIRST_ORD)
    if '%U' in fmt or '%W' in fmt:
        return not near_fudge(y) and M.weekday(M.year_start(y)) in (
            0, 4, 5, 6) and (n - M.week1(y)) // 7 + 1 <= 52
    if '%j' in fmt:
        return not near_fudge(y)
    return True


def roundtrip(ymd, hms, fmt, long=False, off=None, cls='datetime'):
    y, m, d = ymd
    tz = None if off is None else bd.timezone(timedelta(minutes=off))
    long = long and '%c' not in fmt  # shows the long form, cannot be read
    a = M.long_form(y) + (m, d) if long else (y, m, d, None, None)
    v = bd.datetime(*a, *hms, tzinfo=tz)
    src = v if cls == 'datetime' else (v.date() if not long else v)
    step(2)
    text = src.strftime(fmt)
    try:
        r = bd.datetime.strptime(text, fmt)
    except Exception as e:  # noqa: BLE001
        raise Fail(f"{v!r} formatted with {fmt!r} is {text!r}; strptime "
                   f"raised {type(e).__name__}: {e}")
    want_t = tuple(hms) + (0,) * (4 - len(hms))
    if '%f' not in fmt:
        want_t = want_t[:3] + (0,)
    if not any(x in fmt for x in ('%H', '%I', '%X', '%c')):
        want_t = (0, 0, 0, 0)
    want_d = ymd
    if not any(x in fmt for x in ('%Y', '%G', '%y', '%c', '%x')):
        want_d = (2, 1, 1)
    o = r.utcoffset()
    want_o = timedelta(minutes=off) if off is not None and '%z' in fmt else (
        None)
    if r.b_date != want_d or r.b_time != want_t or o != want_o or not (
            r.is_short) or type(r) is not bd.datetime:
        raise Fail(f"{v!r} formatted with {fmt!r} is {text!r}, which parses "
                   f"as {r!r}")
    outcome(fmt)


ALL = PLAIN + SHORTB + WEEK


def every_year(y):
    ds = M.days_of(y)
    n = len(ds)
    ix = range(n) if TIER == 'thorough' else sorted(
        {0, n - 1, (341, 342, n - 20, n - 19)[y % 4], (y * 61) % n})
    for j, i in enumerate(ix):
        fs = [ALL[(y + j * 5) % len(ALL)]]
        if TIER == 'thorough':
            fs = [ALL[(y + j * 5 + k) % len(ALL)] for k in (0, 7)]
        for f in fs:
            if not usable(f, ds[i]):
                f = PLAIN[(y + j) % len(PLAIN)]
            if not usable(f, ds[i]):
                f = '%Y-%m-%d'
            hms = ((y + j) % 24, y % 60, j % 60) if '%H' in f or (
                '%c' in f) else (0, 0, 0)
            roundtrip(ds[i], hms, f, bool((y + j) & 1))


def whole_year(c):
    y, part = c
    for i, ymd in enumerate(M.days_of(y)):
        if i % 8 != part:
            continue
        for f in ALL + CENT0:
            if usable(f, ymd) and (TIER == 'thorough' or (
                    ALL + CENT0).index(f) % 4 == i // 8 % 4):
                roundtrip(ymd, (0, 0, 0), f, i & 1,
                          cls='date' if '%c' not in f and '%H' not in f
                          else 'datetime')


def century(y):
    for ymd in M.boundary_days(y):
        f = CENT0[(ymd[1] + ymd[2] + y) % 3]
        if usable(f, ymd):
            roundtrip(ymd, (0, 0, 0), f)


def minutes(c):
    h, mi = c
    noon = abs(h * 60 + mi - 720) <= 3
    fs = TIMES if TIER == 'thorough' else [
        TIMES[(h + mi + k) % 6] for k in (0, 3)]
    for f in fs:
        if noon and '%p' in f:
            continue
        roundtrip((182, 1, 1), (h, mi, (h * 7 + mi) % 60), f)


def fields(s):
    for us in (0, 1, 10, 99, 100, 9999, 123456, 100000, 999999):
        roundtrip((182, 19, 19), (23, 59, s, us), FRAC[us % 2])


def zones(h):
    for f in ('%Y-%m-%d %H:%M:%S%z', '%z %H:%M %Y %j'):
        roundtrip((182, 0, 5), (12, 34, 56 if '%S' in f else 0), f,
                  off=h * 60)
    sg = '-' if h < 0 else '+'
    a = abs(h)
    for mi in (0, 1, 30, 59):
        for tail, sec, us in (('', 0, 0), (':00', 0, 0), (':59', 59, 0),
                              (':01.5', 1, 500000),
                              (':01.000001', 1, 1)):
            for colon in (':', ''):
                t = f"{sg}{a:02}{colon}{mi:02}{tail if colon else tail.replace(':', '')}"
                step()
                r = bd.datetime.strptime('182 ' + t, '%Y %z')
                w = timedelta(hours=a, minutes=mi, seconds=sec,
                              microseconds=us) * (-1 if h < 0 else 1)
                if r.utcoffset() != w:
                    raise Fail(f"%z of {t!r} parses as {r.utcoffset()!r}, "
                               f"expected {w!r}")


NUM = {'Y': r'-?\d{1,4}', 'm': r'1\d|0?\d', 'd': r'1\d|0?[1-9]| [1-9]',
       'H': r'2[0-3]|[01]\d|\d', 'M': r'[0-5]\d|\d', 'S': r'6[01]|[0-5]\d|\d',
       'f': r'\d{1,6}', 'I': r'1[0-2]|0?[1-9]',
       'j': r'36[0-6]|3[0-5]\d|[12]\d\d|0[1-9]\d|00[1-9]|[1-9]\d|0?[1-9]',
       'B': "bahá|jalál|jamál|'aẓamat|núr|raḥmat|kalimát|kamál|asmá'|'izzat|"
            "mashíyyat|'ilm|qudrat|qawl|masá’il|sharaf|sulṭán|mulk|"
            "ayyám-i-há|'alá'",
       'A': 'jalál|jamál|kamál|fiḍāl|`idāl|istijlāl|istiqlāl',
       'p': 'am|pm',
       'z': r'[+-]\d\d[0-5]\d(?:[0-5]\d(?:\.\d{1,6})?)?'
            r'|[+-]\d\d:[0-5]\d(?::[0-5]\d(?:\.\d{1,6})?)?|(?-i:Z)'}
MB = ['ayyám-i-há', 'bahá', 'jalál', 'jamál', "'aẓamat", 'núr', 'raḥmat',
      'kalimát', 'kamál', "asmá'", "'izzat", 'mashíyyat', "'ilm", 'qudrat',
      'qawl', 'masá’il', 'sharaf', 'sulṭán', 'mulk', "'alá'"]
TEXTS = [('0182-19-05', '%Y-%m-%d'), ('9:05:59.25', '%H:%M:%S.%f'),
         ('-0361 366', '%Y %j'), ('0182/0/5 11:30 PM', '%Y/%m/%d %I:%M %p'),
         ("'Alá' 19, 0001", '%B %d, %Y'), ('182 +05:30', '%Y %z'),
         ('Fiḍāl 0001-01-01', '%A %Y-%m-%d'),
         ('23-59-59 100%', '%H-%M-%S %Y%%'), ('1161.19.19', '%Y.%m.%d'),
         ('[5] (6) $7^', '[%d] (%m) $%Y^')]
CHARS = '0123456789-+:. /TWZaMpx%\n'


def grammar(fmt):
    out = ''
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch == '%':
            c = fmt[i + 1]
            out += '%' if c == '%' else f"(?P<{c}>{NUM[c]})"
            i += 2
            continue
        out += r'\s+' if ch.isspace() else re.escape(ch)
        i += 1
    return re.compile(out, re.I)


GR = {f: grammar(f) for _, f in TEXTS}


def meaning(text, fmt):
    """(date, time, offset), None when refused, False when not judged."""
    g = GR[fmt].fullmatch(text)
    if not g:
        return None
    d = g.groupdict()
    y = int(d.get('Y', 2))
    if y in (M.MINYEAR - 1, M.MAXYEAR + 1):
        return False
    if not M.MINYEAR <= y <= M.MAXYEAR:
        return None
    if 'j' in d:
        j = int(d['j'])
        if j > M.year_len(y):
            return False
        ymd = (y,) + M.month_day(y, j)
    else:
        m = (MB.index(d['B'].lower()) if 'B' in d else int(d.get('m', 1)))
        dd = int(d.get('d', 1))
        if 'Y' not in d:
            y = 1 if (m, dd) == (0, 5) else 2
        if not 1 <= dd <= M.month_len(y, m):
            return None
        ymd = (y, m, dd)
    if int(d.get('S') or 0) >= 60:
        return False
    h = int(d.get('H') or 0)
    if 'I' in d:
        h = int(d['I']) % 12 + (12 if d.get('p', '').lower() == 'pm' else 0)
    f = d.get('f') or ''
    z = d.get('z')
    off = None
    if z:
        if z == 'Z':
            off = 0
        else:
            q = z[1:].replace(':', '')
            off = (int(q[:2]) * 3600 + int(q[2:4]) * 60 + int(q[4:6] or 0)) * (
                -1 if z[0] == '-' else 1)
            if int(q[:2]) > 23:
                return None
            if len(q) > 6:
                return False
    return ymd, (h, int(d.get('M') or 0), int(d.get('S') or 0),
                 int((f + '000000')[:6])), off


def corrupt(c):
    text, fmt = c
    want = meaning(text, fmt)
    if want is False:
        note('not judged')
        return
    ok, r = call(bd.datetime.strptime, text, fmt)
    if want is None:
        if ok:
            raise Fail(f"{text!r} accepted for {fmt!r} as {r!r}")
        if not isinstance(r, BAD):
            raise Fail(f"{text!r} for {fmt!r} raised {type(r).__name__}: {r}")
        outcome('refused')
        return
    if not ok:
        raise Fail(f"{text!r} refused for {fmt!r}: {type(r).__name__}: {r}")
    o = r.utcoffset()
    o = None if o is None else o.total_seconds()
    if (r.b_date, r.b_time, o) != want:
        raise Fail(f"{text!r} for {fmt!r} gave {r!r}, expected {want}")
    outcome('read')


def corruptions(q):
    out = {}
    for text, fmt in TEXTS:
        out[text, fmt] = 1
        for i in range(len(text) + 1):
            for ch in CHARS:
                out[text[:i] + ch + text[i:], fmt] = 1
                if i < len(text):
                    out[text[:i] + ch + text[i + 1:], fmt] = 1
                    if not q:
                        for k in range(i + 1, len(text)):
                            out[text[:i] + ch + text[i + 1:k]
                                + text[k + 1:], fmt] = 1
            if i < len(text):
                out[text[:i] + text[i + 1:], fmt] = 1
            for k in range(i + 1, len(text)):
                out[text[:i] + text[k:], fmt] = 1
        for t2, f2 in TEXTS:
            out[t2, fmt] = 1
        out[text + ' ', fmt] = out[' ' + text, fmt] = 1
        out[text.replace(' ', '  \t'), fmt] = 1
        out[text.upper(), fmt] = out[text.lower(), fmt] = 1
    return list(out)


def bad_format(f):
    for t in ('', '182', '01', 'a'):
        ok, r = call(bd.datetime.strptime, t, f)
        if ok:
            raise Fail(f"{t!r} with format {f!r} accepted as {r!r}")
        if not isinstance(r, ValueError):
            raise Fail(f"{t!r} with format {f!r} raised "
                       f"{type(r).__name__}: {r}")


BADF = ['%', '%Y%', '%Q', '%-d', '%:z', '% Y', '%N', '%G', '%V', '%G-%j',
        '%G %V', '%V %a', '%Y %V %a', '%E', '%i', '%O', '%P', '%v']


def conflicts(c):
    text, fmt = c
    ok, r = call(bd.datetime.strptime, text, fmt)
    if ok:
        raise Fail(f"{text!r} with {fmt!r} accepted as {r!r}")
    if not isinstance(r, ValueError):
        raise Fail(f"{text!r} with {fmt!r} raised {type(r).__name__}: {r}")


CONF = [('0182 12 035', '%G %V %j'), ('0182 12', '%G %V'), ('0182 1', '%G %w'),
        ('12 1', '%V %w'), ('0182 12 1', '%Y %V %w'), ('0182', '%G'),
        ('0182 035 Jal', '%G %j %a'), ('+05:3015', '%z'), ('x', '')]


def known(kind):
    bad = {}
    if kind == '%b':
        for m in M.MONTHS:
            t = bd.date(182, m, 3).strftime('%d %b %Y')
            r = bd.datetime.strptime(t, '%d %b %Y')
            if r.b_date != (182, m, 3):
                bad[f"month {m} reads as {r.b_date}"] = 1
    elif kind == '%u':
        for y in (1, 181, 182, 183):
            for d in range(1, 8):
                w = d
                ok, r = call(bd.datetime.strptime, f"{y:04} 20 {w}",
                             '%G %V %u')
                n = M.week1(y) + 19 * 7 + d - 1
                if not ok:
                    bad[f"day {d} refused"] = 1
                elif M.ordinal(*r.b_date) != n:
                    bad[f"day {d} is {M.ordinal(*r.b_date) - n} late"] = 1
    else:
        for y in range(1, 400):
            wd = M.weekday(M.year_start(y))
            if wd not in (1, 2, 3):
                continue
            for k in (1, 4, 100, 300):
                ymd = (y,) + M.month_day(y, k)
                n = M.ordinal(*ymd)
                t = bd.date(*ymd).strftime('%Y %U %a')
                r = bd.datetime.strptime(t, '%Y %U %a')
                if r.b_date != ymd:
                    bad[f"day {M.ordinal(*r.b_date) - n} off"] = 1
    if bad:
        raise Fail('; '.join(sorted(bad)))


def english(c):
    """The local form of dates of another locale (four digits of the year)."""
    lo, hi = c
    for t, f, s, r in elsewhere(['formats', str(lo), str(hi)],
                                LC_ALL='en_US.UTF-8'):
        step(2)
        want = t[:3] + (t[3:] if 'H' in f else [0, 0, 0]) + [0]
        if r != want:
            raise Fail(f"en_US: {t} as {f!r} is {s!r}, read as {r}")
        if t[0] >= 0 and not s.startswith(f"{t[1]:02}/{t[2]:02}/{t[0]:04}"):
            raise Fail(f"en_US: {t} as {f!r} is {s!r}")
    outcome('years in en_US')


def local_forms(c):
    """%x and %X in another locale read back."""
    r = locales.ask(c[0], 'local')
    if r is None:
        note('locales that cannot be compiled')
        return
    form = locales.date_form(r['fmt']['D_FMT'])[1]
    for (y, m, d), x, _, got in r['dates']:
        step()
        if 'y' in form:
            y %= 100
            if m == 0 and d > M.ayyam(y):
                continue
        if 'b' in form and m in (11, 15):  # Mas stands for two months
            continue
        if got != [y, m, d, 0, 0, 0, 0]:
            raise Fail(f"{c[0]}: {x!r} as '%x' is {got}")
    half = r['fmt']['PM_STR'] != ''
    for (h, mi, s), x, got in r['times']:
        step()
        if got != [181, 2, 3, h % 12 if half else h, mi, s, 0]:
            raise Fail(f"{c[0]}: {x!r} as '%Y-%m-%d %X' is {got}")
    outcome('locales')


def build(tier):
    global TIER
    TIER = tier
    q = tier == 'quick'
    kinds = {}
    for y in range(2, 1161):
        kinds.setdefault((M.weekday(M.year_start(y)), M.leap(y)), y)
    kk = sorted(kinds.values())
    ys = kk[::5] if q else kk
    return [
        Space('every year', every_year, M.YEARS, chunk=16,
              bound='every year; quick: 4 days x 1 of 16 formats, thorough: '
                    'every day x 2 formats'),
        Space('whole years', whole_year,
              [(y, p) for y in ys for p in range(8)], chunk=1,
              bound='every day of years of different kinds x formats'),
        Space('first century', century, range(0, 100, 5 if q else 1),
              chunk=2, bound='%x and %y'),
        Space('minutes', minutes,
              [(h, mi) for h in range(24) for mi in range(60)], chunk=24,
              bound='every minute of the day'),
        Space('seconds and microseconds', fields, range(60), chunk=4),
        Space('zones', zones, range(-23, 24), chunk=2),
        Space('corruptions', corrupt, corruptions(q), chunk=128,
              bound='one character inserted, replaced, or a range deleted'
                    + ('' if q else ', and pairs of edits')),
        Space('bad formats', bad_format, BADF, chunk=4),
        Space('conflicting directives', conflicts, CONF, chunk=4),
        Space('en_US', english, [
            (y, min(y + 376, 1162)) for y in range(-1842, 1162, 376)
        ] if have_locale('en_US.UTF-8') else [], chunk=1,
              bound='%x in every year, in another locale'),
        Space('locales', local_forms, locales.some(tier), chunk=1,
              bound='locales of each kind of date and time form'
                    + ('' if q else ', all locales')),
        Space('ambiguous', known, ['%b', '%u', '%U'], chunk=1),
    ]


if __name__ == '__main__':
    main('C18', build, bounds='all years; formats of the list; one edit per '
                              'text',
         assumptions=['hour 24, seconds from 60, day 366 of a common year, '
                      'and AM/PM within 3 minutes of 12:00 are not judged',
                      'weeks 52 and 53 are left to C16'])
