"""Formatting directives show the fields of the value."""
import itertools
import re
import _boot  # noqa: F401
from engine import Fail, Space, call, eq, main, note, outcome, step
import locales
import model as M
import badidatetime as bd
from datetime import timedelta

TIER = 'quick'
DAY = ('Jalál', 'Jamál', 'Kamál', 'Fiḍāl', '`Idāl', 'Istijlāl', 'Istiqlāl')
DAYA = ('Jal', 'Jam', 'Kam', 'Fiḍ', 'Idā', 'Isj', 'Isq')
MON = {1: 'Bahá', 2: 'Jalál', 3: 'Jamál', 4: "'Aẓamat", 5: 'Núr',
       6: 'Raḥmat', 7: 'Kalimát', 8: 'Kamál', 9: "Asmá'", 10: "'Izzat",
       11: 'Mashíyyat', 12: "'Ilm", 13: 'Qudrat', 14: 'Qawl', 15: 'Masá’il',
       16: 'Sharaf', 17: 'Sulṭán', 18: 'Mulk', 0: 'Ayyám-i-Há', 19: "'Alá'"}
MONA = {1: 'Bah', 2: 'Jal', 3: 'Jam', 4: 'Aẓa', 5: 'Núr', 6: 'Raḥ',
        7: 'Kal', 8: 'Kam', 9: 'Asm', 10: 'Izz', 11: 'Mas', 12: 'Ilm',
        13: 'Qud', 14: 'Qaw', 15: 'Mas', 16: 'Sha', 17: 'Sul', 18: 'Mul',
        0: 'Ayy', 19: 'Alá'}
PLAIN = 'aAbBcCdDeGhHIjklmMnprSTuUVwWxXyYzZ%f'
DIRECTIVES = ['%' + c for c in PLAIN] + [
    '%-' + c for c in 'dHjlmMSy'] + ['%:K', '%:V', '%:z']
SKIP = None


def iso_week(y, n):
    w1 = M.week1(y)
    if n < w1:
        y -= 1
        if y < M.MINYEAR:
            return SKIP
        w1 = M.week1(y)
    elif y < M.MAXYEAR and n >= M.week1(y + 1):
        y += 1
        w1 = M.week1(y)
    elif y == M.MAXYEAR and n - w1 >= 357:
        return SKIP
    return y, (n - w1) // 7 + 1


class V:
    """A value and the text of each of its directives, from the model."""

    def __init__(self, ymd, hms=(0, 0, 0, 0), long=False, cls='datetime',
                 off=None, name=None):
        self.ymd, self.hms, self.long, self.cls = ymd, hms, long, cls
        self.off, self.name = off, name

    def make(self):
        y, m, d = self.ymd
        tz = None
        if self.off is not None:
            tz = (bd.timezone(timedelta(minutes=self.off), self.name)
                  if self.name else bd.timezone(timedelta(minutes=self.off)))
        if self.cls == 'time':
            return bd.time(*self.hms, tzinfo=tz)
        a = M.long_form(y) + (m, d) if self.long else (y, m, d)
        if self.cls == 'date':
            return bd.date(*a)
        pad = () if self.long else (None, None)
        return bd.datetime(*a, *pad, *self.hms, tzinfo=tz)

    def half(self):
        """True after midday, None when too close to tell here."""
        h, mi, s, us = self.hms
        t = h * 3600 + mi * 60 + s
        if abs(t - 43200) <= 180:
            return None
        return t > 43200

    def text(self, d):
        y, m, dd = self.ymd
        h, mi, s, us = self.hms
        n = M.ordinal(*self.ymd)
        wd = M.weekday(n)
        k, v, q = M.long_form(y)
        c = d[-1]
        mod = d[1:-1]
        if mod == '-':
            if c == 'l':
                return str(h % 12 or 12)
            return {'d': str(dd), 'H': str(h), 'j': str(M.yday(*self.ymd)),
                    'm': str(m), 'M': str(mi), 'S': str(s),
                    'y': str(y % 100) if y >= 0 else SKIP}[c]
        if mod == ':':
            if c == 'K':
                return str(k)
            if c == 'V':
                return f"{v:02}"
            return self.zone(':')
        sgn = '-' if y < 0 else ''
        Y = f"{sgn}{abs(y):04}"
        pm = self.half()
        ap = SKIP if pm is None else ('AM', 'PM')[pm]
        if c in 'abAB' or c == 'h':
            return {'a': DAYA[wd], 'A': DAY[wd], 'b': MONA[m], 'h': MONA[m],
                    'B': MON[m]}[c]
        if c == 'c':
            yy = f"{k} {v:02} {q:02}" if self.long else f"{y:04}"
            if y < 0 and not self.long:
                yy = f"{y:04}"
            return (f"{DAYA[wd]} {MONA[m]} {dd:02} {h:02}:{mi:02}:{s:02} "
                    + yy)
        if c == 'C':
            return f"{y // 100:02}" if y >= 0 else SKIP
        if c == 'd':
            return f"{dd:02}"
        if c == 'D':
            return f"{m:02}/{dd:02}/{y % 100:02}" if y >= 0 else SKIP
        if c == 'e':
            return f"{dd:2}"
        if c == 'f':
            return f"{us:06}"
        if c in 'GV':
            w = iso_week(y, n)
            if w is SKIP:
                return SKIP
            if c == 'V':
                return f"{w[1]:02}"
            return f"{'-' if w[0] < 0 else ''}{abs(w[0]):04}"
        if c in 'Hk':
            return f"{h:02}"
        if c == 'I':
            return f"{h % 12 or 12:02}"
        if c == 'j':
            return f"{M.yday(*self.ymd):03}"
        if c == 'l':
            return f"{h % 12 or 12:2}"
        if c == 'm':
            return f"{m:02}"
        if c == 'M':
            return f"{mi:02}"
        if c == 'n':
            return '\n'
        if c == 'p':
            return ap
        if c == 'r':
            return ap and f"{h % 12 or 12:02}:{mi:02}:{s:02} {ap}"
        if c == 'S':
            return f"{s:02}"
        if c == 'T':
            return f"{h:02}:{mi:02}:{s:02}"
        if c == 'u':
            return str(wd + 1)
        if c == 'w':
            return str(wd)
        if c in 'UW':
            return f"{(n - M.week1(y)) // 7 + 1:02}"
        if c == 'x':
            return f"{m:02}/{dd:02}/" + (f"{y % 100:02}" if y >= 0 else '')
        if c == 'X':
            return f"{h % 12 or 12:02}:{mi:02}:{s:02}"
        if c == 'y':
            return f"{y % 100:02}" if y >= 0 else SKIP
        if c == 'Y':
            return Y
        if c == 'z':
            return self.zone('')
        if c == 'Z':
            if self.off is None:
                return ''
            return self.name or str(bd.timezone(
                timedelta(minutes=self.off)).tzname(None))
        if c == '%':
            return '%'
        raise AssertionError(d)

    def zone(self, sep):
        if self.off is None:
            return ''
        a = abs(self.off)
        return f"{'-' if self.off < 0 else '+'}{a // 60:02}{sep}{a % 60:02}"


DATEONLY = set('aAbBCdDeGhjmuUVwWxyYK')
TIMEONLY = set('HIklMprSTXfzZn%')


def check(v, fmts):
    o = v.make()
    for f in fmts:
        if v.cls == 'time' and f[-1] not in TIMEONLY:
            continue
        want = v.text(f)
        if want is SKIP:
            note('not judged (negative year, midday, or outside)')
            continue
        if f == '%x' and v.ymd[0] < 0:
            continue
        step()
        got = o.strftime(f)
        if got != want or type(got) is not str:
            raise Fail(f"{o!r}.strftime({f!r}) gave {got!r}, "
                       f"expected {want!r}")
        outcome(f)


def kinds(i):
    return [('datetime', False), ('datetime', True), ('date', False),
            ('date', True)][i % 4]


def day_years():
    return [-1842, -1841, -1000, -999, -362, -361, -100, -19, -1, 0, 1, 2, 9,
            10, 19, 20, 99, 100, 101, 180, 181, 182, 183, 199, 200, 361, 362,
            541, 722, 723, 999, 1000, 1083, 1084, 1160, 1161]


def directives(c):
    y, i = c
    for j, ymd in enumerate(M.boundary_days(y, inner=(9, 10))):
        if TIER == 'quick' and (j + i) % 4 and not (
                ymd[1] in (0, 19) and (j + i) % 2):
            continue
        cls, lg = kinds(i + j)
        hms = (0, 0, 0, 0) if cls == 'date' else (
            (j * 5) % 24, (j * 7) % 60, (j * 11) % 60, (j * 99991) % 10**6)
        off = None if cls == 'date' or j % 3 else (0, 180, -300)[j // 3 % 3]
        check(V(ymd, hms, lg, cls, off), DIRECTIVES)


CHEAP = ['%a', '%A', '%b', '%B', '%c', '%C', '%d', '%-d', '%D', '%e', '%h',
         '%H', '%-H', '%j', '%-j', '%k', '%m', '%-m', '%M', '%-M', '%n',
         '%S', '%-S', '%T', '%u', '%w', '%x', '%y', '%-y', '%Y', '%%', '%:K',
         '%:V', '%f', '%z', '%Z']
LONGFMT = '¦'.join(CHEAP)


def all_at_once(v):
    o = v.make()
    step()
    got = o.strftime(LONGFMT).split('¦')
    if len(got) != len(CHEAP):
        raise Fail(f"{o!r}.strftime({LONGFMT!r}) gave {got!r}")
    for f, g in zip(CHEAP, got):
        if v.cls == 'time' and f[-1] not in TIMEONLY:
            continue
        want = v.text(f)
        if want is SKIP or (f == '%x' and v.ymd[0] < 0):
            continue
        if g != want:
            raise Fail(f"{o!r}.strftime({LONGFMT!r}): {f} gave {g!r}, "
                       f"expected {want!r}")


def every_year(y):
    if M.in_fudge(y):
        note('years left to C01')
        return
    if TIER == 'thorough':
        ds = M.days_of(y)
    else:
        n = len(M.days_of(y))
        a = M.days_of(y)
        ds = [a[i] for i in sorted({0, n - 1, (341, 342, n - 20, n - 19)[y % 4],
                                    (y * 61) % n})]
    for j, ymd in enumerate(ds):
        cls, lg = kinds(y + j)
        all_at_once(V(ymd, (0, 0, 0, 0) if cls == 'date' else
                      (j % 24, y % 60, j % 60, 0), lg, cls))
    if {y - 1, y, y + 1} & set(M.FUDGE):
        return
    for j, ymd in enumerate(ds[:1] + ds[-1:]):
        cls, lg = kinds(y + j)
        check(V(ymd, (0, 0, 0, 0), lg, cls),
              ['%G', '%V', '%U', '%W'] if TIER == 'thorough' else
              [('%G', '%V')[(y + j) % 2], ('%U', '%W')[j]])


def whole_year(c):
    y, lg = c
    for ymd in M.days_of(y):
        v = V(ymd, (0, 0, 0, 0), lg, 'date')
        all_at_once(v)
        check(v, ['%G', '%V', '%U'])


def times(h):
    """Every minute of the hour, boundary seconds and microseconds."""
    for mi in range(60 if h < 24 else 1):
        for j, (s, us) in enumerate((
                (0, 0), (59, 999999), (mi, 1), (9, 10), (10, 100000))):
            if h == 24 and (s or us):
                continue
            cls = ('time', 'datetime')[(mi + j) % 2]
            v = V((1, 1, 1) if cls == 'time' else (181, 1 + j, 19),
                  (h, mi, s, us), False, cls)
            all_at_once(v)
            if j == mi % 5:
                check(v, ['%I', '%l', '%-l', '%p', '%r', '%X'])


def seconds(s):
    for cls in ('time', 'datetime'):
        for us in (0, 1, 9, 10, 99, 999, 1000, 99999, 100000, 999999):
            v = V((1, 1, 1), (0, 0, s, us), False, cls)
            all_at_once(v)
        check(v, ['%S', '%-S', '%f', '%T'])


def whole_hours(h):
    for name in (None, 'ABC'):
        for cls in ('time', 'datetime'):
            v = V((1, 1, 1) if cls == 'time' else (182, 0, 5),
                  (12, 34, 56, 0), False, cls, h * 60, name)
            check(v, ['%z', '%:z', '%Z'])


def minute_offsets(m):
    """The texts of all offsets with these minutes."""
    hundredths = other = 0
    for h in range(-23, 24):
        for sg in ((1, -1) if h == 0 else (1,)):
            off = (h * 60 + (m if h >= 0 else -m)) * sg
            v = V((182, 0, 5), (12, 34, 56, 0), False, 'datetime', off)
            o = v.make()
            for f in ('%z', '%:z'):
                step()
                g, w = o.strftime(f), v.text(f)
                if g == w:
                    continue
                x = (g[len(w) - 2:].replace(':', '') + '0000')[:4]
                if g[:len(w) - 2] == w[:-2] and x.isdigit() and abs(
                        int(x) - m * 10000 / 60) <= 2:
                    hundredths += 1
                else:
                    other = other or f"{w} shown as {g}"
            if o.strftime('%Z') != v.text('%Z'):
                raise Fail(f"%Z of {o!r} gave {o.strftime('%Z')!r}")
    if other:
        raise Fail(other)
    if hundredths:
        raise Fail("minutes shown as hundredths of an hour")


ITEMS = DIRECTIVES + ['x', ' ', '-', ':', 'Y', 'é', '{0}', '\\', '/']
SMALL = ['%Y', '%-d', '%%', '%:K', '%f', '%z', '%H', '%B', 'Y', '-', ':',
         '%n', ' ', 'f']
CV = V((182, 0, 5), (9, 8, 7, 65), False, 'datetime', -300, 'XYZ')
CL = V((5, 14, 2), (21, 5, 59, 0), True, 'datetime')


def concat(c):
    v = (CV, CL)[c[0]]
    parts = c[1:]
    want = ''.join(v.text(p) if p in DIRECTIVES else p for p in parts)
    fmt = ''.join(parts)
    o = v.make()
    step()
    got = o.strftime(fmt)
    if got != want:
        raise Fail(f"{o!r}.strftime({fmt!r}) gave {got!r}, "
                   f"expected {want!r}")
    if c[-1] == 'x' or len(c) == 3 and hash(fmt) % 7 == 0:
        eq(format(o, fmt), want, f"format({o!r}, {fmt!r})")
    outcome(len(parts))


def bad_formats(c):
    o = (bd.date(182, 1, 1), bd.datetime(1, 10, 11, 1, 1, 5),
         bd.time(4, 5, 6))[c[0]]
    f = c[1]
    ok, r = call(o.strftime, f)
    if ok:
        raise Fail(f"{o!r}.strftime({f!r}) accepted, gave {r!r}")
    if not isinstance(r, ValueError):
        raise Fail(f"{o!r}.strftime({f!r}) raised {type(r).__name__}: {r}")


def bad_list():
    valid = set('aAbBcCdDefGhHIjkKlmMnprSTuUVWwxXyYzZ%')
    chars = [chr(i) for i in range(32, 127)] + ['é', '\n', '\x00']
    out = ['']
    for c in chars:
        if c not in valid and c not in '-:':
            out += ['%' + c, 'a%' + c + 'b', '%d%' + c]
        if c not in 'dHjlmMSy':
            out.append('%-' + c)
        if c not in 'KVz':
            out.append('%:' + c)
    out += ['%-', '%:', 'x%-', '%Y%:']
    return out


def empty(i):
    for o in (bd.date(182, 1, 1), bd.datetime(1, 10, 11, 1, 1, 5),
              bd.time(4, 5, 6), bd.datetime(-5, 0, 4, None, None, 1, 2, 3, 4)):
        eq(format(o, ''), str(o), f"format({o!r}, '')")
        eq(format(o, '%H|%M'), o.strftime('%H|%M'), f"format({o!r})")
        eq(f"{o:%S-%M}", o.strftime('%S-%M'), f"f-string of {o!r}")


def tables(case):
    """The exported names are those that the directives show."""
    order = [*range(1, 19), 0, 19]
    for got, want in ((bd.DAYNAMES, DAY), (bd.DAYNAMES_ABV, DAYA),
                      (bd.MONTHNAMES, [MON[m] for m in order]),
                      (bd.MONTHNAMES_ABV, [MONA[m] for m in order])):
        step()
        if list(got) != list(want):
            raise Fail(f"names {got}, not {want}")


def local_forms(c):
    """%x, %D, %X in another locale."""
    r = locales.ask(c[0], 'local')
    if r is None:
        note('locales that cannot be compiled')
        return
    sep, form = locales.date_form(r['fmt']['D_FMT'])
    for (y, m, d), x, short, _ in r['dates']:
        step(2)
        f = {'d': f"{d:02}", 'e': f"{d:>2}", 'm': f"{m:02}",
             'b': MONA[m],
             'B': MON[m], 'y': f"{y % 100:02}", 'Y': f"{y:04}"}
        eq(x, sep.join(f[k] for k in form), f"{c[0]}: {(y, m, d)} as '%x'")
        eq(short, sep.join(f[k.replace('Y', 'y')] for k in form),
           f"{c[0]}: {(y, m, d)} as '%D'")
    delim = re.search(r'\d(\D)\d', r['clock'])
    half = r['fmt']['PM_STR'] != ''
    for (h, mi, s), x, _ in r['times']:
        step()
        g = re.fullmatch(r'0181-02-03 (\d\d)(\D)(\d\d)(\D)(\d\d)', x)
        if (not g or int(g[1]) != ((h % 12 or 12) if half else h)
                or (int(g[3]), int(g[5])) != (mi, s) or g[2] != g[4]
                or delim and g[2] != delim[1]):
            raise Fail(f"{c[0]}: {(h, mi, s)} as '%X' is {x!r}")
    outcome(f"{sep.join(form)} {'12' if half else '24'} h")


def build(tier):
    global TIER
    TIER = tier
    q = tier == 'quick'
    conc = [(k, a, b) for k in (0, 1) for a in ITEMS for b in ITEMS
            if (a + b).count('%') < 2 or k == 0 or not q]
    conc = [c for c in conc if not any(
        x[-1] in 'IlprXUVWG' and x in DIRECTIVES and x != '%:V'
        for x in c[1:]) or (c[1] in SMALL or c[2] in SMALL)]
    conc += [(k, *t) for k in ((0,) if q else (0, 1))
             for t in itertools.product(SMALL, repeat=3)]
    if not q:
        conc += [(0, *t) for t in itertools.product(SMALL, repeat=4)]
    kinds_ = {}
    for y in range(1, 1161):
        kinds_.setdefault((M.weekday(M.year_start(y)), M.leap(y)), y)
    yrs = list(range(-1842, 1162, 1 if not q else 1))
    return [
        Space('directives', directives,
              [(y, i) for i, y in enumerate(day_years())], chunk=1,
              bound='every directive and modifier on boundary days of 36 '
                    'years, in both forms, date and datetime'),
        Space('every year', every_year, yrs, chunk=16,
              bound='every year; quick: 4 days, thorough: every day; all '
                    'date directives'),
        Space('whole years', whole_year,
              [(y, bool(i % 2)) for i, y in enumerate(
                  sorted(kinds_.values())) if not q or i % 3 == 0], chunk=1,
              bound='every day of one year of each kind'),
        Space('times', times, range(25), chunk=1,
              bound='every minute x boundary seconds'),
        Space('seconds', seconds, range(60), chunk=8),
        Space('whole hour offsets', whole_hours, range(-23, 24), chunk=4),
        Space('minute offsets', minute_offsets, range(1, 60), chunk=2,
              bound='all offsets that are not whole hours'),
        Space('concatenations', concat, conc, chunk=64,
              bound='all pairs of the 52 items, all triples of 14 items'
                    + ('' if q else ', all quadruples of 14 items')),
        Space('unknown directives', bad_formats,
              [(k, f) for k in range(3) for f in bad_list()], chunk=128),
        Space('format()', empty, [0]),
        Space('names', tables, [0]),
        Space('locales', local_forms, locales.some(tier), chunk=1,
              bound='locales of each kind of date and time form'
                    + ('' if q else ', all locales')),
    ]


if __name__ == '__main__':
    main('C17', build, bounds='all directives; all formats up to three items '
                              'of the alphabet; all years',
         assumptions=['C.UTF-8 locale (AM/PM, month/day/year)',
                      '%y %C %D of negative years, a lone % at the end, and '
                      '%K without colon are not specified',
                      'AM/PM within 3 minutes of 12:00 is not judged'])
