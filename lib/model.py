"""Reference model of the Badi calendar: a list of year lengths and counting.

Nothing here imports the code under test.  The only data is the table of leap
years (data/leap_years.txt), which check C03 compares with the equinox rule.
"""
import bisect
import os

MINYEAR, MAXYEAR = -1842, 1161
FIRST_ORD = 78            # ordinal of -1842-01-01
_here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEAPS = frozenset(
    int(w) for line in open(os.path.join(_here, 'data', 'leap_years.txt'))
    if not line.startswith('#') for w in line.split())
YEARS = range(MINYEAR, MAXYEAR + 1)
MONTHS = tuple(range(1, 19)) + (0, 19)          # calendar order
# Ordinals of these years are one too large in the code (known finding).
FUDGE = (-1796, -1792, -1788)
# Historical (Julian/Gregorian reform) gap: these days have no JD in the code.
GAP = tuple((-261, 11, d) for d in range(10, 20))


def leap(y):
    return y in LEAPS


def year_len(y):
    return 365 + leap(y)


def ayyam(y):
    return 4 + leap(y)


_start = []
_n = FIRST_ORD
for _y in YEARS:
    _start.append(_n)
    _n += year_len(_y)
LAST_ORD = _n - 1


def year_start(y):
    """Ordinal of the first day of year y."""
    return _start[y - MINYEAR]


def month_len(y, m):
    return ayyam(y) if m == 0 else 19


def before_month(y, m):
    if m == 0:
        return 342
    if m == 19:
        return 342 + ayyam(y)
    return 19 * (m - 1)


def yday(y, m, d):
    return before_month(y, m) + d


def ordinal(y, m, d):
    return year_start(y) + yday(y, m, d) - 1


def from_ordinal(n):
    y = MINYEAR + bisect.bisect_right(_start, n) - 1
    return (y,) + month_day(y, n - year_start(y) + 1)


def month_day(y, k):
    """Month and day of day k (1-based) of year y."""
    if k <= 342:
        return (k - 1) // 19 + 1, (k - 1) % 19 + 1
    k -= 342
    if k <= ayyam(y):
        return 0, k
    return 19, k - ayyam(y)


def weekday(n):
    """Jalal (Saturday) is 0."""
    return (n + 1) % 7


def days_of(y):
    return [(y, m, d) for m in MONTHS for d in range(1, month_len(y, m) + 1)]


def boundary_days(y, inner=()):
    """First and last day of each month and every intercalary day."""
    out = []
    for m in MONTHS:
        n = month_len(y, m)
        out += [(y, m, d) for d in
                (range(1, n + 1) if m == 0 or (y, m) == (-261, 11)
                 else sorted({1, n, *inner}))]
    return out


def sort_key(ymd):
    y, m, d = ymd
    return ordinal(y, m, d)


def long_form(y):
    """Kull-i-Shay', Vahid, year in the Vahid."""
    k, r = divmod(y - 1, 361)
    v, q = divmod(r, 19)
    return k + 1, v + 1, q + 1


def short_year(k, v, q):
    return (k - 1) * 361 + (v - 1) * 19 + q


def in_fudge(y):
    return y in FUDGE


# ------------------------------------------------------------- ISO-like weeks
def week1(y):
    """Ordinal of the first day of week 1: the week holding the year's fourth
    day; weeks start on Jalal (Saturday)."""
    first = year_start(y)
    wd = weekday(first)
    w = first - wd
    return w + 7 if wd > 3 else w
