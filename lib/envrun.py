"""What the package answers in another environment (JSON).

envrun.py                 the answers of the operations of ops.py
envrun.py formats LO HI   texts of a date in each year and what they are read
                          as
envrun.py local           local forms of days and of times of day, and what they are read as
"""
import json
import sys

FORMATS = ('%x', '%x %H:%M:%S')


def texts(lo, hi):
    import badidatetime as bd
    import model as M
    out = []
    for y in range(lo, hi):
        m, d = ((1, 1), (0, M.ayyam(y)), (9, 13), (19, 19))[y % 4]
        t = (y, m, d, None, None, y * 7 % 24, y % 60, y % 59)
        x = bd.datetime(*t)
        for f in FORMATS:
            s = x.strftime(f)
            try:
                b = bd.datetime.strptime(s, f)
                r = b.b_date + b.b_time
            except Exception as e:  # noqa: BLE001
                r = f"{type(e).__name__}: {e}"
            out.append((t[:3] + t[5:], f, s, r))
    return out


def read(s, f):
    import badidatetime as bd
    try:
        b = bd.datetime.strptime(s, f)
        return b.b_date + b.b_time
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"


def text(x, f):
    try:
        return x.strftime(f)
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"


def local():
    import locale
    import time
    import badidatetime as bd
    import model as M
    dates, times = [], []
    for y in (181, 1061):
        for t in [x for x in M.days_of(y)
                  if x[1] == 0 or x[2] in (x[1], 20 - x[1])]:
            x = bd.date(*t)
            s = text(x, '%x')
            dates.append((t, s, text(x, '%D'), read(s, '%x')))
    for h in range(24):
        for mi, sec in ((59 - h, h), (0, 0))[:1 + (h == 12)]:
            x = bd.datetime(181, 2, 3, None, None, h, mi, sec)
            s = text(x, '%Y-%m-%d %X')
            times.append(((h, mi, sec), s, read(s, '%Y-%m-%d %X')))
    fmt = {k: locale.nl_langinfo(getattr(locale, k))
           for k in ('D_FMT', 'T_FMT', 'AM_STR', 'PM_STR')}
    clock = time.strftime('%X', (2000, 1, 1, 22, 44, 55, 5, 1, 0))
    return {'dates': dates, 'times': times, 'fmt': fmt, 'clock': clock}


def operations():
    import ops as O
    p = O.pool()
    return {n: O.do(n, p) for n in O.OPS}


if __name__ == '__main__':
    a = sys.argv[1:]
    print(json.dumps(operations() if not a else local() if a == ['local']
                     else texts(*map(int, a[1:]))))
