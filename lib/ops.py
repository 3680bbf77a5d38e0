"""Operations on shared objects, used by C22 (histories) and C23 (threads)."""
import copy
import datetime as D
import os
import pickle
import badidatetime as bd

TD = D.timedelta
RAL = (35.5894, -78.7792, -5.0)
SYD = (-33.87, 151.2, 10.0)


def pool():
    """Fresh objects every history shares."""
    z1 = bd.TZWithCoords(*RAL, key='R')
    z2 = bd.TZWithCoords(-10.0, -78.7792, -5.0)
    z3 = bd.timezone(TD(hours=-5), 'EST')
    return dict(
        bc=bd.BahaiCalendar(), gc=bd.GregorianCalendar(), z1=z1, z2=z2,
        z3=z3,
        d1=bd.date(181, 19, 19), d2=bd.date(1, 10, 10, 6, 9),
        dl=bd.date(1, 10, 8, 0, 3),
        t1=bd.time(10, 20, 30, 400000, fold=1), t2=bd.time(1, 2, tzinfo=z3),
        a=bd.datetime(181, 0, 4, None, None, 23, 59, 59, 999999),
        b=bd.datetime(1, 10, 10, 6, 9, 5, 6, 7, 8, tzinfo=z1),
        c=bd.datetime(181, 6, 9, None, None, 5, 6, 7, 8, tzinfo=z2, fold=1),
        e=bd.datetime(-500, 11, 2, None, None, 13, 1, 1, tzinfo=bd.BADI),
        td=TD(days=19, seconds=86399, microseconds=1),
        tt=bd.date(170, 5, 5).timetuple(), L=[181, 6, 9])


FMT = '%a %A %b %B %c %C %d %D %e %f %G %H %I %j %k %l %m %M %p %r %S %u ' \
      '%U %V %W %x %X %y %Y %z %Z'
MID = '%I %p %r %X'

OPS = {
    # the calendar object
    'jd': lambda p: p['bc'].jd_from_badi_date((181, 6, 9, 1, 2, 3)),
    'jd raleigh': lambda p: p['bc'].jd_from_badi_date((181, 6, 9, 1, 2, 3),
                                                      *RAL),
    'jd sydney': lambda p: p['bc'].jd_from_badi_date((181, 6, 9), *SYD),
    'jd old': lambda p: p['bc'].jd_from_badi_date((-1000, 0, 4)),
    'jd bad': lambda p: p['bc'].jd_from_badi_date((181, 0, 5)),
    'badi': lambda p: p['bc'].badi_date_from_jd(2460541.25, us=True),
    'badi raleigh': lambda p: p['bc'].badi_date_from_jd(
        2460541.25, *RAL, us=True, short=True),
    'badi sydney': lambda p: p['bc'].badi_date_from_jd(
        2460541.25, *SYD, fraction=True, trim=True),
    'badi near': lambda p: p['bc'].badi_date_from_jd(2460541.2500001,
                                                     us=True),
    'badi rtd': lambda p: p['bc'].badi_date_from_jd(2460541.25, rtd=True),
    'sunset': lambda p: p['bc'].utc_sunset((181, 6, 9), *RAL),
    'sunset2': lambda p: p['bc'].utc_sunset((181, 6, 9), 60.0, -78.7792,
                                            -5.0),
    'naw-ruz': lambda p: [p['bc'].naw_ruz_g_date(y, *RAL)
                          for y in (180, 181, -1)],
    'ridvan': lambda p: p['bc'].first_day_of_ridvan_g_date(181, *RAL),
    'midday': lambda p: p['bc'].midday((181, 6, 9), hms=True, _short=True),
    'midday long': lambda p: p['bc'].midday((1, 10, 10, 6, 9),
                                            _short=False),
    'gregorian': lambda p: [p['bc'].gregorian_date_from_badi_date(
        (181, 6, 9, 1, 2, 3), *RAL), p['bc'].badi_date_from_gregorian_date(
            (2024, 6, 12, 10, 30), *RAL, short=True)],
    'forms': lambda p: [
        p['bc'].long_date_from_short_date((181, 6, 9, 1, 2, 3, 4)),
        p['bc'].short_date_from_long_date((1, 10, 10, 6, 9, 1, 2, 3, 4)),
        p['bc'].kvymdhms_from_b_date((1, 10, 10, 6, 9.25)),
        p['bc'].date_from_kvymdhms((1, 10, 10, 6, 9, 6, 0, 0))],
    'equinox': lambda p: [
        p['bc']._find_moment_of_equinoxes_or_solstices(
            p['bc'].jd_from_badi_date((y, 1, 1))) for y in (181, 900)],
    'sun': lambda p: [f(2460541.25, la, lo) for f in
                      (p['bc']._sun_setting, p['bc']._sun_rising)
                      for la, lo in ((35.0, 51.0), (60.0, 51.0),
                                     (35.0, -51.0))],
    'nutation': lambda p: [
        p['bc']._nutation_longitude(.24, degrees=True),
        p['bc']._nutation_obliquity(.24, degrees=True)],
    'nutation rad': lambda p: [p['bc']._nutation_obliquity(.24),
                               p['bc']._nutation_longitude(.24)],
    'nutation mixed': lambda p: [
        p['bc']._nutation_longitude(.24), p['bc']._nutation_longitude(.25),
        p['bc']._nutation_obliquity(.24, degrees=True),
        p['bc']._nutation_longitude(.24)],
    'longitude': lambda p: [p['bc']._apparent_solar_longitude(2460541.25),
                            p['bc']._sun_apparent_declination(.24),
                            p['bc']._apparent_sidereal_time_greenwich(.24)],
    # the Gregorian calendar
    'g jd': lambda p: [p['gc'].jd_from_gregorian_date(
        (1582, 10, 15), exact=h) for h in (True, False)],
    'g date': lambda p: [p['gc'].gregorian_date_from_jd(
        2299160.75, exact=h, hms=True) for h in (True, False)],
    'g bad': lambda p: p['gc'].jd_from_gregorian_date((1582, 10, 10),
                                                      exact=False),
    'posix': lambda p: [p['gc'].posix_timestamp(1.5e9, zone=z)
                        for z in (0, -5)],
    'g ymd': lambda p: [p['gc'].date_from_ymdhms((2024, 6, 12, 12)),
                        p['gc'].ymdhms_from_date((2024, 6, 12.5))],
    # dates
    'ordinals': lambda p: [p[k].toordinal() for k in ('d1', 'd2', 'dl')],
    'from ordinal': lambda p: [bd.date.fromordinal(739000, short=s)
                               for s in (True, False)],
    'weekdays': lambda p: [(p[k].weekday(), p[k].isoweekday(),
                            p[k].isocalendar())
                           for k in ('d1', 'd2', 'dl')],
    'from week': lambda p: bd.date.fromisocalendar(181, 9, 3),
    'd plus': lambda p: [p['d1'] + p['td'], p['d2'] - p['td'],
                         p['d1'] - bd.date(1, 1, 1), p['dl'] + p['td']],
    'd cmp': lambda p: [p['d1'] < bd.date(182, 1, 1), p['d1'] == p['d2'],
                        hash(p['d1']) == hash(bd.date(181, 19, 19)),
                        p['d2'] <= p['dl']],
    'd replace': lambda p: [p['d1'].replace(day=3), p['d2'].replace(vahid=9),
                            p['dl'].replace(month=3)],
    'd text': lambda p: [f(p[k]) for k in ('d1', 'd2', 'dl')
                         for f in (str, repr, bd.date.isoformat,
                                   bd.date.ctime)],
    'd format': lambda p: [p['d1'].strftime(FMT), p['d2'].strftime(FMT)],
    'd parse': lambda p: [bd.date.fromisoformat(s) for s in
                          ('0181-06-09', '01810609', '0181-W09-3',
                           '0181-100')],
    'd bad': lambda p: bd.date(181, 0, 5),
    # times
    't text': lambda p: [str(p['t1']), repr(p['t2']),
                         p['t1'].strftime('%H %I %p %f'),
                         bd.time.fromisoformat('T10:20:30')],
    't cmp': lambda p: [p['t1'] < bd.time(10, 20, 31), hash(p['t1']),
                        hash(p['t2']) == hash(bd.time(6, 2,
                                                      tzinfo=bd.UTC)),
                        p['t2'] == bd.time(6, 2, tzinfo=bd.UTC)],
    't replace': lambda p: [p['t1'].replace(hour=5), p['t2'].replace(fold=1)],
    # datetimes
    'plus': lambda p: [p[k] + p['td'] for k in 'abce'],
    'minus': lambda p: [p['b'] - p['c'], p['c'] - p['td'],
                        p['e'] - p['e']],
    'cmp': lambda p: [p['b'] == p['c'], p['b'] >= p['b'], p['c'] < p['e'],
                      hash(p['b']) == hash(p['b'].replace(fold=1)),
                      hash(p['c']), hash(p['a'])],
    'zone': lambda p: [p[k].astimezone(p[z]) for k in 'bc'
                       for z in ('z1', 'z2', 'z3')],
    'utc': lambda p: [p[k].utctimetuple() for k in 'abc'] + [
        p[k].utcoffset() for k in 'abc'] + [p[k].tzname() for k in 'abc'],
    'stamp': lambda p: [p[k].timestamp() for k in 'abc'],
    'from stamp': lambda p: [bd.datetime.fromtimestamp(
        1.7e9, z, short=s) for z in (None, p['z1'], p['z2'], p['z3'], bd.UTC)
        for s in (True,)],
    'from stamp 2': lambda p: [bd.datetime.fromtimestamp(
        1.7e9 + 1, p['z2'], short=False), bd.date.fromtimestamp(1.7e9)],
    'text': lambda p: [f(p[k]) for k in 'abce' for f in
                       (str, repr, bd.datetime.ctime)],
    'iso': lambda p: [bd.datetime.isoformat(p[k], ' ', 'milliseconds')
                      for k in 'abce'] + [bd.datetime.fromisoformat(s)
                                          for s in ('0181-06-09T10:20:30',
                                                    '01810609T1020+05:30')],
    'format': lambda p: [p['b'].strftime(MID), p['a'].strftime(FMT)],
    'format 2': lambda p: [p['c'].strftime(MID), f"{p['e']:%x %X %r}",
                           p['a'].strftime('%p')],
    'parse': lambda p: [bd.datetime.strptime(t, f) for t, f in
                        (('0181-06-09 10:20:30', '%Y-%m-%d %H:%M:%S'),
                         ('0181-06-09 10:20:30', '%Y-%d-%m %H:%M:%S'))],
    'parse 2': lambda p: [bd.datetime.strptime(t, f) for t, f in
                          (('0181 100', '%Y %j'),
                           ('0181 10 3', '%Y %U %w'),
                           ('09/06/0181 +0530', '%d/%m/%Y %z'))],
    'parse many': lambda p: [bd.datetime.strptime('0181' + s + '06',
                                                  '%Y' + s + '%m')
                             for s in '-/.:;,_'],
    'parse bad': lambda p: bd.datetime.strptime('0181-20-09', '%Y-%m-%d'),
    'parse bad 2': lambda p: bd.datetime.strptime('0181', '%Y-%Q'),
    'tuple': lambda p: [p[k].timetuple() for k in 'abce'] + [
        p['d1'].timetuple(), p['dl'].timetuple(), p['tt']],
    'replace': lambda p: [p['a'].replace(day=3), p['b'].replace(vahid=9),
                          p['c'].replace(tzinfo=None), p['c'].replace(
                              microsecond=0)],
    'split': lambda p: [p['c'].date(), p['c'].time(), p['c'].timetz(),
                        bd.datetime.combine(p['d1'], p['t2']),
                        bd.datetime.combine(p['d2'], p['t1'])],
    'pickle': lambda p: [pickle.loads(pickle.dumps(p[k])) for k in
                         ('a', 'b', 'c', 'd1', 'd2', 't1', 't2', 'z1')],
    'copy': lambda p: [copy.deepcopy(p[k]) for k in 'abc'],
    'o weekday': lambda p: [p['a'].isocalendar(), p['b'].isocalendar(),
                            p['b'].weekday(), p['c'].toordinal()],
    'overflow': lambda p: bd.datetime(1161, 19, 19) + p['td'],
    # settings
    'place': lambda p: [bd.LOCAL_COORD, bd.LOCAL, bd.UTC, bd.BADI],
    'new calendar': lambda p: [bd.BahaiCalendar().jd_from_badi_date(
        (181, 6, 9, 1, 2, 3)), bd.BahaiCalendar().utc_sunset(
            (181, 6, 9), *RAL)],
    'limits': lambda p: [bd.date.min, bd.date.max, bd.datetime.min,
                         bd.datetime.max, bd.time.min, bd.time.max,
                         bd.date.resolution, bd.MINYEAR, bd.MAXYEAR],
}


SLOW = {'leap': lambda p: bd.init_leap_cache()}     # 3 seconds


def show(x):
    """A text that tells everything about a result."""
    if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
        return '[' + ', '.join(show(i) for i in x) + ']'
    if hasattr(x, '_fields'):
        return f"{type(x).__name__}{tuple(x)!r}"
    if isinstance(x, bd.datetime):
        return (f"{x!r}/{x.b_date}/{x.b_time}/{x.is_short}/{x.fold}/"
                f"{x.tzinfo!r}")
    if isinstance(x, bd.date):
        return f"{x!r}/{x.b_date}/{x.is_short}"
    if isinstance(x, bd.time):
        return f"{x!r}/{x.b_time if hasattr(x, 'b_time') else ''}/{x.fold}"
    return repr(x)


def do(name, p):
    try:
        return show((OPS.get(name) or SLOW[name])(p))
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"


def operands(p):
    """Everything visible of the shared values (no caches)."""
    return {k: show(v) for k, v in p.items() if k not in ('bc', 'gc')}


def forked(fn, *a):
    """fn(*a) in a pristine copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            out = pickle.dumps(fn(*a))
        except BaseException as e:  # noqa: BLE001
            out = pickle.dumps(RuntimeError(f"{type(e).__name__}: {e}"))
        with os.fdopen(w, 'wb') as f:
            f.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    v = pickle.loads(data)
    if isinstance(v, RuntimeError):
        raise v
    return v


def alone(names=None):
    """What each operation answers when nothing was asked before."""
    return {n: forked(lambda n=n: do(n, pool())) for n in names or OPS}
