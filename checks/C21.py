"""Zones, places, and locales do not leak into each other."""
import copy
import datetime as D
import functools
import itertools
import os
import pickle
import re
import sys
import time as T
import zoneinfo
import _boot  # noqa: F401
from engine import (Fail, Space, call, elsewhere, have_locale, main, note,
                    outcome, step)
import astro as A
import model as M
import geopy.geocoders as G
import tzlocal
import badidatetime as bd

TD = D.timedelta
bdd = sys.modules['badidatetime.datetime']
TIER = 'quick'
EPOCH = 2440585.5
TEHRAN = (35.69435, 51.288701, 3.5)
TOWNS = {'Raleigh, NC': (35.7796, -78.6382), 27601: (35.78, -78.64)}
STAMPS = (-3e9 + .5, 0, 1724265226.25, 6e9 + 7)
NOW = 1700000000.5
real_time = T.time
try:
    zoneinfo.ZoneInfo('Europe/London')
    HAVE_ZI = True
except Exception:  # no zone data here
    HAVE_ZI = False
asked = []


class Found:
    def __init__(self, p):
        self.latitude, self.longitude = p


def fake_geocode(self, what, *a, **k):
    asked.append(what)
    return Found(TOWNS[what]) if what in TOWNS else None


G.Nominatim.geocode = fake_geocode      # there is no network

# Places: argument, keyword, resulting place (None: unchanged, an error).
PLACES = {
    'reset': ((), {}, TEHRAN),
    'London': ((51.5, -0.5), {}, (51.5, -0.5, 0.0)),
    'ints': ((36, -79), {}, (36, -79, 0.0)),
    'equator': ((0.0, 0.0), {}, (0.0, 0.0, 0.0)),
    'south': ((), dict(lat=-33.87, lon=151.2), (-33.87, 151.2, 0.0)),
    'town': ((), dict(locale='Raleigh, NC'), (35.7796, -78.6382, 0.0)),
    'zip': ((), dict(locale=27601), (35.78, -78.64, 0.0)),
    'both': ((1.5, 2.5), dict(locale='Raleigh, NC'), (1.5, 2.5, 0.0)),
    'nowhere': ((), dict(locale='Atlantis'), None),
}
# Zones: all pairs share offsets or coordinates.
MAKERS = {
    'east': lambda: bd.TZWithCoords(35.0, 139.0, 9.0, key='E'),
    'east2': lambda: bd.TZWithCoords(-35.0, 149.0, 9.0),
    'gmt': lambda: bd.TZWithCoords(51.477928, -0.001545, 0),
    'none': lambda: bd.TZWithCoords(10.0, 20.0, None),
    'plain': lambda: bd.timezone(TD(hours=9)),
    'named': lambda: bd.timezone(TD(hours=9), 'nine'),
    'zero': lambda: bd.timezone(TD(0), 'zero'),
    'tehran': lambda: bd.TZWithCoords(35.69435, 51.288701, 3.5, key='T'),
    'info': lambda: bd.TZWithCoords.fromzoneinfo(
        zoneinfo.ZoneInfo('Europe/London'), 51.5, -0.1, 0.0)
    if HAVE_ZI else bd.TZWithCoords(51.5, -0.1, 0.0, key='Europe/London'),
}
LON = 'Europe/London'
FACTS = {   # offset, name, str, coordinates, key
    'east': (TD(hours=9), 'E', '35.0, 139.0, 9.0, E', (35.0, 139.0, 9.0)),
    'east2': (TD(hours=9), 'UTC+09:00', '-35.0, 149.0, 9.0',
              (-35.0, 149.0, 9.0)),
    'gmt': (TD(0), 'UTC', '51.477928, -0.001545, 0',
            (51.477928, -0.001545, 0)),
    'none': (TD(0), 'UTC', '10.0, 20.0, None', (10.0, 20.0, None)),
    'plain': (TD(hours=9), 'UTC+09:00', 'UTC+09:00', None),
    'named': (TD(hours=9), 'nine', 'nine', None),
    'zero': (TD(0), 'zero', 'zero', None),
    'tehran': (TD(hours=3.5), 'T', '35.69435, 51.288701, 3.5, T', TEHRAN),
    'info': (TD(0), LON, f'51.5, -0.1, 0.0, {LON}', (51.5, -0.1, 0.0)),
}
SUMMER = bd.datetime(1, 10, 10, 7, 9, 12)    # only fields matter


def at_place(ts, place):
    """Badi date and seconds of the instant at a place (independent)."""
    lat, lon = place[:2]
    n = round(ts / 86400 + EPOCH - A.day_jd(1, 35.7, 51.3)) + 1
    for k in range(n - 2, n + 3):
        a = (A.day_jd(k, lat, lon) - EPOCH) * 86400
        b = (A.day_jd(k + 1, lat, lon) - EPOCH) * 86400
        if a <= ts < b:
            return M.from_ordinal(k), ts - a
    raise AssertionError(ts)


EXPECT = {}


def expect(ts, place):
    k = ts, place
    if k not in EXPECT:
        EXPECT[k] = at_place(ts, place)
    return EXPECT[k]


def whereabouts(name, place):
    """Where a zone computes its days; incomplete coordinates mean Tehran."""
    c = (FACTS[name][3] if name else None) or place
    return TEHRAN if None in c else c


def secs(t):
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


def close(dt, ts, place, what):
    ymd, s = expect(ts, place)
    if dt.b_date != ymd or abs(secs(dt.b_time) - s) > 20:
        raise Fail(f"{what} is {dt!r}, expected {ymd} {s:.0f} s at {place}")


def zone_ok(name, z, where):
    off, tzname, text, coords = FACTS[name]
    got = (z.utcoffset(None), z.tzname(None), str(z),
           getattr(z, 'coordinates', None))
    if got != (off, tzname, text, coords):
        raise Fail(f"{where}: zone {name} answers {got}")
    if coords and (z.lat, z.lon, z.zone) != coords:
        raise Fail(f"{where}: zone {name}: {z.lat}, {z.lon}, {z.zone}")
    dst = z.dst(SUMMER)
    want = TD(0) if coords else None
    if name == 'info' and HAVE_ZI:
        want = zoneinfo.ZoneInfo(LON).dst(SUMMER) or want
    if dst != want:
        raise Fail(f"{where}: zone {name} has dst {dst}")


def settled(place, made, moments, where):
    """Everything answers for itself."""
    step(8)
    if tuple(bd.LOCAL_COORD) != place or tuple(bdd.LOCAL_COORD) != place:
        raise Fail(f"{where}: LOCAL_COORD is {bd.LOCAL_COORD} / "
                   f"{bdd.LOCAL_COORD}, expected {place}")
    off = TD(hours=place[2])
    for z in (bd.LOCAL, bdd.LOCAL, bd.timezone.local):
        if z.utcoffset(None) != off:
            raise Fail(f"{where}: LOCAL is {z!r}")
    for z, c, nm in ((bd.UTC, (51.477928, -0.001545, 0), 'UTC'),
                     (bd.BADI, TEHRAN, 'Asia/Tehran')):
        if z.coordinates != c or z.utcoffset(None) != TD(hours=c[2]) or (
                z.tzname(None) != nm):
            raise Fail(f"{where}: {nm} is {z.coordinates}")
    if (bd.timezone.utc is not bd.UTC or bd.timezone.badi is not bd.BADI
            or tuple(bd.BADI_COORD) != TEHRAN
            or tuple(bd.GMT_COORD) != (51.477928, -0.001545, 0)
            or bd.BADI_IANA != 'Asia/Tehran'):
        raise Fail(f"{where}: a constant changed")
    for name, z in made:
        zone_ok(name, z, where)
    for x, fields, tz in moments:
        if (x.b_date, x.b_time) != fields or x.tzinfo is not tz:
            raise Fail(f"{where}: a datetime became {x!r}")
    k = len(made) + len(moments)
    ts = STAMPS[k % 4]
    dt = bd.datetime.fromtimestamp(ts)
    close(dt, ts, place, f"{where}: fromtimestamp({ts})")
    if abs(dt.timestamp() - ts) > 3e-3:
        raise Fail(f"{where}: {dt!r}.timestamp() is {dt.timestamp()}")
    d = bd.date.fromtimestamp(ts)
    if d.b_date != dt.b_date:
        raise Fail(f"{where}: date.fromtimestamp({ts}) is {d!r}")
    for name, z in made:
        c = whereabouts(name, place)
        a = bd.datetime.fromtimestamp(ts, z)
        close(a, ts, c, f"{where}: fromtimestamp({ts}, {name})")
        if a.utcoffset() != FACTS[name][0] or a.tzname() != FACTS[name][1]:
            raise Fail(f"{where}: {a!r} has {a.utcoffset()}, {a.tzname()}")
    a = bd.datetime.fromtimestamp(ts, bd.UTC)
    close(a, ts, bd.GMT_COORD, f"{where}: fromtimestamp({ts}, UTC)")
    a = bd.datetime.fromtimestamp(ts, bd.BADI)
    close(a, ts, TEHRAN, f"{where}: fromtimestamp({ts}, BADI)")
    n = dt.astimezone()
    if n.utcoffset() != off or (n.b_date, n.b_time) != (
            dt.b_date, dt.b_time):
        raise Fail(f"{where}: {dt!r}.astimezone() is {n!r}")
    # The calendar's own default is Tehran, wherever the user is.
    r = bd.BahaiCalendar().badi_date_from_timestamp(ts, short=True, us=True)
    ymd, s = expect(ts, TEHRAN)
    if r[:3] != ymd or abs(secs(r[3:7]) - s) > 20:
        raise Fail(f"{where}: badi_date_from_timestamp({ts}) is {r}")


def run(ops):
    bd.set_local_coordinates()
    place, made, moments = TEHRAN, [], []
    T.time = lambda: NOW
    for i, op in enumerate(ops):
        where = ' '.join(ops[:i + 1])
        step()
        if op in PLACES:
            a, k, want = PLACES[op]
            ok, r = call(bd.set_local_coordinates, *a, **k)
            if ok is (want is None):
                raise Fail(f"{where}: gave {r!r}")
            place = want or place
        elif op in MAKERS:
            made.append((op, MAKERS[op]()))
        elif op == 'pickle':
            made += [(n, pickle.loads(pickle.dumps(z))) for n, z in made]
            made += [(n, copy.copy(z)) for n, z in made[:1]]
        elif op == 'now':
            for name, z in [(None, None)] + made[-2:]:
                x = bd.datetime.now(z)
                close(x, NOW, whereabouts(name, place),
                      f"{where}: now({name})")
                moments.append((x, (x.b_date, x.b_time), z))
            x = bd.date.today()
            if x.b_date != expect(NOW, place)[0]:
                raise Fail(f"{where}: today() is {x!r}")
        elif op == 'convert':
            zs = [z for _, z in made[-2:]] + [bd.UTC, None]
            src = bd.datetime(181, 5, 4, None, None, 10, 20, 30,
                              tzinfo=zs[0])
            for z in zs:
                x = src.astimezone(z)
                o = (z.utcoffset(None) if z else TD(hours=place[2]))
                m = 37230 + round((o - zs[0].utcoffset(None)
                                   ).total_seconds())
                w = M.from_ordinal(M.ordinal(181, 5, 4) + m // 86400)
                m %= 86400
                if x.b_date != w or secs(x.b_time) != m or (
                        x.utcoffset() != o):
                    raise Fail(f"{where}: {src!r}.astimezone({z!r}) is "
                               f"{x!r}")
                moments.append((x, (x.b_date, x.b_time), x.tzinfo))
        elif op == 'calendar':
            bc = bd.BahaiCalendar()
            for p in ((10.0, 20.0, 1.0), (-35.0, 149.0, 9.0)):
                r = bc.badi_date_from_timestamp(NOW, *p, short=True,
                                                us=True)
                ymd, s = expect(NOW, p)
                if r[:3] != ymd or abs(secs(r[3:7]) - s) > 20:
                    raise Fail(f"{where}: at {p} gave {r}")
    settled(place, made, moments, ' '.join(ops) or 'start')


def case(c):
    run(c)
    outcome(f'{len(c)} operations')


def places_only(c):
    """All sequences of places with a look at the place after each."""
    bd.set_local_coordinates()
    place = TEHRAN
    for i, op in enumerate(c):
        a, k, want = PLACES[op]
        del asked[:]
        call(bd.set_local_coordinates, *a, **k)
        place = want or place
        if bool(asked) != (op in ('town', 'zip', 'nowhere')):
            raise Fail(f"{c[:i + 1]}: network asked for {asked}")
        ts = STAMPS[i % 4]
        dt = bd.datetime.fromtimestamp(ts)
        close(dt, ts, place, f"{' '.join(c[:i + 1])}: fromtimestamp")
        if bd.LOCAL_COORD != place or (
                bd.LOCAL.utcoffset(None) != TD(hours=place[2])):
            raise Fail(f"{c[:i + 1]}: {bd.LOCAL_COORD}, {bd.LOCAL!r}")
        step(2)
    outcome('places')


class Own(bd.TZWithCoords):
    pass


def zone_table():
    """Zones that agree in all but one or more of their attributes."""
    t = {}
    for lat, lon, zone, key, cls in itertools.product(
            (40.5, 25.25), (-74.0, -80.5), (-5.0, -4.0),
            (None, 'America/New_York', 'Europe/London', '+zi', '+zi2'),
            (bd.TZWithCoords, Own)):
        if cls is Own and (lat, lon) != (40.5, -74.0):
            continue
        t[f"{cls.__name__} {lat} {lon} {zone} {key}"] = (
            cls, lat, lon, zone, key)
    for off in (0, -300, -240, 330):
        for name in (False, 'EST', 'UTC', 'X'):
            t[f"timezone {off} {name}"] = (bd.timezone, off, name)
    return t


ZT = zone_table()
ZI = {'+zi': 'America/New_York', '+zi2': 'Europe/London'}


def make(name):
    cls, *a = ZT[name]
    if len(a) == 2:
        return cls(TD(minutes=a[0]), *([a[1]] if a[1] else []))
    lat, lon, zone, key = a
    if key in ZI:
        if HAVE_ZI:
            return cls.fromzoneinfo(zoneinfo.ZoneInfo(ZI[key]), lat, lon,
                                    zone)
        key = ZI[key]
    return cls(lat, lon, zone, key=key)


def utc_name(m):
    return 'UTC' if not m else (
        f"UTC{'-' if m < 0 else '+'}{abs(m) // 60:02}:{abs(m) % 60:02}")


@functools.cache
def summer(key):
    return (key and HAVE_ZI and zoneinfo.ZoneInfo(key).dst(SUMMER)) or TD(0)


def answers(name, z, where, dst):
    """The zone answers as it was made, whatever else exists."""
    cls, *a = ZT[name]
    step()
    if len(a) == 2:
        off, nm = a
        unnamed = off == 0 and not nm
        want = (bd.TZWithCoords if unnamed else cls, TD(minutes=off),
                nm or utc_name(off), bd.GMT_COORD if unnamed else None)
    else:
        lat, lon, zone, key = a
        nm = ZI.get(key, key)
        want = (cls, TD(hours=zone), nm or utc_name(round(zone * 60)),
                (lat, lon, zone))
    got = (type(z), z.utcoffset(None), z.tzname(None),
           getattr(z, 'coordinates', None))
    if got != want:
        raise Fail(f"{where}: zone {name} answers {got}")
    if len(a) == 4:
        if (z.lat, z.lon, z.zone) != want[3] or z.key != (nm or ''):
            raise Fail(f"{where}: zone {name} has {z.lat}, {z.lon}, "
                       f"{z.zone}, {z.key}")
        if dst and z.dst(SUMMER) != summer(ZI.get(key)):
            raise Fail(f"{where}: zone {name} has dst {z.dst(SUMMER)}")


def zone_pairs(c):
    """Two zones made one after the other are two zones."""
    for names in ((c[0], c[1]), (c[0], c[1], c[0])):
        zs = [(n, make(n)) for n in names]
        zs += [(n, pickle.loads(pickle.dumps(z))) for n, z in zs[:2]]
        zs += [(n, copy.deepcopy(z)) for n, z in zs[:2]]
        for i, (n, z) in enumerate(zs):
            answers(n, z, f"{' '.join(names)}", i < 2 and len(names) == 2)
    if c[2]:
        ts = STAMPS[2]
        for n, z in zs[:2]:
            p = getattr(z, 'coordinates', None) or TEHRAN
            close(bd.datetime.fromtimestamp(ts, z), ts, p,
                  f"{' '.join(names)}: fromtimestamp({ts}, {n})")
    outcome('zones')


# ------------------------------------------------- the system's own settings
HERE_P = ((28.6, 77.2), (-33.87, 151.2), (51, 0))


def system_zone(c):
    """The local place has the given coordinates and the system's offset."""
    (name,) = c
    old = os.environ['TZ']

    def now():
        x = D.datetime.now(zoneinfo.ZoneInfo(name)).utcoffset()
        return x.total_seconds() / 3600

    def setting(tz):
        os.environ['TZ'] = tz
        T.tzset()
        tzlocal.reload_localzone()

    try:
        setting(name)
        for i, p in enumerate(HERE_P):
            o = now()
            bd.set_local_coordinates(*p)
            o2 = now()      # the clock may have been changed meanwhile
            got = tuple(bd.LOCAL_COORD)
            if got not in ((*p, o), (*p, o2)):
                raise Fail(f"TZ={name}: LOCAL_COORD is {got}, expected "
                           f"{(*p, o)}")
            settled(got, [], [], f'TZ={name}')
            z = bd.LOCAL
            d = bd.datetime(181, 5, 4, None, None, 12, 30)
            a, b = d.astimezone(), d.astimezone(bd.UTC)
            m = 750 - round(got[2] * 60)
            w = M.from_ordinal(M.ordinal(181, 5, 4) + m // 1440)
            if (a.b_date, a.b_time, a.utcoffset(), a.tzname()) != (
                    d.b_date, d.b_time, TD(hours=got[2]), z.tzname(None)) or (
                    b.b_date, b.b_time) != (w, (m // 60 % 24, m % 60, 0, 0)):
                raise Fail(f"TZ={name}: {d!r} is {a!r} and {b!r}")
            c = bd.datetime(181, 5, 4, None, None, 12, 30,
                            tzinfo=bd.UTC).astimezone()
            m = 750 + round(got[2] * 60)
            w = M.from_ordinal(M.ordinal(181, 5, 4) + m // 1440)
            if (c.b_date, c.b_time, c.utcoffset()) != (
                    w, (m // 60 % 24, m % 60, 0, 0), TD(hours=got[2])):
                raise Fail(f"TZ={name}: 12:30 UTC is {c!r}")
            bd.set_local_coordinates()
            settled(TEHRAN, [], [], f'TZ={name}, no place')
            outcome(f'offset {got[2]:g}')
            step(4)
    finally:
        setting(old)
        bd.set_local_coordinates()


def answers_in(tz, loc, seed):
    try:
        a = elsewhere([], TZ=tz, LC_ALL=loc, LANG=loc, PYTHONHASHSEED=seed)
    except RuntimeError as e:
        raise Fail(f"TZ={tz} LC_ALL={loc}: {e}")
    return {k: re.sub(r'-?\d{16,}', '#', v)     # hashes
            for k, v in a.items()}


@functools.lru_cache(None)
def reference(loc):
    return answers_in('UTC', loc, '0')


def environment(c):
    """Where the coordinates are not set, the system's zone, its locale (all
    but the order of %x and %c), and the seed of hashes change no answer."""
    tz, loc, seed = c
    a, b = reference('C.UTF-8'), answers_in(tz, loc, seed)
    step(len(a))
    for k in a:
        if a[k] != b[k] and not (loc[:2] == 'en' and 'format' in k):
            raise Fail(f"TZ={tz} LC_ALL={loc}: {k!r} answers {b[k]}, with UTC "
                       f"and C.UTF-8 {a[k]}")
    if loc[:2] == 'en' and tz != 'UTC':
        u = reference(loc)
        for k in a:
            if u[k] != b[k]:
                raise Fail(f"TZ={tz} LC_ALL={loc}: {k!r} answers {b[k]}, with "
                           f"UTC {u[k]}")
    outcome(loc)


def seqs(ops, depth):
    for n in range(depth + 1):
        yield from itertools.product(ops, repeat=n)


def build(tier):
    global TIER
    TIER = tier
    q = tier == 'quick'
    ops = ['reset', 'London', 'town', 'nowhere', 'east', 'east2', 'gmt',
           'plain', 'info', 'pickle', 'now', 'convert', 'calendar']
    rest = sorted(set(PLACES) | set(MAKERS) | set(ops))
    s = list(seqs(ops, 3 if q else 4))
    s += [p for p in seqs(rest, 2 if q else 3) if p not in set(s)]
    zp = [(a, b, (i + j) % (16 if q else 1) == 0)
          for i, a in enumerate(ZT) for j, b in enumerate(ZT)]
    zones = sorted(zoneinfo.available_timezones() - {'localtime',
                                                     'Factory'})
    kinds = {}
    for z in zones:
        k = tuple(D.datetime(2026, m, 1, tzinfo=zoneinfo.ZoneInfo(z)
                             ).utcoffset() for m in (1, 7))
        kinds.setdefault(k, (z,))
    few = [z for z in ('Asia/Kathmandu', 'America/New_York',
                       'Pacific/Kiritimati', 'Pacific/Marquesas',
                       'Asia/Tehran', 'Europe/London') if z in zones]
    envs = [('UTC', loc, seed) for loc in ('C', 'POSIX', 'en_US.UTF-8')
            for seed in ('0', '77') if have_locale(loc)]
    envs += [(z, loc, str(i)) for i, z in enumerate(few if q else zones[::9])
             for loc in ('C.UTF-8', 'en_US.UTF-8') if have_locale(loc)]
    return [
        Space('system zones', system_zone, kinds.values() if q else [
            (z,) for z in zones], chunk=2,
              bound='every zone of the system; quick: one of each pair of '
                    'winter and summer offset'),
        Space('environments', environment, envs, chunk=1,
              bound=f'{len(envs)} combinations of zone, locale, hash seed'),
        Space('zone pairs', zone_pairs, zp, chunk=64,
              bound=f'ordered pairs of {len(ZT)} zones'),
        Space('histories', case, s, chunk=16,
              bound=f'all sequences of {len(ops)} operations to depth '
                    f'{3 if q else 4}; of all {len(rest)} to depth '
                    f'{2 if q else 3}'),
        Space('places', places_only,
              list(itertools.product(PLACES, repeat=3 if q else 4)),
              chunk=16, bound='all sequences of places'),
    ]


if __name__ == '__main__':
    main('C21', build, bounds='all operation sequences to depth 3 (thorough '
                              '4)',
         assumptions=['the geocoder is replaced by a table (no network)',
                      'the system zone is UTC except in the spaces system '
                      'zones and environments',
                      'sunset of lib/astro.py within 20 s'])
