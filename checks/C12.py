"""Times are ordered by their UTC time and hash consistently."""
import datetime as D
import operator as op
import _boot  # noqa: F401
from engine import Fail, Space, call, main, outcome, step
import badidatetime as bd

OPS = ((op.lt, '<'), (op.le, '<='), (op.eq, '=='), (op.ne, '!='),
       (op.ge, '>='), (op.gt, '>'))
MIN = 60 * 10**6


class MyTime(bd.time):
    """A user class."""


class NoOffset(D.tzinfo):
    """A zone that does not know its offset: its times are naive."""

    def utcoffset(self, dt):
        return None

    dst = tzname = utcoffset


NOOFF = NoOffset()


def zone(z):
    """z: None naive, 'none' unknown offset, 'utc'/'badi' library objects,
    else whole minutes."""
    if z is None:
        return None
    if z == 'none':
        return NOOFF
    if z == 'utc':
        return bd.UTC
    if z == 'badi':
        return bd.BADI
    return bd.timezone(D.timedelta(minutes=z), 'Z')


def minutes(z):
    return {'utc': 0, 'badi': 210}.get(z, z)


def mk(us, z, fold=0, cls=bd.time):
    s, u = divmod(us, 10**6)
    return cls(s // 3600, s // 60 % 60, s % 60, u, zone(z), fold=fold)


def key(us, z):
    if z is None or z == 'none':
        return 'naive', us
    return 'aware', us - minutes(z) * MIN


def pair(a, ka, b, kb):
    if ka[0] != kb[0]:
        if (a == b) is not False or (a != b) is not True:
            raise Fail(f"{a!r} == {b!r} though one is naive")
        for f, name in (OPS[0], OPS[1], OPS[4], OPS[5]):
            ok, r = call(f, a, b)
            if ok or not isinstance(r, TypeError):
                raise Fail(f"{a!r} {name} {b!r} gave {r!r}")
        outcome('naive with aware')
        return
    step(6)
    for f, name in OPS:
        if f(a, b) is not f(ka[1], kb[1]):
            raise Fail(f"{a!r} {name} {b!r} is {f(a, b)}")
    if ka == kb:
        if hash(a) != hash(b) or len({a, b}) != 1:
            raise Fail(f"{a!r} == {b!r} but their hashes differ")
        outcome('equal')
    else:
        outcome('less' if ka < kb else 'greater')


def p_values(i):
    us, z, fold = VALUES[i]
    a = mk(us, z, fold, MyTime if i % 4 == 0 else bd.time)
    ka = key(us, z)
    before = repr(a)
    for vs, y, fo in VALUES:
        pair(a, ka, mk(vs, y, fo), key(vs, y))
    if repr(a) != before:
        raise Fail(f"{before} changed to {a!r}")


def p_minutes(i):
    """One minute of the day against all."""
    a = mk(i * MIN, None)
    for j in range(1440):
        pair(a, ('n', i), ALLMIN[j], ('n', j))


def p_offsets(off):
    """All times whose UTC time is the same, or a minute off, are equal or
    ordered, from every offset."""
    za = zone(off)
    for us in (0, 1, 12 * 60 * MIN, 1440 * MIN - 1, 61 * MIN + 5):
        s, u = divmod(us, 10**6)
        a = bd.time(s // 3600, s // 60 % 60, s % 60, u, za)
        ka = us - off * MIN
        for o2, zb in OFFS:
            for shift in (-MIN, -1, 0, 1, MIN):
                vs = ka + shift + o2 * MIN
                if 0 <= vs < 1440 * MIN:
                    s, u = divmod(vs, 10**6)
                    pair(a, ('a', ka), bd.time(s // 3600, s // 60 % 60,
                                               s % 60, u, zb),
                         ('a', ka + shift))


def p_kinds(i):
    vals = (mk(0, None), mk(0, 'utc'), mk(5, 60, 1))
    others = (None, 0, '00:00:00', (0, 0, 0, 0), D.time(0), D.timedelta(0),
              bd.date(181, 1, 1), bd.datetime(181, 1, 1))
    a, b = vals[i // len(others)], others[i % len(others)]
    for x, y in ((a, b), (b, a)):
        if call(op.eq, x, y) != (True, False) or call(
                op.ne, x, y) != (True, True):
            raise Fail(f"{x!r} == {y!r}")
        for f, name in (OPS[0], OPS[1], OPS[4], OPS[5]):
            ok, r = call(f, x, y)
            if ok or not isinstance(r, TypeError):
                raise Fail(f"{x!r} {name} {y!r} gave {r!r}")
    outcome(type(b).__name__)


def build(tier):
    global VALUES, ALLMIN, OFFS
    # Hour 24 (the rest of a long day) only without an offset.
    us = [0, 1, 999999, 10**6, MIN - 1, MIN, 60 * MIN - 1, 60 * MIN,
          210 * MIN, 210 * MIN - 1, 12 * 60 * MIN, 13 * 60 * MIN + 7,
          1439 * MIN, 1440 * MIN - 10**6, 1440 * MIN - 1]
    zs = [None, 'none', 'utc', 'badi', 0, 1, -1, 60, -60, 210, 330, -570,
          720, -720, 1439, -1439]
    VALUES = [(u, z, f) for u in us for z in zs for f in (0, 1)]
    VALUES += [(1440 * MIN, None, 0), (1440 * MIN + 10**6, None, 1),
               (1440 * MIN + 3 * 10**6, 'none', 0)]
    ALLMIN = [mk(j * MIN, None) for j in range(1440)]
    OFFS = [(o, zone(o)) for o in range(-1439, 1440, 30 if tier == 'quick'
                                        else 1)]
    step_ = 5 if tier == 'quick' else 1
    return [
        Space('all pairs', p_values, range(len(VALUES)), 4,
              bound=f'{len(VALUES)} times (fields x zones x fold), all pairs'),
        Space('minutes of the day', p_minutes, range(0, 1440, step_), 8,
              bound=f'naive: every {step_}. minute against every minute'),
        Space('offsets', p_offsets, range(-1439, 1440, step_), 8,
              bound=f'every {step_}. whole-minute offset against {len(OFFS)} '
                    'offsets, equal UTC time and neighbours'),
        Space('other kinds', p_kinds, range(24), 4,
              bound='three times x eight other kinds')]


if __name__ == '__main__':
    main('C12', build,
         ['Offsets are whole minutes (the hash refuses others); hour 24 only '
          'among naive times.'],
         'all pairs of boundary values')
