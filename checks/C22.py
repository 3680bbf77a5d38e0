"""Answers do not depend on what was asked before."""
import itertools
import _boot  # noqa: F401
from engine import Fail, Space, call, main, note, outcome, step
import ops as O

ALONE = {}
# Operations that fill or read something that outlives the call.
STATEFUL = ('jd raleigh', 'badi', 'badi near', 'sunset', 'naw-ruz', 'midday',
            'nutation', 'nutation rad', 'sun', 'format', 'format 2',
            'parse many', 'parse', 'parse bad 2',
            'from stamp', 'cmp')


def run(names):
    p = O.pool()
    before = O.operands(p)
    out = []
    for n in names:
        out.append(O.do(n, p))
        after = O.operands(p)
        if after != before:
            k = [k for k in before if before[k] != after[k]][0]
            return out, (n, k, before[k], after[k])
    return out, None


def history(names):
    out, changed = O.forked(run, names)
    step(len(out))
    for i, (n, r) in enumerate(zip(names, out)):
        if r != ALONE[n]:
            raise Fail(f"{n!r} after {list(names[:i])} answers {r}, alone "
                       f"{ALONE[n]}")
    if changed:
        n, k, a, b = changed
        raise Fail(f"{n!r} changed the operand {k}: {a} became {b}")
    outcome(f'{len(names)} operations')


def threefold(names):
    """The same question three times, then every other question."""
    (n,) = names
    history((n, n, n) + tuple(k for k in O.OPS if k != n) + (n,))


def rebuilt(names):
    """Building the table of years again changes nothing."""
    (n,) = names
    history((n, 'leap') + tuple(O.OPS))


FIELDS = ('kull_i_shay', 'vahid', 'year', 'month', 'day', 'hour', 'minute',
          'second', 'microsecond', 'tzinfo', 'fold', 'is_short', 'b_date',
          'b_time')


def read_only(c):
    k, f = c
    p = O.pool()
    x = p[k]
    if not hasattr(type(x), f):
        return
    before = O.operands(p)
    for act in (lambda: setattr(x, f, 1), lambda: delattr(x, f)):
        ok, r = call(act)
        if ok or not isinstance(r, AttributeError):
            raise Fail(f"{f} of {x!r} can be set or deleted")
    if O.operands(p) != before:
        raise Fail(f"{before[k]} changed")


def build(tier):
    q = tier == 'quick'
    ALONE.update(O.alone(), leap='None')
    bad = [n for n, r in ALONE.items() if 'NameError' in r]
    assert not bad, bad
    note('operations', len(ALONE))
    names = list(O.OPS)
    some = STATEFUL if q else names
    return [
        Space('pairs', history, itertools.product(names, repeat=2), chunk=32,
              bound=f'all {len(names)} x {len(names)} ordered pairs'),
        Space('triples', history, itertools.product(some, repeat=3),
              chunk=64, bound=f'all ordered triples of {len(some)} '
                              'operations'),
        Space('years rebuilt', rebuilt, [(n,) for n in ('jd', 'badi',
                                                        'ordinals')],
              chunk=1),
        Space('fields', read_only, [
            (k, f) for k in ('d1', 'd2', 't1', 't2', 'a', 'b')
            for f in FIELDS]),
        Space('long', threefold, [(n,) for n in names], chunk=1,
              bound='all operations in one history, each one first'),
    ]


if __name__ == '__main__':
    main('C22', build,
         bounds='all ordered pairs of all operations, all triples of the '
                'stateful ones (thorough: of all), from a fresh process',
         assumptions=['the answer in a fresh process is the reference; its '
                      'correctness is decided by the other checks'])
