"""Threads sharing the library get the answers they would get alone.

Two real threads run the real code under a controlled scheduler: only one of
them runs at a time, and the scheduler may take the processor away before
every line of the library (sys.monitoring).  All schedules with one
preemption (thorough: two) are run, each in a pristine copy of the process.
"""
import _thread
import importlib
import pkgutil
import sys
import threading
import _boot  # noqa: F401
import geopy.geocoders  # noqa: F401 - loaded before the locks are replaced
import tzlocal  # noqa: F401
from engine import Fail, REPO, Space, main, note, outcome, step

RealLock = _thread.allocate_lock
SCHED = None


class Lock:
    """A lock the scheduler can see."""

    def __init__(self):
        self._l = RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is None or not blocking or s.me() is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        super().__init__()
        self._o, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        if super().acquire(blocking, timeout):
            self._o, self._n = me, 1
            return True
        return False

    def release(self):
        self._n -= 1
        if not self._n:
            self._o = None
            super().release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        n, self._n = self._n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


_thread.allocate_lock = threading.Lock = Lock
threading.RLock = RLock
import badidatetime as bd  # noqa: E402
for _m in pkgutil.iter_modules(bd.__path__):
    if _m.name != 'tests':
        importlib.import_module('badidatetime.' + _m.name)
bd.datetime.strptime('181', '%Y')
import ops as O  # noqa: E402

MON = sys.monitoring
TOOL = 4
LINE = MON.events.LINE
ROOT = REPO.rstrip('/') + '/'
CAP = 2


class Deadlock(Exception):
    pass


class Scheduler:
    """Thread 0 runs to its first switch point, and so on."""

    def __init__(self, switches):
        self.gates = [RealLock(), RealLock()]
        for g in self.gates:
            g.acquire()
        self.ids = {}
        self.done = [False, False]
        self.turn = 0
        self.switches = list(switches)     # points, for 0, 1, 0 ... in turn
        self.count = 0
        self.seen = {}
        self.stuck = False
        self.used = 0

    def me(self):
        return self.ids.get(_thread.get_ident())

    def hand_over(self, me):
        """Let the other thread run until it hands back."""
        self.turn = 1 - me
        self.gates[1 - me].release()
        self.gates[me].acquire()
        if self.stuck:
            raise Deadlock

    def blocked(self):
        me = self.me()
        if self.done[1 - me] or getattr(self, 'waiting', None) == 1 - me:
            self.stuck = True
            raise Deadlock('both threads wait')
        self.waiting = me
        self.hand_over(me)
        self.waiting = None

    def line(self, code, line):
        if not code.co_filename.startswith(ROOT):
            return MON.DISABLE
        me = self.ids.get(_thread.get_ident())
        if me is None or me != self.turn or not self.switches:
            return None
        k = (code, line)
        n = self.seen[k] = self.seen.get(k, 0) + 1
        if n > CAP:
            return MON.DISABLE
        self.count += 1
        if self.count == self.switches[0] + 1:
            self.switches.pop(0)
            self.used += 1
            if self.done[1 - me] or getattr(self, 'waiting',
                                            None) == 1 - me:
                return None
            self.count = 0
            self.seen = {}
            if self.switches:
                MON.restart_events()
            else:
                MON.set_events(TOOL, 0)
            self.hand_over(me)
        return None

    def run(self, me, fn, out):
        self.ids[_thread.get_ident()] = me
        self.gates[me].acquire()
        try:
            out[me] = fn()
        except Deadlock:
            out[me] = 'deadlock'
        finally:
            self.done[me] = True
            self.turn = 1 - me
            if self.gates[1 - me].locked() and not self.done[1 - me]:
                self.gates[1 - me].release()


def play(names, switches):
    """Answers of both threads and of questions asked after them."""
    global SCHED
    p = O.pool()
    s = SCHED = Scheduler(switches)
    out = [None, None]
    MON.use_tool_id(TOOL, 'verif')
    MON.register_callback(TOOL, LINE, s.line)
    ts = [threading.Thread(target=s.run, daemon=True,
                           args=(i, lambda n=n: O.do(n, p), out))
          for i, n in enumerate(names)]
    for t in ts:
        t.start()
    while len(s.ids) < 2:
        pass
    MON.set_events(TOOL, LINE)
    s.gates[0].release()
    for t in ts:
        t.join(60)
    MON.set_events(TOOL, 0)
    SCHED = None
    if any(t.is_alive() for t in ts):
        return ['deadlock'] * 2, None, s.used
    return out, [O.do(n, p) for n in names], s.used


def points(name):
    """Number of switch points of one operation that runs alone."""
    def go():
        p = O.pool()
        s = Scheduler([10**9])
        s.ids[_thread.get_ident()] = 0
        MON.use_tool_id(TOOL, 'verif')
        MON.register_callback(TOOL, LINE, s.line)
        MON.set_events(TOOL, LINE)
        O.do(name, p)
        MON.set_events(TOOL, 0)
        return s.count
    return O.forked(go)


ALONE = {}
RAL, SYD = O.RAL, O.SYD
THREADS = {
    'sunset at 35 N': lambda p: p['bc']._sun_setting(2460541.25, 35.0, 51.0),
    'sunset at 60 N': lambda p: p['bc']._sun_setting(2460541.25, 60.0, 51.0),
    'nutation degrees': lambda p: (
        p['bc']._nutation_longitude(.24, degrees=True),
        p['bc']._nutation_obliquity(.24, degrees=True)),
    'nutation radians': lambda p: (p['bc']._nutation_obliquity(.24),
                                   p['bc']._nutation_longitude(.24)),
    'true obliquity': lambda p: (p['bc']._true_obliquity_of_ecliptic(.25),
                                 p['bc']._true_obliquity_of_ecliptic(.24)),
    'to jd': lambda p: p['bc'].jd_from_badi_date((181, 6, 9, 1, 2, 3), *RAL),
    'to jd 2': lambda p: p['bc'].jd_from_badi_date((-500, 0, 3), *SYD),
    'from jd': lambda p: p['bc'].badi_date_from_jd(2460541.25, *RAL,
                                                   us=True),
    'from jd 2': lambda p: p['bc'].badi_date_from_jd(2000541.25, *SYD,
                                                     short=True, trim=True),
    'naw-ruz': lambda p: p['bc'].naw_ruz_g_date(181),
    'midday': lambda p: p['bc'].midday((181, 6, 9), hms=True, _short=True),
    'forms': O.OPS['forms'],
    'gregorian': lambda p: (p['gc'].jd_from_gregorian_date((2024, 6, 12)),
                            p['gc'].gregorian_date_from_jd(2299160.75,
                                                           hms=True)),
    'format am': lambda p: p['a'].strftime('%I %p'),
    'format pm': lambda p: p['e'].strftime('%X %r'),
    'format week': lambda p: p['d1'].strftime('%U %V'),
    'format names': lambda p: p['d2'].strftime('%A %B %c %K'),
    'parse': lambda p: bd.datetime.strptime('0181-06-09', '%Y-%m-%d'),
    'parse other': lambda p: bd.datetime.strptime('0181-06-09', '%Y-%d-%m'),
    'parse bad': lambda p: bd.datetime.strptime('0181', '%Y-%Q'),
    'parse iso': lambda p: bd.datetime.fromisoformat(
        '0181-06-09T10:20:30+05:30'),
    'hash': lambda p: (hash(p['t1']), hash(p['t2']), hash(p['c'])),
    'compare': lambda p: (p['t1'] < bd.time(11), p['b'] == p['c'],
                          p['d1'] < p['d2'] if 0 else p['d1'] < bd.date(
                              190, 1, 1)),
    'ordinal': lambda p: (p['d1'].toordinal(), p['d2'].weekday()),
    'from ordinal': lambda p: bd.date.fromordinal(739000, short=False),
    'week': lambda p: p['d1'].isocalendar(),
    'add': lambda p: p['b'] + p['td'],
    'subtract': lambda p: p['c'] - p['td'],
    'zone': lambda p: p['b'].astimezone(p['z3']),
    'stamp': lambda p: p['c'].timestamp(),
    'from stamp': lambda p: bd.datetime.fromtimestamp(1.7e9, p['z1']),
    'from stamp 2': lambda p: bd.datetime.fromtimestamp(1.6e9, p['z2'],
                                                        short=False),
    'tuple': lambda p: (p['b'].timetuple(), p['c'].utctimetuple()),
    'text': lambda p: (str(p['b']), repr(p['c']), p['d2'].ctime()),
    'replace': O.OPS['replace'],
    'split': O.OPS['split'],
    'pickle': O.OPS['pickle'],
    'create': lambda p: (bd.date(182, 0, 5), bd.time(23, 59),
                         bd.datetime(1, 10, 11, 0, 5, 1, 2, 3)),
    'calendar': lambda p: bd.BahaiCalendar().utc_sunset((181, 6, 9), *SYD),
}
O.OPS.update(THREADS)


def judge(names, switches):
    out, after, used = O.forked(play, names, switches)
    step(4)
    what = f"threads {names} with switches {switches}"
    for n, r in zip(names, out):
        if r != ALONE[n]:
            raise Fail(f"{what}: {n!r} answers {r}, alone {ALONE[n]}")
    for n, r in zip(names, after):
        if r != ALONE[n]:
            raise Fail(f"{what}: {n!r} asked afterwards answers {r}, alone "
                       f"{ALONE[n]}")
    outcome(f'{used} preemptions')


def one(c):
    a, b, i = c
    judge((a, b), (i,))


def two(c):
    a, b, i, j = c
    judge((a, b), (i, j))


# Partners that share state with the first thread.
GROUPS = (
    ('sunset at 35 N', 'sunset at 60 N', 'nutation degrees',
     'nutation radians', 'true obliquity', 'to jd', 'to jd 2'),
    ('from jd', 'from jd 2', 'midday', 'naw-ruz'),
    ('format am', 'format pm', 'format week', 'format names'),
    ('parse', 'parse other', 'parse bad'),
    ('hash', 'compare', 'split', 'replace', 'pickle', 'create'),
    ('ordinal', 'from ordinal', 'week', 'add', 'subtract'),
    ('zone', 'stamp', 'from stamp', 'from stamp 2', 'tuple', 'text'),
    ('forms', 'gregorian', 'parse iso', 'calendar'),
)


def build(tier):
    global CAP
    q = tier == 'quick'
    CAP = 1 if q else 2
    ALONE.update(O.alone(THREADS))
    bad = {n: r for n, r in ALONE.items() if 'Error' in r}
    assert set(bad) <= {'parse bad'}, bad
    pts = {n: points(n) for n in THREADS}
    note('switch points of all operations', sum(pts.values()))
    pairs = []
    for g in GROUPS:
        for k, a in enumerate(g):
            if q:
                pairs.append((a, g[(k + 1) % len(g)]))
            else:
                pairs += [(a, b) for b in g]
    if not q:
        names = list(THREADS)
        pairs += [(a, names[(i * 7 + 5) % len(names)])
                  for i, a in enumerate(names)]
    ones = [(a, b, i) for a, b in dict.fromkeys(pairs)
            for i in range(pts[a])]
    small = [('nutation degrees', 'nutation radians'),
             ('nutation radians', 'nutation degrees'),
             ('true obliquity', 'nutation degrees'), ('hash', 'hash'),
             ('nutation radians', 'nutation radians')]
    if not q:
        small += [('nutation degrees', 'true obliquity'),
                  ('create', 'create'), ('compare', 'hash')]
    twos = [(a, b, i, j) for a, b in small for i in range(pts[a])
            for j in range(pts[b]) if not q or pts[a] * pts[b] < 6000]
    return [
        Space('one preemption', one, ones, chunk=64,
              bound=f'{len(set(pairs))} ordered pairs of operations, every '
                    f'line (its first {CAP} executions)'),
        Space('two preemptions', two, twos, chunk=64,
              bound='pairs that share the nutation and hash caches'),
    ]


if __name__ == '__main__':
    main('C23', build,
         bounds='two threads, one preemption (small operations: two) before '
                'any line of the library',
         assumptions=['a switch happens between lines; loops are switched '
                      'in their first round (thorough: two)',
                      'the place settings are not changed by a thread'])
