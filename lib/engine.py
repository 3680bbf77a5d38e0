"""Exhaustive-exploration engine shared by every check.

A check declares *spaces*.  A space is a finite, explicitly enumerated set of
cases (states, operation sequences, schedules ...) with a probe that runs the
real code on one case and compares it with a reference model.  Every case is
executed; nothing is sampled.  A probe raises Fail(message) when the property
does not hold.  The engine counts what was really executed, writes the
evidence file, matches failures against known_findings.json (exact space,
case and message) and stores each unlisted failure as a replayable artefact.
"""
import os
import sys

PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = {'TZ': 'UTC', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
       'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONPATH': REPO}


def bootstrap():
    """Re-execute under the project's interpreter with a fixed environment."""
    want = dict(ENV)
    if (os.path.realpath(sys.prefix) != '/opt/venv'
            or any(os.environ.get(k) != v for k, v in want.items())):
        env = dict(os.environ)
        env.update(want)
        env.pop('PYTHONHOME', None)
        os.execve(PY, [PY, '-B'] + sys.argv, env)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 1)


def elsewhere(args, **env):
    """What lib/envrun.py prints in a process with another environment."""
    import json
    import subprocess
    lib = os.path.join(HERE, 'lib')
    e = dict(os.environ, PYTHONIOENCODING='utf-8', **env)
    e['PYTHONPATH'] = REPO + ':' + lib
    r = subprocess.run([PY, '-B', os.path.join(lib, 'envrun.py'), *args],
                       env=e, capture_output=True, encoding='utf-8')
    if r.returncode:
        raise RuntimeError(r.stderr[-300:])
    return json.loads(r.stdout)


def have_locale(loc):
    import locale
    try:
        locale.setlocale(locale.LC_TIME, loc)
    except locale.Error:
        return False
    finally:
        locale.setlocale(locale.LC_TIME, ENV['LC_ALL'])
    return True


class Fail(Exception):
    """The property does not hold on this case."""


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.states = 0       # distinct model states / cases visited
        self.transitions = 0  # calls of the implementation compared
        self.traces = 0       # model traces (cases) replayed on the code
        self.outcomes = {}    # outcome class -> count
        self.extra = {}


STATS = Stats()


def step(n=1):
    STATS.transitions += n


def state(n=1):
    STATS.states += n


def outcome(label, n=1):
    d = STATS.outcomes
    d[label] = d.get(label, 0) + n


def note(key, n=1):
    STATS.extra[key] = STATS.extra.get(key, 0) + n


def expect(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


def eq(got, want, what):
    STATS.transitions += 1
    if got != want or type(got) is not type(want) and not (
            isinstance(got, (int, float)) and isinstance(want, (int, float))):
        raise Fail(f"{what}: got {got!r}, expected {want!r}")


def call(fn, *a, **k):
    """(True, value) or (False, exception)"""
    STATS.transitions += 1
    try:
        return True, fn(*a, **k)
    except Exception as e:  # noqa: BLE001 - the class is examined by callers
        return False, e


def rejects(fn, *a, what='', kinds=(ValueError, AssertionError, TypeError,
                                     OverflowError), **k):
    ok, v = call(fn, *a, **k)
    if ok:
        raise Fail(f"{what}: accepted, gave {v!r}")
    if not isinstance(v, kinds):
        raise Fail(f"{what}: raised {type(v).__name__}: {v}")
    return v


class Space:
    """name, probe(case), cases (list / iterable of JSON-able cases)."""

    def __init__(self, name, probe, cases, chunk=64, serial=False,
                 count=True, bound='', every_failure=False):
        self.name, self.probe = name, probe
        self.cases = list(cases)
        self.chunk, self.serial = chunk, serial
        self.count = count  # each case is itself one state and one trace
        self.bound = bound


MAXFAIL = 40
_SPACES = {}


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def run_case(space, case):
    """None or a failure message."""
    try:
        space.probe(case)
    except Fail as e:
        return str(e)
    except Exception as e:  # the code raised where the model does not
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if REPO in f.filename]
        where = own[-1].name if own else tb[-1].name
        return f"unexpected {type(e).__name__} in {where}: {e}"
    return None


def _work(args):
    name, lo, hi = args
    sp = _SPACES[name]
    STATS.reset()
    fails = []
    nfail = 0
    sample = None
    for i in range(lo, hi):
        c = sp.cases[i]
        if sp.count:
            STATS.states += 1
            STATS.traces += 1
        m = run_case(sp, c)
        if m is not None:
            nfail += 1
            if len(fails) < MAXFAIL:
                fails.append((i, m))
    return (name, STATS.states, STATS.transitions, STATS.traces,
            STATS.outcomes, STATS.extra, fails, nfail)


def main(pid, build, assumptions=(), bounds=''):
    """build(tier) -> list of Space."""
    import argparse
    import json
    import time
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    sys.setrecursionlimit(10000)
    if a.replay:
        rec = json.load(open(a.replay))
        sp = [s for s in build(rec.get('tier', tier))
              if s.name == rec['space']][0]
        m = run_case(sp, tup(rec['case']))
        print(f"replay {rec['space']} {rec['case']}: "
              f"{'FAILS: ' + m if m else 'holds'}")
        sys.exit(1 if m else 0)
    spaces = build(tier)
    if a.only:
        spaces = [s for s in spaces if s.name == a.only]
    for s in spaces:
        assert s.name not in _SPACES, s.name
        _SPACES[s.name] = s
    tot = {'states': 0, 'transitions': 0, 'traces': 0}
    outs, extra, fails, per = {}, {}, [], {}

    def absorb(r):
        name, st, tr, tc, oc, ex, fl, nf = r
        tot['states'] += st
        tot['transitions'] += tr
        tot['traces'] += tc
        p = per.setdefault(name, {'cases': len(_SPACES[name].cases),
                                  'states': 0, 'transitions': 0,
                                  'failures': 0})
        if _SPACES[name].bound:
            p['bound'] = _SPACES[name].bound
        p['states'] += st
        p['transitions'] += tr
        p['failures'] += nf
        for k, v in oc.items():
            k = f"{name}:{k}"
            outs[k] = outs.get(k, 0) + v
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v
        fails.extend((name, i, m) for i, m in fl)

    jobs, serial = [], []
    for s in spaces:
        n = len(s.cases)
        if s.serial:
            serial.append((s.name, 0, n))
        else:
            jobs += [(s.name, i, min(i + s.chunk, n))
                     for i in range(0, n, s.chunk)]
    if jobs:
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        with ctx.Pool(NPROC) as pool:
            for r in pool.imap_unordered(_work, jobs):
                absorb(r)
    for j in serial:
        absorb(_work(j))

    order = {s.name: k for k, s in enumerate(spaces)}
    fails.sort(key=lambda f: (order[f[0]], f[1]))
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['known']
                 if k['property'] == pid]

    def canon(x):
        return json.dumps(x, ensure_ascii=False, default=str)

    kmap = {(k['space'], canon(k['case']), k['message']): k for k in known}
    shown, viol, ndup = {}, [], 0
    for name, i, m in fails:
        key = (name, canon(_SPACES[name].cases[i]), m)
        if key in kmap:
            shown.setdefault(kmap[key]['what'], []).append(i)
        else:
            viol.append((name, i, m))
    for what, idx in shown.items():
        more = f" ({len(idx)} cases)" if len(idx) > 1 else ''
        print(f"KNOWN-FINDING: property={pid} {what}{more}")
    # A chunk that overflowed its failure list may hide further failures, but
    # then it has already reported MAXFAIL of them.
    rd = os.path.join(HERE, 'replays')
    if viol:
        os.makedirs(rd, exist_ok=True)
    for n, (name, i, m) in enumerate(viol[:5]):
        path = os.path.join(rd, f"{pid}-{n}.json")
        case = _SPACES[name].cases[i]
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'space': name,
                       'case': case, 'message': m,
                       'replay': f"python3 checks/{pid}.py --replay {path}"},
                      f, indent=1, ensure_ascii=False, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {name} {canon(case)}: {m}")
    if len(viol) > 5:
        print(f"  ... and {len(viol) - 5} more failing cases recorded")
    if os.environ.get('VERIF_DUMP'):
        with open(os.environ['VERIF_DUMP'], 'w') as f:
            json.dump([{'property': pid, 'space': n,
                        'case': _SPACES[n].cases[i], 'message': m}
                       for n, i, m in viol], f, ensure_ascii=False, indent=0,
                      default=str)
    samples = []
    for s in spaces:
        if s.cases:
            for k in {0, len(s.cases) // 2}:
                samples.append({'space': s.name, 'case': s.cases[k]})
    ev = {'property': pid, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'model_checking',
          'coverage': {'states': tot['states'],
                       'transitions': tot['transitions'],
                       'traces_validated_against_impl': tot['traces'],
                       'exhaustive': True,
                       'bounds': bounds,
                       'spaces': per,
                       'distinct_outcomes': len(outs),
                       'outcomes': dict(sorted(outs.items(),
                                               key=lambda k: -k[1])[:60]),
                       'known_findings_seen': sum(map(len, shown.values())),
                       'samples': samples[:40], **extra},
          'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print(f"{pid} {tier}: states={tot['states']} "
          f"transitions={tot['transitions']} traces={tot['traces']} "
          f"outcomes={len(outs)} violations={len(viol)} "
          f"wall={ev['wall_s']}s")
    sys.stdout.flush()
    sys.exit(1 if viol else 0)
