"""The version editor leaves a consistent, complete file set."""
import contextlib
import io
import itertools
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import _boot  # noqa: F401
from engine import REPO, Fail, Space, main, note, outcome, step

TIER = 'quick'
INIT = os.path.join('badidatetime', '__init__.py')
PY = 'pyproject.toml'
FILES = (PY, INIT)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


BASE = {n: read(os.path.join(REPO, n)) for n in FILES}
MK = read(os.path.join(REPO, 'include.mk')).decode()
SCRIPT = read(os.path.join(REPO, 'config.py'))
CODE = compile(SCRIPT, 'config.py', 'exec')


def mk(cfg):
    """The include.mk of a configuration (major, minor, patch, status)."""
    out = MK
    for key, v in zip(('MAJORVERSION', 'MINORVERSION', 'PATCHLEVEL'), cfg):
        out, n = re.subn(rf'(?m)^({key}\s*=[ \t]*)\d*$', rf'\g<1>{v}', out)
        assert n == 1, key
    out, n = re.subn(r'(?m)^(STATUS\s*=[ \t]*)"[^"]*"$',
                     rf'\g<1>"{cfg[3]}"', out)
    assert n == 1
    return out


def version(cfg):
    return f"{cfg[0]}.{cfg[1]}.{cfg[2]}{cfg[4]}"


@contextlib.contextmanager
def scratch(files):
    d = tempfile.mkdtemp(prefix='c27-')
    here = os.getcwd()
    try:
        os.mkdir(os.path.join(d, 'badidatetime'))
        for n, b in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        with open(os.path.join(d, 'config.py'), 'wb') as f:
            f.write(SCRIPT)
        os.chmod(os.path.join(d, PY), 0o640)
        os.chdir(d)
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def put_mk(d, cfg):
    with open(os.path.join(d, 'include.mk'), 'w') as f:
        f.write(mk(cfg))


def run(d, cfg, before=None):
    """Run the script as `./config.py`; its text and exit status."""
    put_mk(d, cfg)
    os.environ.pop('PR_TAG', None)
    if cfg[4]:
        os.environ['PR_TAG'] = cfg[4]
    g = {'__name__': '__main__', '__file__': os.path.join(d, 'config.py'),
         '__builtins__': __builtins__}
    out = io.StringIO()
    code = 0
    step()
    try:
        with contextlib.redirect_stdout(out):
            if before:
                before()
            try:
                exec(CODE, g)
            except SystemExit as e:
                code = e.code or 0
            finally:
                sys.settrace(None)
    finally:
        os.environ.pop('PR_TAG', None)
    return out.getvalue(), code


def now(d):
    return {n: read(os.path.join(d, n)) for n in FILES}


def edited(files, cfg):
    """The two files with the version and status lines replaced."""
    ver, status = version(cfg), cfg[3]
    out = {}
    table, seen = None, False
    lines = []
    inside = False
    for ln in files[PY].decode().split('\n'):
        if m := re.match(r'\s*\[+\s*([^\]]+?)\s*\]+', ln):
            if not inside:
                table = m.group(1)
        if table == 'project':
            if re.match(r'version\s*=', ln):
                if f"'{ver}'" not in ln:    # an equal value is not touched
                    ln = re.sub(r'"[^"]*"|\'[^\']*\'', f'"{ver}"', ln,
                                count=1)
            if re.match(r'classifiers\s*=\s*\[', ln):
                inside = True
            if inside and not seen and 'Development Status :: ' in ln:
                ln = re.sub(r'Development Status :: [^"\']*',
                            f'Development Status :: {status}', ln)
                seen = True
            if inside and ']' in ln:
                inside = False
        lines.append(ln)
    out[PY] = '\n'.join(lines).encode()
    lines = []
    for ln in files[INIT].decode().split('\n'):
        if re.match(r'__version__\s*=\s*["\']', ln):
            tail = re.sub(r'^__version__\s*=\s*["\'].*?["\']', '', ln)
            ln = f'__version__ = "{ver}"{tail}'
        lines.append(ln)
    out[INIT] = '\n'.join(lines).encode()
    return out


def same_files(got, want, what):
    for n in FILES:
        if got[n] != want[n]:
            a, b = got[n].decode().split('\n'), want[n].decode().split('\n')
            diff = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y]
            raise Fail(f"{what}: {n} has {diff[0][0]!r} instead of "
                       f"{diff[0][1]!r} ({len(diff)} lines differ)")


def old_fields(files):
    import tomlkit
    p = tomlkit.loads(files[PY].decode())['project']
    c = [str(x) for x in p['classifiers']
         if x.startswith('Development Status :: ')]
    return str(p['version']), c[0] if c else None


def report_is(text, code, files, cfg, what):
    """The report names exactly the changes."""
    v, c = old_fields(files)
    nv, nc = version(cfg), f"Development Status :: {cfg[3]}"
    want = []
    if v != nv:
        want += [f"Old version: {v}", f"New version: {nv}"]
    if c not in (None, nc):
        want += [f"Old classifier: {c}", f"New classifier: {nc}"]
    got = [ln for ln in text.split('\n') if re.match('(Old|New) ', ln)]
    if got != want or (('no changes' in text) != (not want)) or code:
        raise Fail(f"{what}: reported {text!r} (exit {code}), "
                   f"expected {want}")
    outcome('changed' if want else 'unchanged')


def edit(case):
    """One edit of some initial files, and the same edit again."""
    variant, cfg = case
    files = VARIANTS[variant]
    want = edited(files, cfg)
    with scratch(files) as d:
        text, code = run(d, cfg)
        same_files(now(d), want, f"version {version(cfg)}")
        report_is(text, code, files, cfg, f"version {version(cfg)}")
        first = now(d)
        stat = os.stat(PY).st_mode & 0o777
        if stat != 0o640:
            raise Fail(f"the mode of {PY} became {stat:o}")
        text, code = run(d, cfg)
        same_files(now(d), first, 'the same edit again')
        report_is(text, code, first, cfg, 'the same edit again')
        left = sorted(os.listdir(d)) + sorted(os.listdir('badidatetime'))
        if left != ['badidatetime', 'config.py', 'include.mk', PY,
                    '__init__.py']:
            raise Fail(f"files left: {left}")


def sequence(case):
    """After any history the files depend on the last edit only."""
    with scratch(BASE) as d:
        before = BASE
        for i in case:
            text, code = run(d, CFGS[i])
            want = edited(BASE, CFGS[i])
            same_files(now(d), want, f"edits {case}")
            report_is(text, code, before, CFGS[i], f"edits {case}")
            before = want


def whole(got, old, new, what):
    for n in FILES:
        if got.get(n) not in (old[n], new[n]):
            b = got.get(n)
            raise Fail(f"{what}: {n} is "
                       + ('missing' if b is None else 'empty' if not b else
                          f"cut to {len(b)} of {len(new[n])} bytes")
                       + ', neither old nor new')


def recover(d, cfg, new, what):
    """Running again completes the edit."""
    run(d, cfg)
    same_files(now(d), new, f"{what}, then run again")
    outcome('recovered')


def disk(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), d)
            if p not in ('config.py', 'include.mk'):
                out[p] = read(os.path.join(root, f))
    return out


def lines_crash(case):
    """The process dies before any line it executes: what is on the disk at
    that moment is what the crash leaves."""
    (cfg,) = case
    new = edited(BASE, cfg)
    states = []
    count = [0]
    skip = ('/tomlkit/', '/re/', '<frozen importlib')
    with scratch(BASE) as d:

        def local(frame, event, arg):
            count[0] += 1
            sys.settrace(None)
            s = disk(d)
            if not states or states[-1][1] != s:
                states.append((f"{os.path.basename(frame.f_code.co_filename)}"
                               f":{frame.f_lineno}", s))
            sys.settrace(tracer)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if any(x in f for x in skip) and not f.endswith('/api.py'):
                return None
            return local

        run(d, cfg, lambda: sys.settrace(tracer))
        states.append(('the end', disk(d)))
        end = now(d)
    same_files(end, new, 'traced run')
    note('lines', count[0])
    note('disk states', len(states))
    step(count[0])
    for where, s in states:
        what = f"crash before {where}"
        whole(s, BASE, new, what)
        with scratch(BASE) as d:
            for n, b in s.items():
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(b)
            recover(d, cfg, new, what)


def torn(case):
    """The process dies, or its write fails, when a file reaches a size."""
    lo, hi, cfg = case
    new = edited(BASE, cfg)
    sizes = range(lo, hi) if TIER == 'thorough' else [
        n for n in range(lo, hi) if n % 32 in (0, 31) or n < 8 or any(
            abs(n - len(x[f])) < 3 for x in (BASE, new) for f in FILES)]
    for n in sizes:
        for kill in (True, False):
            with scratch(BASE) as d:
                pid = os.fork()
                if not pid:
                    try:
                        put_mk(d, cfg)      # before the limit
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill
                                      else signal.SIG_IGN)
                        fd = os.open('/dev/null', os.O_WRONLY)
                        os.dup2(fd, 2)
                        g = globals()
                        g['put_mk'] = lambda d, cfg: None
                        run(d, cfg, lambda: resource.setrlimit(
                            resource.RLIMIT_FSIZE, (n, n)))
                    except BaseException:
                        os._exit(3)
                    os._exit(0)
                st = os.waitpid(pid, 0)[1]
                step()
                what = (f"{'killed' if kill else 'write error'} at file "
                        f"size {n}")
                got = disk(d)
                whole(got, BASE, new, what)
                if st == 0 and {k: got[k] for k in FILES} != new:
                    raise Fail(f"{what}: no error, but the edit is missing")
                outcome('complete' if st == 0 else 'died' if os.WIFSIGNALED(
                    st) else 'error')
                if st:
                    recover(d, cfg, new, what)


def variants():
    """Initial file sets."""
    py, init = (BASE[n].decode() for n in FILES)
    ver = re.search(r'(?m)^version = "(.*)"$', py).group(1)

    def v(p=py, i=init):
        return {PY: p.encode(), INIT: i.encode()}

    out = {'as is': v()}
    line = re.search(r'(?m)^__version__.*$', init).group(0)
    for k, new in {
            'single quotes': "__version__ = '0.0.1'",
            'no spaces': '__version__="0.0.1"',
            'comment': '__version__ = "0.0.1"  # "the" version',
            'empty': '__version__ = ""',
            'mentioned': '# __version__ = "9.9"\n' + line
            + '\nX = {\n    "__version__": "7",\n    }\n__version_info__ = "5"',
    }.items():
        out[k] = v(i=init.replace(line, new))
    out['no final newline'] = v(i=init.rstrip('\n'))
    st = re.search(r'(?m)^.*Development Status :: .*$', py).group(0)
    for k, (a, b) in {
            'single quotes toml': (f'version = "{ver}"',
                                   f"version = '{ver}'"),
            'other version': (f'version = "{ver}"',
                              f'version = "0.9.9"  # not "{ver}"'),
            'alpha': (st, re.sub('::.*?"', ':: 3 - Alpha"', st)),
            'no status': (st + '\n', ''),
    }.items():
        assert a in py, a
        out[k] = v(p=py.replace(a, b, 1))
    out['other tables'] = v(p=py + '\n[tool.other]\nversion = "3.3.3"\n'
                            'classifiers = ["Development Status :: 1 - X"]\n')
    return out


VARIANTS = variants()
STATUS = ('1 - Planning', '4 - Beta', '5 - Production/Stable')
CFGS = [(1, 3, 0, STATUS[2], ''), (1, 3, 0, STATUS[1], 'rc1'),
        (1, 3, 1, STATUS[2], ''), (10, 0, 99, STATUS[0], '.dev12'),
        (0, 0, 0, STATUS[1], ''), (13, 30, 10, STATUS[2], 'a1')]


def build(tier):
    global TIER
    TIER = tier
    deep = tier == 'thorough'
    nums = [(0, 1, 2, 10, 100), (0, 3, 12), (0, 1, 99)]
    tags = ('', 'rc1', 'b2', '.dev3', '.post10')
    cases = [('as is', c) for c in itertools.product(*nums, STATUS, tags)]
    cases += [(v, c) for v in VARIANTS if v != 'as is' for c in CFGS]
    if not deep:
        cases = [c for i, c in enumerate(cases)
                 if c[0] != 'as is' or i % 3 == 0]
    seqs = [s for n in range(1, 5 if deep else 4)
            for s in itertools.product(range(len(CFGS)), repeat=n)]
    top = max(len(b) for b in BASE.values()) + 200
    tcfg = [CFGS[3]] if not deep else [CFGS[3], CFGS[5], CFGS[0]]
    return [
        Space('edits', edit, cases, chunk=4,
              bound='product of version numbers, statuses, and tags; 11 '
              'kinds of initial files'),
        Space('sequences', sequence, seqs, chunk=4,
              bound='all sequences of up to '
              f"{4 if deep else 3} of {len(CFGS)} edits"),
        Space('crash at lines', lines_crash, [(c,) for c in CFGS], chunk=1,
              bound='every executed line outside the TOML parser'),
        Space('torn writes', torn,
              [(n, n + 64, c) for c in tcfg for n in range(0, top, 64)],
              chunk=1,
              bound='every file size (quick: two of 32 and the boundaries); '
              'killed or write error'),
    ]


if __name__ == '__main__':
    main('C27', build, [
        'A crash is the death of the process; data handed to the operating '
        'system survives it.',
        'include.mk and pyproject.toml are well formed.',
    ], bounds='see the bound of each space')
