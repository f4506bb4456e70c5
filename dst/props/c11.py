"""C11: installing required packages and recording them in requirements.txt
under failing installs, disk faults, crashes and concurrent use."""
from __future__ import annotations
import importlib.abc
import importlib.machinery
import os
import re
import sys
from subprocess import CalledProcessError
from ..disk import Disk, DiskError, gen_fault
from ..sim import (Violation, Clock, Scheduler, SimCrash, HarnessError,
                   gen_switches)

ID = 'C11'
QUICK = 24000
THOROUGH = 500000
BATCH = 8
AXES = ('faults', 'calls.0', 'calls.1', 'calls.2', 'switches', 'lines')
STATE_RULE = ('distinct hashes of (packages asked for and their state, shape '
              'of requirements.txt, outcome, faults fired, threads)')
REAL = ['check_package, install_package, check_and_install_packages']
STUB = ['process creation (pip)', 'module finder', 'disk (scratch directory '
        'with injected errors)', 'thread scheduler', 'other processes '
        'editing requirements.txt']
ASSUMPTIONS = ['a package installed by pip can be imported afterwards']

PKGS = {'dstmod_a': ('dstpkg', '>=1.0,<2.0'),
        'dstmod_b': ('dstpkg-extra', '==3'),
        'dstmod_c': ('Other.Pkg', ''),
        'dstmod_d': ('dst_pkg', '~=2.1')}
LINES = ['dstpkg', 'dstpkg-extra==3', 'dstpkg-stubs>=1', 'other_pkg', 'OTHER-PKG>1',
         'mydstpkg', '# dstpkg', '', '-r dstpkg.txt', 'requests', 'dst.pkg[x]>1',
         '  dstpkg >= 1', 'dstpkg # pinned', 'a==1 # for dstpkg',
         'Dst-Pkg', 'dstpkgs']


def prepare():
    import subprocess
    import jsonclasses.pkgutils
    assert subprocess and jsonclasses.pkgutils
    sys.meta_path.insert(0, FINDER)


def canon(line):
    m = re.match(r'\s*([A-Za-z0-9][A-Za-z0-9._-]*)', line)
    return re.sub(r'[-_.]+', '-', m[1]).lower() if m else None


def gen(rng):
    n = rng.choice([1, 1, 1, 2, 2, 3])

    def call():
        k = rng.choice([0, 1, 1, 2, 3])
        mods = rng.sample(sorted(PKGS), k)
        return mods if k or rng.maybe(.5) else None
    calls = [[call() for _ in range(rng.choice([1, 1, 2, 4]))]
             for _ in range(n)]
    lines = [rng.randrange(len(LINES)) for _ in range(rng.choice([0, 1, 2, 5]))]
    faults = []
    if rng.maybe(.5):
        for _ in range(rng.choice([1, 1, 2])):
            if rng.maybe(.5):
                faults.append({'point': 'pip', 'n': rng.randrange(3),
                               'kind': rng.choice(['exit', 'exit', 'signal',
                                                   'oserror', 'crash',
                                                   'interrupt'])})
            elif rng.maybe(.3):
                faults.append({'point': 'import', 'n': rng.randrange(3),
                               'kind': rng.choice(['error', 'interrupt'])})
            else:
                faults.append(gen_fault(rng, [
                    'disk.open.read', 'disk.read', 'disk.open.write',
                    'disk.write', 'disk.write', 'disk.close'], 3))
    return {'n': n, 'calls': calls, 'lines': lines, 'faults': faults,
            'file': rng.choice(['none', 'nl', 'nl', 'nonl', 'nonl', 'crlf']),
            'have': [m for m in sorted(PKGS) if rng.maybe(.2)],
            'edits': [rng.randrange(20) if rng.maybe(.3) else 99
                      for _ in range(4)],
            'order': [rng.randrange(n) for _ in range(n)],
            'switches': gen_switches(rng, n, files=['pkgutils.py']) if n > 1 else []}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    world = None

    def find_spec(self, name, path=None, target=None):
        if not name.startswith('dstmod_') or self.world is None:
            return None
        if name in self.world.have or self.world.sim._faults.get('import'):
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        w = self.world
        f = w.sim.hit('import')
        if f is not None and f['kind'] == 'interrupt':
            w.interrupted = len(w.installs)
            raise KeyboardInterrupt('injected')
        if f is not None:
            raise RuntimeError('injected: broken module')
        if module.__name__ not in w.have:
            raise ModuleNotFoundError(module.__name__)


FINDER = Finder()


class Procs:

    def __init__(self, w):
        self.w = w

    def spawn(self, args):
        w = self.w
        if w.sim.sched is not None:
            w.sim.sched.yield_point('pip')
        args = list(args)
        if args[0] != sys.executable or args[1:4] != ['-m', 'pip', 'install'] \
                or len(args) != 5:
            raise Violation('wrong-command', f'{args}')
        w.installs.append(args[4])
        e = w.plan['edits'][(len(w.installs) - 1) % 4]
        if e != 99:
            # meanwhile another process adds a line of its own
            w.foreign(f'foreign{e}')
        f = w.sim.hit('pip')
        if f is not None:
            if f['kind'] == 'crash':
                raise SimCrash()
            if f['kind'] == 'interrupt':
                raise KeyboardInterrupt('injected')
            if f['kind'] == 'oserror':
                raise DiskError(11, 'injected: no process')
            return -9 if f['kind'] == 'signal' else 1
        for m, info in PKGS.items():
            if ''.join(info) == args[4]:
                w.have.add(m)
                w.installed.append(m)
                if w.sim.sched is not None:
                    w.sim.sched.yield_point('pip')
                return 0
        raise Violation('wrong-command', f'{args}')


def read_file():
    from .. import seams
    try:
        with seams._real_open('requirements.txt', 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


class World:

    def __init__(self, plan, sim):
        self.plan = plan
        self.sim = sim
        self.have = set(plan['have'])
        self.installs = []
        self.installed = []
        self.foreigns = []
        self.interrupted = None

    def foreign(self, line):
        from .. import seams
        old = read_file()
        with seams._real_open('requirements.txt', 'ab') as f:
            if old and not old.endswith(b'\n'):
                f.write(b'\n')
            f.write(line.encode() + b'\n')
        self.foreigns.append(line)
        self.sim.fault('other-process', 'edit')


def run(plan, sim):
    from .. import seams
    from jsonclasses.pkgutils import check_and_install_packages
    sim.clock = Clock(tick=0)
    for m in PKGS:
        sys.modules.pop(m, None)
    w = World(plan, sim)
    FINDER.world = w
    sim.procs = Procs(w)
    with Disk(sim, 'utf-8'):
        if plan['file'] != 'none':
            nl = '\r\n' if plan['file'] == 'crlf' else '\n'
            text = nl.join(LINES[i] for i in plan['lines'])
            if plan['file'] != 'nonl' and text:
                text += nl
            with seams._real_open('requirements.txt', 'wb') as f:
                f.write(text.encode())
        start = read_file()
        alone = plan['n'] == 1
        ended = []

        def worker(t):
            def go():
                for mods in plan['calls'][t]:
                    one(w, mods, check_and_install_packages, alone, ended)
            return go
        try:
            if alone:
                worker(0)()
            else:
                _, errors = Scheduler(
                    sim, plan['n'], plan['switches'], plan['order']).run(
                    [worker(t) for t in range(plan['n'])])
                for e in errors:
                    if e is not None and not isinstance(e, SimCrash):
                        raise e
        except SimCrash:
            pass
        keep(w, start, read_file(), 'at the end')
        if not any(f['point'] == 'import' for f in plan['faults']) and \
                len(set(w.installed)) != len(w.installed):
            raise Violation('installed-twice', f'{w.installed}')
        once(w, start, read_file(), ended)
        # the faults are over: everything asked for can be installed
        sim._faults.clear()
        w.interrupted = None
        left = sorted(set(PKGS) - w.have)
        one(w, sorted(PKGS), check_and_install_packages, True, ended)
        if set(PKGS) - w.have:
            raise Violation('not-installed', f'{set(PKGS) - w.have}')
        now = names(read_file())
        for m in left:
            if canon(PKGS[m][0]) not in now:
                raise Violation('not-recorded', f'{m}')
        sim.count('installs', len(w.installs))
    FINDER.world = None


def names(data):
    return [canon(x) for x in (data or b'').decode().splitlines()]


def keep(w, old, new, when):
    """Whatever happens, no line that was there is lost or altered."""
    old, new = old or b'', new or b''
    if not new.startswith(old) or not (
            not old or old.endswith(b'\n') or new[len(old):][:1] in
            (b'', b'\n', b'\r')):
        raise Violation('lines-damaged', f'{when}: {old!r} became {new!r}')
    lines = new.decode().splitlines()
    for f in w.foreigns:
        if f not in lines:
            raise Violation('lines-damaged', f'{when}: the line {f!r} of '
                            f'another process is lost: {new!r}')


def once(w, start, data, ended):
    """Every package recorded at most once by us."""
    old = names(start)
    lines = (data or b'').decode().splitlines()
    for m, info in PKGS.items():
        c = canon(info[0])
        mine = [x for x in lines if x == ''.join(info)]
        if c not in old and len(mine) > 1:
            raise Violation('recorded-twice', f'{mine}')
        if c in old and names(data).count(c) != old.count(c):
            raise Violation('recorded-twice', f'{info[0]} was there: {lines}')


def one(w, mods, install, alone, ended):
    arg = None if mods is None else {m: PKGS[m] for m in mods}
    before = read_file()
    missing = [m for m in mods or () if m not in w.have]
    n0 = len(w.installs)
    fired = sum(v for k, v in w.sim.fault_counts.items()
                if not k.startswith('other'))
    err = None
    try:
        install(arg)
    except SimCrash:
        if alone:
            keep(w, before, read_file(), 'after a crash')
        raise
    except (DiskError, CalledProcessError, KeyboardInterrupt) as e:
        err = e
    except (Violation, HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation('unexpected-exception', f'{mods}: {e!r}')
    after = read_file()
    keep(w, before, after, f'after {mods}')
    ended.append(err is None)
    if not alone:
        return
    injected = sum(v for k, v in w.sim.fault_counts.items()
                   if not k.startswith('other')) - fired
    if err is not None and not injected:
        raise Violation('install-failed', f'{err!r} without any fault')
    tried = w.installs[n0:]
    imports = [f for f in w.plan['faults'] if f['point'] == 'import']
    if not imports:
        want = [''.join(PKGS[m]) for m in missing]
        if tried != want[:len(tried)] or (err is None and tried != want):
            raise Violation('wrong-installs', f'{tried}, missing {want}')
    if w.interrupted is not None:
        if not isinstance(err, KeyboardInterrupt) or \
                len(w.installs) != w.interrupted:
            raise Violation('interrupt-swallowed', f'interrupted while '
                            f'importing: {err!r}, {w.installs}')
        w.interrupted = None
    if err is None:
        if injected and not w.sim.fault_counts.get('import:error'):
            raise Violation('error-swallowed', f'{mods}: {w.sim.fault_counts}')
        now = names(after)
        for m in missing:
            if canon(PKGS[m][0]) not in now:
                raise Violation('not-recorded', f'{PKGS[m]} was installed '
                                f'but {after!r}')
            if canon(PKGS[m][0]) not in names(before) and \
                    ''.join(PKGS[m]) not in after.decode().splitlines():
                raise Violation('not-recorded', f'{PKGS[m]}: {after!r}')
        if not tried and after != before:
            raise Violation('lines-damaged', 'nothing was installed, but '
                            f'{before!r} became {after!r}')
    elif isinstance(err, CalledProcessError):
        # what was not installed is not recorded
        m = [k for k, i in PKGS.items() if ''.join(i) == tried[-1]][0]
        if (after or b'').decode().splitlines().count(tried[-1]) > \
                (before or b'').decode().splitlines().count(tried[-1]):
            raise Violation('recorded-not-installed', f'{m}: {after!r}')
    w.sim.ev(mods, None if err is None else type(err).__name__, tried,
             repr(after))
    w.sim.state(sorted(missing), w.plan['file'], type(err).__name__,
                len(tried), sorted(w.sim.fault_counts))
