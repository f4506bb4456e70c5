"""A scratch directory standing in for the disk, with faults at every
crossing: opening, reading, writing, closing and making directories.

Fault points: disk.open.read, disk.open.write, disk.read, disk.write,
disk.close, disk.mkdir.  Kinds: 'error' (errno from the plan), 'short' (part
of the data gets through, then the error), 'interrupt' (the same, with an
interrupt), 'crash' (the process is gone after part of the data).  Data reaches the disk when it is written: what a crash
leaves behind is what was written until then.
"""
from __future__ import annotations
import errno
import os
import shutil
import tempfile
from .sim import SimCrash

ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES,
          'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT, 'EROFS':
          errno.EROFS}


class DiskError(OSError):
    """An injected disk error."""


def _err(f):
    if f['kind'] == 'crash':
        return SimCrash()
    if f['kind'] == 'interrupt':
        return KeyboardInterrupt('injected')
    name = f.get('errno', 'EIO')
    return DiskError(ERRNOS[name], f'injected {name}')


class Disk:

    def __init__(self, sim, encoding=None):
        self.sim = sim
        self.encoding = encoding
        self.root = None

    def __enter__(self):
        self.back = os.getcwd()
        self.root = os.path.realpath(tempfile.mkdtemp(
            prefix='run-', dir=os.environ.get('DST_SCRATCH') or None))
        os.chdir(self.root)
        if self.sim is not None:
            self.sim.disk = self
        return self

    def __exit__(self, *a):
        if self.sim is not None:
            self.sim.disk = None
        os.chdir(self.back)
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    def _mine(self, path):
        try:
            p = os.path.realpath(os.path.abspath(os.fspath(path)))
        except (TypeError, ValueError):
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    def _cross(self, point):
        if self.sim.sched is not None:
            self.sim.sched.yield_point(point)
        return self.sim.hit(point)

    def open(self, real, file, mode, args, kwargs):
        if not self._mine(file):
            return real(file, mode, *args, **kwargs)
        write = any(c in mode for c in 'wax+')
        f = self._cross('disk.open.write' if write else 'disk.open.read')
        if f is not None:
            raise _err(f)
        if 'b' not in mode and self.encoding is not None:
            # what the host's locale would choose
            if len(args) < 2 and kwargs.get('encoding') is None:
                kwargs = dict(kwargs, encoding=self.encoding)
        return SimFile(self, real(file, mode, *args, **kwargs))

    def mkdir_hook(self, path):
        if not self._mine(path):
            return
        f = self._cross('disk.mkdir')
        if f is not None:
            raise _err(f)


class SimFile:

    def __init__(self, disk, real):
        self._disk = disk
        self._real = real

    def _reading(self, got):
        f = self._disk._cross('disk.read')
        if f is not None:
            raise _err(f)
        return got

    def read(self, *a):
        return self._reading(self._real.read(*a))

    def readline(self, *a):
        return self._reading(self._real.readline(*a))

    def readlines(self, *a):
        return self._reading(self._real.readlines(*a))

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def write(self, data):
        f = self._disk._cross('disk.write')
        if f is None:
            n = self._real.write(data)
            self._real.flush()
            return n
        if f['kind'] in ('short', 'crash', 'interrupt'):
            part = data[:int(len(data) * f.get('part', .5))]
            self._real.write(part)
            self._real.flush()
        raise _err(f)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if self._real.closed:
            return
        self._real.close()
        f = self._disk._cross('disk.close')
        if f is not None:
            raise _err(f)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is SimCrash:
            self._real.close()
            return False
        self.close()
        return False

    def __getattr__(self, name):
        return getattr(self._real, name)


def gen_fault(rng, points, far=4, interrupts=False):
    point = rng.choice(points)
    f = {'point': point, 'n': rng.randrange(far),
         'kind': 'error', 'errno': rng.choice(sorted(ERRNOS))}
    if point == 'disk.write':
        f['kind'] = rng.choice(['error', 'short', 'short', 'crash'] + (
            ['interrupt'] if interrupts else []))
        f['part'] = rng.choice([0, .3, .5, .9, 1])
    elif rng.maybe(.1):
        f['kind'] = 'crash'
    elif interrupts and rng.maybe(.15):
        f['kind'] = 'interrupt'
    return f
