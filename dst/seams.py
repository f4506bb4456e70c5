"""Seams: every source of nondeterminism the library can reach, replaced
before the library is imported.

Nothing here names library internals.  The seams are standard-library entry
points (clock, randomness, files, processes, locks); the library binds to them
at import time, so `install()` must run first.

While no simulated run is active (`CUR.sim is None`) all seams behave like the
originals.
"""
from __future__ import annotations
import builtins
import datetime as _dtmod
import errno
import io
import os
import random as _random
import subprocess as _subprocess
import sys
import threading as _threading
import time as _time
import _thread

_real_datetime = _dtmod.datetime
_real_open = builtins.open
_real_io_open = io.open
_real_urandom = os.urandom
_real_mkdir = os.mkdir
_real_time = _time.time
_real_allocate = _thread.allocate_lock
_real_Popen = _subprocess.Popen
perf = _time.perf_counter          # real time, for the harness only


class _Cur:
    sim = None


CUR = _Cur()


# ---------------------------------------------------------------- the clock

class _DTMeta(type):
    def __instancecheck__(cls, obj):
        if cls is SimDatetime:
            return isinstance(obj, _real_datetime)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SimDatetime:
            return issubclass(sub, _real_datetime)
        return type.__subclasscheck__(cls, sub)


class SimDatetime(_real_datetime, metaclass=_DTMeta):
    """datetime.datetime whose clock readings come from the simulation."""

    __slots__ = ()

    @classmethod
    def now(cls, tz=None):
        sim = CUR.sim
        if sim is None or sim.clock is None:
            return super().now(tz)
        return _from_us(cls, sim.clock.read(), tz, sim.clock.local_offset)

    @classmethod
    def utcnow(cls):
        sim = CUR.sim
        if sim is None or sim.clock is None:
            return super().utcnow()
        return _from_us(cls, sim.clock.read(), None, 0)

    @classmethod
    def today(cls):
        return cls.now()


SimDatetime.__name__ = 'datetime'
SimDatetime.__qualname__ = 'datetime'
SimDatetime.__module__ = 'datetime'


def _from_us(cls, us, tz, local_offset):
    """Build a reading: aware in `tz`, or naive local time."""
    base = cls(1970, 1, 1) + _dtmod.timedelta(microseconds=us)
    if tz is None:
        return base + _dtmod.timedelta(seconds=local_offset)
    return (base.replace(tzinfo=_dtmod.timezone.utc)).astimezone(tz)


def utc_from_us(us):
    return _from_us(SimDatetime, us, _dtmod.timezone.utc, 0)


def _sim_time():
    sim = CUR.sim
    if sim is None or sim.clock is None:
        return _real_time()
    return sim.clock.read() / 1e6


def _sim_time_ns():
    return int(_sim_time() * 1e9)


# --------------------------------------------------------------- randomness

class SimRandom(_random.Random):
    """The module level generator of `random`, fed by the simulation."""

    def random(self):
        sim = CUR.sim
        if sim is None or sim.entropy is None:
            return super().random()
        return sim.entropy.unit()

    def getrandbits(self, k):
        sim = CUR.sim
        if sim is None or sim.entropy is None:
            return super().getrandbits(k)
        return sim.entropy.bits(k)


def _sim_urandom(n):
    sim = CUR.sim
    if sim is None or sim.entropy is None:
        return _real_urandom(n)
    return sim.entropy.os_bytes(n)


# -------------------------------------------------------------------- files

def _sim_open(file, mode='r', *args, **kwargs):
    sim = CUR.sim
    if sim is None or sim.disk is None or isinstance(file, int):
        return _real_open(file, mode, *args, **kwargs)
    return sim.disk.open(_real_open, file, mode, args, kwargs)


def _sim_mkdir(path, *args, **kwargs):
    sim = CUR.sim
    if sim is not None and sim.disk is not None:
        sim.disk.mkdir_hook(path)
    return _real_mkdir(path, *args, **kwargs)


# ---------------------------------------------------------------- processes

class SimPopen:
    """No process is ever started inside a simulated run: the simulation
    decides the outcome of the command."""

    def __init__(self, args, *rest, **kwargs):
        sim = CUR.sim
        if sim is None or sim.procs is None:
            self._real = _real_Popen(args, *rest, **kwargs)
        else:
            self._real = None
            self.returncode = None
            self._code = sim.procs.spawn(args)
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.pid = 4242

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def wait(self, timeout=None):
        if self._real is not None:
            return self._real.wait(timeout)
        self.returncode = self._code
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if self._real is not None:
            return self._real.communicate(input, timeout)
        self.returncode = self._code
        return (None, None)

    def poll(self):
        if self._real is not None:
            return self._real.poll()
        self.returncode = self._code
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def __getattr__(self, name):
        real = self.__dict__.get('_real')
        if real is None:
            raise AttributeError(name)
        return getattr(real, name)


# -------------------------------------------------------------------- locks

class SimLock:
    """A lock that is a scheduling point while a schedule is active."""

    _reentrant = False

    def __init__(self):
        self._real = _real_allocate()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = CUR.sim
        sched = sim.sched if sim is not None else None
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if sched is None or not sched.active:
            got = self._real.acquire(False)
            if not got and blocking and timeout < 0 and sim is not None:
                from .sim import Violation
                raise Violation('deadlock', 'a lock is held by nobody who '
                                'still runs')
            if not got:
                got = self._real.acquire(blocking, timeout)
        else:
            sched.yield_point('lock')
            got = self._real.acquire(False)
            while not got:
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                sched.block(self)
                got = self._real.acquire(False)
        if got:
            self._owner = me
            self._count = 1
        return got

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._count = 0
        self._real.release()
        sim = CUR.sim
        if sim is not None and sim.sched is not None and sim.sched.active:
            sim.sched.unblock(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 1 if self._reentrant else self._count
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._real = _real_allocate()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True


def _lock_factory(cls, original):
    """Only the library's locks are simulated: the lock is created by code
    living under the tree being simulated; everybody else gets the original."""
    def make(*a, **k):
        frame = sys._getframe(1)
        for _ in range(4):
            if frame is None:
                break
            if frame.f_code.co_filename.startswith(LIB_ROOT):
                return cls()
            frame = frame.f_back
        return original(*a, **k)
    return make


# ------------------------------------------------------- password hashing

def _bcrypt_seam():
    """Hashing is slow on purpose and draws its own entropy: inside a run the
    simulation's stand-in answers."""
    try:
        import bcrypt
    except ImportError:
        return
    for name in ('gensalt', 'hashpw', 'checkpw'):
        def call(*a, _real=getattr(bcrypt, name), _name=name, **k):
            sim = CUR.sim
            if sim is None or getattr(sim, 'bcrypt', None) is None:
                return _real(*a, **k)
            return getattr(sim.bcrypt, _name)(*a, **k)
        setattr(bcrypt, name, call)


REPO = os.environ.get('DST_REPO', '/repo')
LIB_ROOT = os.path.join(REPO, 'jsonclasses') + os.sep


def install():
    _dtmod.datetime = SimDatetime
    _time.time = _sim_time
    _time.time_ns = _sim_time_ns
    inst = SimRandom(0)
    for name in dir(_random):
        attr = getattr(_random, name)
        if getattr(attr, '__self__', None).__class__ is _random.Random:
            setattr(_random, name, getattr(inst, name))
    _random._inst = inst
    os.urandom = _sim_urandom
    _random._urandom = _sim_urandom
    builtins.open = _sim_open
    io.open = _sim_open
    os.mkdir = _sim_mkdir
    _subprocess.Popen = SimPopen
    _bcrypt_seam()
    _threading.Lock = _lock_factory(SimLock, _threading.Lock)
    _threading.RLock = _lock_factory(SimRLock, _threading.RLock)
    _thread.allocate_lock = _lock_factory(SimLock, _thread.allocate_lock)
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)


def import_library():
    """Import the tree under test (all modules, so that no import happens
    inside a simulated run)."""
    import importlib
    import pkgutil
    import jsonclasses
    root = os.path.realpath(os.path.dirname(jsonclasses.__file__))
    if root + os.sep != os.path.realpath(LIB_ROOT) + os.sep:
        raise RuntimeError(f'wrong tree under test: {root}')
    for info in pkgutil.walk_packages(jsonclasses.__path__, 'jsonclasses.'):
        if info.name.endswith('.mypy'):
            continue
        try:
            importlib.import_module(info.name)
        except ImportError:
            pass
    return jsonclasses
