"""One simulated run: virtual clock, entropy, disk, processes, storage, fault
plan, event log and (for multi-threaded runs) the scheduler."""
from __future__ import annotations
import errno
import hashlib
import io
import json
import os
import random
import sys
import _thread
from .seams import CUR, LIB_ROOT, _real_allocate

_RANDOM = random.Random   # the harness's own generator class (not simulated)


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, detail):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail


class SimCrash(BaseException):
    """The simulated process dies here: nothing after this point runs."""


class InjectedFault(Exception):
    """An error raised by the simulated environment (storage, callback...)."""

    def __init__(self, point, n, kind):
        super().__init__(f'injected {kind} at {point}#{n}')
        self.point = point
        self.n = n
        self.kind = kind


class StepLimit(BaseException):
    """A run did not finish within its step budget."""


class HarnessError(Exception):
    """The harness itself is wrong; never reported as a violation."""


class Rng(_RANDOM):
    """Harness generator: a private Mersenne Twister, unaffected by seams."""

    def maybe(self, p):
        return self.random() < p

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class Clock:
    """Virtual wall clock in microseconds; every reading advances it by
    `tick` (which may be zero: a coarse clock)."""

    def __init__(self, start_us=1_600_000_000_000_000, tick=1,
                 local_offset=0):
        self.us = start_us
        self.tick = tick
        self.local_offset = local_offset
        self.readings = []
        self.start = start_us
        self.travel = 0

    def read(self):
        v = self.us
        self.readings.append(v)
        self.us += self.tick
        self.travel += self.tick
        return v

    def advance(self, us):
        self.us += us
        self.travel += abs(us)


class Entropy:
    """Randomness with a script.  Modes: 'prng' (seeded), 'low' (all zero),
    'high' (all ones), 'repeat' (few distinct values)."""

    def __init__(self, seed=0, mode='prng', near=None):
        self.r = _RANDOM(seed)
        self.mode = mode
        self.near = near    # system entropy differs only at this byte
        self.n = 0
        self.os_n = 0
        self.os_fault = None
        self._stuck = 0

    def unit(self):
        self.n += 1
        if self.mode == 'low':
            # a constant source would make rejection sampling diverge
            return 0.0
        if self.mode == 'high':
            return 1.0 - 2.0 ** -53
        if self.mode == 'repeat':
            return (self.n % 3) / 3.0
        return self.r.random()

    def bits(self, k):
        self.n += 1
        # Rejection sampling (`_randbelow`) loops until bits < n: extreme
        # modes answer with their extreme once, then fall back.
        if self.mode in ('low', 'high', 'repeat'):
            self._stuck += 1
            if self._stuck % 3:
                if self.mode == 'low':
                    return 0
                if self.mode == 'high':
                    return (1 << k) - 1
                return (self.n >> 1) & ((1 << k) - 1)
        return self.r.getrandbits(k)

    def os_bytes(self, n):
        self.os_n += 1
        if self.near is not None and n > self.near + 2:
            out = bytearray(hashlib.sha512(b'near').digest()[:n].ljust(n))
            out[self.near:self.near + 2] = self.os_n.to_bytes(2, 'big')
            return bytes(out)
        # operating system entropy never repeats in practice: a counter is
        # mixed in so uniqueness is guaranteed and still deterministic
        h = hashlib.sha256(f'{self.r.getrandbits(64)}:{self.os_n}'.encode())
        out = h.digest()
        while len(out) < n:
            out += hashlib.sha256(out).digest()
        return out[:n]


class Sim:
    """Context of one simulated run."""

    def __init__(self, plan):
        self.plan = plan
        self.clock = None
        self.entropy = None
        self.disk = None
        self.procs = None
        self.sched = None
        self.tracer = None
        self.inject = None
        self.events = []
        self.counters = {}
        self.states = set()
        self.fault_counts = {}
        self.seam_calls = {}
        self._faults = {}
        for f in plan.get('faults', ()):
            self._faults.setdefault(f['point'], {})[f['n']] = f

    # -- event log

    def ev(self, *what):
        self.events.append(what)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *what):
        self.states.add(hash_of(what))

    def digest(self):
        return hashlib.sha256(
            json.dumps(self.events, default=repr).encode()).hexdigest()

    # -- faults

    def hit(self, point):
        """A seam is crossed.  Returns the fault planned for this crossing of
        this seam, if any."""
        n = self.seam_calls.get(point, 0)
        self.seam_calls[point] = n + 1
        f = self._faults.get(point)
        if f is None:
            return None
        f = f.get(n)
        if f is None:
            return None
        self.fault(point, f['kind'])
        self.ev('fault', point, n, f['kind'])
        return f

    def fault(self, point, kind):
        key = f'{point}:{kind}'
        self.fault_counts[key] = self.fault_counts.get(key, 0) + 1

    def maybe_raise(self, point):
        """Cross a seam whose only faults are exceptions/crashes."""
        f = self.hit(point)
        if f is None:
            return
        raise_fault(f, point)

    def __enter__(self):
        CUR.sim = self
        return self

    def __exit__(self, *a):
        CUR.sim = None
        return False


def raise_fault(f, point):
    if f['kind'] == 'crash':
        raise SimCrash()
    if f['kind'] == 'memory':
        raise MemoryError('injected')
    if f['kind'] == 'interrupt':
        raise KeyboardInterrupt('injected')
    raise InjectedFault(point, f['n'], f['kind'])


def hash_of(x):
    return hashlib.blake2b(json.dumps(x, default=repr, sort_keys=True).encode(),
                           digest_size=8).hexdigest()


# ------------------------------------------------------------------- tracer

class LineTracer:
    """Single-thread tracer: counts executed library lines and kills or
    interrupts the run at a planned line."""

    def __init__(self, sim, at, kind, limit=2_000_000):
        self.sim = sim
        self.at = at
        self.kind = kind
        self.n = 0
        self.limit = limit
        self.fired = False

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB_ROOT):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.at and not self.fired:
                self.fired = True
                self.sim.fault('line', self.kind)
                self.sim.ev('fault', 'line', self.n, self.kind)
                if self.kind == 'crash':
                    raise SimCrash()
                if self.kind == 'interrupt':
                    raise KeyboardInterrupt('injected')
                raise MemoryError('injected')
            if self.n > self.limit:
                raise StepLimit()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ---------------------------------------------------------------- scheduler

class Deadlock(BaseException):
    pass


class Scheduler:
    """Runs N real threads one at a time.  Which thread runs, and where it is
    preempted, is decided by the plan: `switches` is a list of
    [mode, gap, target]; a switch happens after `gap` further events of class
    `mode` ('line': any library line/opcode, 'rare': a library line that has
    been executed at most twice so far in this run, 'f:NAME': a line of the
    library file NAME, 'r:NAME': a rare one of it, 'seam': harness yield points and lock operations)."""

    def __init__(self, sim, n, switches, order, opcodes=False,
                 limit=3_000_000, kills=None, traced=True):
        self.sim = sim
        self.traced = traced
        # {thread: library function entry at which KeyboardInterrupt is raised in it}
        self.kills = dict(kills or {})
        self.lines = [0] * n
        self.n = n
        self.switches = list(switches)
        self.order = list(order)
        self.opcodes = opcodes
        self.limit = limit
        self.active = False
        self.current = None
        self.batons = [_real_allocate() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.main_baton = _real_allocate()
        self.main_baton.acquire()
        self.status = ['ready'] * n
        self.waiting = {}
        self.steps = 0
        self.done_switches = 0
        self.pos = 0
        self.gap = None
        self.seen = {}
        self.results = [None] * n
        self.errors = [None] * n
        self.trace_points = []
        self.stopped = None
        self.idents = {}
        self._load_switch()

    # -- switching

    def _load_switch(self):
        if self.pos < len(self.switches):
            self.mode, self.gap, self.target = self.switches[self.pos]
        else:
            self.mode, self.gap, self.target = None, None, None

    def _runnable(self):
        return [i for i in range(self.n) if self.status[i] == 'ready']

    def _pick(self, target, exclude=None):
        cand = [i for i in self._runnable() if i != exclude]
        if not cand:
            return None
        return cand[target % len(cand)]

    def _switch_to(self, me, other):
        self.current = other
        self.done_switches += 1
        self.batons[other].release()
        self.batons[me].acquire()
        if self.stopped is not None:
            raise self.stopped

    def _event(self, cls):
        """An event of class `cls` happened in the current thread."""
        if self.mode is None:
            return
        if self.mode == 'line' or self.mode == cls:
            self.gap -= 1
            if self.gap <= 0:
                self._preempt()

    def _preempt(self):
        target = self.target
        self.pos += 1
        self._load_switch()
        me = self.current
        other = self._pick(target, exclude=me)
        if other is not None:
            self.trace_points.append((self.steps, me, other))
            self._switch_to(me, other)

    def preempt_to(self, other):
        """Run thread `other` now, if it can run."""
        me = self.current
        if other != me and self.status[other] == 'ready':
            self.trace_points.append((self.steps, me, other))
            self._switch_to(me, other)

    def yield_point(self, why):
        if self.active and _thread.get_ident() in self.idents:
            self._event('seam')

    def block(self, lock):
        """Current thread cannot take `lock`: run somebody else."""
        me = self.current
        self.status[me] = 'blocked'
        self.waiting[me] = lock
        other = self._pick(0)
        if other is None:
            self.stopped = Deadlock(
                'threads %s wait for locks nobody will release' %
                sorted(self.waiting))
            for i in range(self.n):
                if i != me and self.status[i] != 'done':
                    self.status[i] = 'ready'
            raise self.stopped
        self._switch_to(me, other)

    def unblock(self, lock):
        for i, l in list(self.waiting.items()):
            if l is lock:
                del self.waiting[i]
                self.status[i] = 'ready'
        self.yield_point('unlock')

    # -- tracing

    def _global(self, frame, event, arg):
        if self.mode is None and not self.kills:
            return None     # no preemption left: run at full speed
        if frame.f_code.co_filename.startswith(LIB_ROOT):
            if self.kills and self.current in self.kills:
                # interrupts are delivered where CPython delivers them: on
                # function entry (never between a with body and its exit)
                me = self.current
                self.lines[me] += 1
                if self.lines[me] >= self.kills[me]:
                    del self.kills[me]
                    self.sim.fault('call', 'interrupt')
                    self.sim.ev('fault', 'call', me, self.lines[me])
                    raise KeyboardInterrupt('injected')
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if self.mode is None and not self.kills:
            return None
        if event == 'line' or event == 'opcode':
            self.steps += 1
            if self.steps > self.limit:
                self.stopped = StepLimit()
                raise self.stopped
            if self.mode == 'line':
                self.gap -= 1
                if self.gap <= 0:
                    self._preempt()
            elif self.mode is not None and self.mode[:2] == 'f:':
                if frame.f_code.co_filename.endswith(self.mode[1:]
                                                     .replace(':', '/')):
                    self.gap -= 1
                    if self.gap <= 0:
                        self._preempt()
            elif self.mode is not None:
                if event == 'opcode':
                    key = (id(frame.f_code), frame.f_lasti)
                else:
                    key = (id(frame.f_code), frame.f_lineno)
                c = self.seen.get(key, 0)
                self.seen[key] = c + 1
                if self.mode[:2] == 'r:':
                    if c < 2 and frame.f_code.co_filename.endswith(
                            '/' + self.mode[2:]):
                        self.gap -= 1
                        if self.gap <= 0:
                            self._preempt()
                else:
                    self._event('rare' if c < 2 else 'line')
        return self._local

    def resume_tracing(self):
        """An exception raised by a trace function ends tracing."""
        if self.traced and self.active and \
                _thread.get_ident() in self.idents:
            sys.settrace(self._global)

    # -- threads

    def _body(self, i, fn):
        self.batons[i].acquire()
        self.idents[_thread.get_ident()] = i
        try:
            if self.stopped is None:
                if self.traced:
                    sys.settrace(self._global)
                try:
                    self.results[i] = fn()
                finally:
                    if self.traced:
                        sys.settrace(None)
        except BaseException as e:  # noqa: BLE001 - reported by the run
            self.errors[i] = e
        self.status[i] = 'done'
        if sum(x != 'done' for x in self.status) <= 1:
            self.mode = None        # nobody left to switch to
        nxt = None
        if self.stopped is None:
            while self.order and nxt is None:
                nxt = self._pick(self.order.pop(0))
            if nxt is None:
                nxt = self._pick(0)
            if nxt is None and self.waiting:
                self.stopped = Deadlock('a finished thread kept a lock')
                for k in list(self.waiting):
                    self.status[k] = 'ready'
        if self.stopped is not None:
            rest = [k for k in range(self.n) if self.status[k] != 'done']
            nxt = rest[0] if rest else None
        if nxt is None:
            self.active = False
            self.main_baton.release()
        else:
            self.current = nxt
            self.batons[nxt].release()

    def run(self, fns):
        assert len(fns) == self.n
        self.sim.sched = self
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn))
        self.active = True
        self.current = (self.order.pop(0) if self.order else 0) % self.n
        self.batons[self.current].release()
        self.main_baton.acquire()
        self.active = False
        self.sim.sched = None
        self.sim.ev('schedule', self.trace_points)
        self.sim.count('switches', self.done_switches)
        self.sim.count('sched_steps', self.steps)
        if self.stopped is not None and isinstance(self.stopped, Deadlock):
            raise Violation('deadlock', str(self.stopped))
        if self.stopped is not None and isinstance(self.stopped, StepLimit):
            raise Violation('no-progress',
                            f'run exceeded {self.limit} library steps')
        return self.results, self.errors


class Sites:
    """Which library lines a piece of work executes, and preemption at one of
    them.  A site is (code object, line, occurrence)."""
    TOOL = 4

    def __init__(self):
        self.mon = sys.monitoring
        self.mon.use_tool_id(self.TOOL, 'dst')
        self.mon.register_callback(self.TOOL, self.mon.events.LINE,
                                   self._line)
        self.sink = None
        self.targets = ()

    def _line(self, code, line):
        if self.sink is not None:
            if not code.co_filename.startswith(LIB_ROOT):
                return self.mon.DISABLE
            k = (code, line)
            self.sink[k] = self.sink.get(k, 0) + 1
            return None
        for t in self.targets:
            if t[0] is code and t[1] == line:
                sched = self.sched
                if sched.active and sched.idents.get(
                        _thread.get_ident()) == t[3]:
                    t[2] -= 1
                    if t[2] == 0:
                        sched.preempt_to(1 - t[3])
        return None

    def collect(self, fn):
        """[(code, line), times] in order of first execution."""
        self.sink = {}
        self.mon.set_events(self.TOOL, self.mon.events.LINE)
        try:
            fn()
        finally:
            self.mon.set_events(self.TOOL, 0)
            out, self.sink = list(self.sink.items()), None
        return out

    def run_here(self, sched, targets, fns):
        """Like run(), with (file name, line, occurrence, thread) targets and
        for a process that ends afterwards: every line is watched."""
        left = [list(t) for t in targets]
        lines = {(t[0], t[1]) for t in targets}

        def line(code, no):
            if (code.co_filename, no) not in lines:
                return self.mon.DISABLE
            for t in left:
                if t[0] == code.co_filename and t[1] == no and \
                        sched.active and sched.idents.get(
                            _thread.get_ident()) == t[3]:
                    t[2] -= 1
                    if t[2] == 0:
                        sched.preempt_to(1 - t[3])
            return None
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, line)
        self.mon.set_events(self.TOOL, self.mon.events.LINE)
        return sched.run(fns)

    def run(self, sched, targets, fns):
        """Run with thread t[3] preempted at occurrence t[2] of line t[1] of
        code t[0], for every t in targets."""
        self.sched = sched
        self.targets = [list(t) for t in targets]
        codes = {t[0] for t in targets}
        for c in codes:
            self.mon.set_local_events(self.TOOL, c, self.mon.events.LINE)
        try:
            return sched.run(fns)
        finally:
            for c in codes:
                self.mon.set_local_events(self.TOOL, c, 0)
            self.targets = ()
            self.sched = None


def gen_switches(rng, n_threads, max_switches=8, files=(), span=40,
                 how='f:', share=.5):
    """Sample a preemption plan (PCT style: few preemptions, anywhere; with
    `files`, some of the plans preempt inside these)."""
    k = rng.choice([1, 1, 2, 2, 3, 4, 6, max_switches])
    out = []
    if files and rng.maybe(share):
        return [[how + rng.choice(list(files)),
                 1 + rng.randrange(rng.choice([6, 15, span] if span <= 40
                                              else [15, 40, span])),
                 rng.randrange(4)] for _ in range(k)]
    for _ in range(k):
        mode = rng.weighted([('rare', 6), ('line', 2), ('seam', 1)])
        if mode == 'rare':
            gap = 1 + int(2 ** (rng.random() * 9.5))
        elif mode == 'line':
            gap = 1 + int(2 ** (rng.random() * 12))
        else:
            gap = 1 + rng.randrange(4)
        out.append([mode, gap, rng.randrange(4)])
    return out
