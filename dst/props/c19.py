"""C19: what application code raises, and an interrupt, reaches the caller and
leaves nothing behind."""
from __future__ import annotations
import json
from ..sim import Violation, Clock, Scheduler, InjectedFault
from .. import c01hot
from . import c01

ID = 'C19'
QUICK = 2400
THOROUGH = 100000
BATCH = 10
AXES = ('shots', 'prog', 'after', 'kills')
STATE_RULE = ('distinct hashes of (class, operation, callback that failed or '
              'library function entry that was interrupted, kind of failure)')
REAL = ['all library code between the caller and its callbacks',
        'lazy resolution of types and references at first use']
STUB = ['application callbacks (fail where the plan says)',
        'threads and locks (one thread at a time)', 'clock (frozen)',
        'storage (records what is written)']
ASSUMPTIONS = ['an interrupt is delivered where CPython delivers one: on '
               'entry of a function', 'a union alternative whose transformer '
               'raises an ordinary error does not match']
KINDS = ('error', 'error', 'memory', 'interrupt', 'attribute', 'key', 'value',
         'type', 'stop', 'lookup', 'os', 'assert', 'recursion', 'exit')
MAKE = {'memory': MemoryError, 'interrupt': KeyboardInterrupt,
        'attribute': AttributeError, 'key': KeyError, 'value': ValueError,
        'type': TypeError, 'stop': StopIteration, 'lookup': IndexError,
        'os': OSError, 'assert': AssertionError, 'recursion': RecursionError,
        'exit': SystemExit}
BASE = ('interrupt', 'exit')
PURE = ('validate', 'validall', 'json', 'jsonopt', 'isvalid')


def prepare():
    c01.prepare()


def gen(rng):
    if rng.maybe(.3):
        # classes nobody used before: interrupted during their first use
        def prog():
            return [[rng.choice(c01.KINDS), rng.randrange(4),
                     rng.randrange(6)]
                    for _ in range(rng.choice([1, 1, 2, 3]))]
        first = prog()
        return {'faults': [], 'fresh': True, 'family': rng.weighted(
            [('cold', 4), ('warm', 1)]), 'prog': first,
            'after': prog() if rng.maybe(.5) else list(first),
            'kills': [1 + int(2 ** (rng.random() * 10.5))]}
    kind = rng.choice(c01hot.HOT_KINDS)
    plan = {'faults': [], 'cls': c01hot.class_for(rng, kind),
            'start': [rng.choice([0, 0, rng.randrange(256)]),
                      rng.choice([0, 0, rng.randrange(24)])],
            'op': [kind, rng.randrange(256), rng.randrange(24)],
            'after': [[rng.choice([kind, rng.choice(c01hot.HOT_KINDS)]),
                       rng.randrange(256), rng.randrange(24)]
                      for _ in range(rng.choice([1, 1, 2]))]}
    plan['shots'] = [['call', round(rng.random(), 4), 'interrupt']
                     if rng.maybe(.4) else
                     ['cb', round(rng.random(), 3), rng.choice(KINDS)]
                     for _ in range(20)]
    return plan


def fail(kind, n):
    if kind == 'error':
        return InjectedFault('callback', n, 'error')
    return MAKE[kind]('injected')


class Entries:
    """Counts entries of library functions."""

    def __init__(self):
        self.n = 0

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(c01.LIB_ROOT):
            self.n += 1
        return None


def run_cold(plan, sim):
    c = c01.FAMILIES[plan['family']]

    def solo():
        sim.traces = {1: [], 2: []}
        c01.program(plan, c, 1, plan['prog'], None)
        sim.traces = {1: [], 2: []}
        c01.program(plan, c, 2, plan['after'], None)
        return sim.traces[2]
    want = c01.in_fork(solo)
    sim.traces = {1: [], 2: []}
    kills = {0: plan['kills'][0]} if plan['kills'] else {}

    def after():
        sim.traces[2] = []
        c01.program(plan, c, 2, plan['after'], None)
    sched = Scheduler(sim, 2, [], [0, 1], kills=kills)
    _, errors = sched.run([
        lambda: c01.program(plan, c, 1, plan['prog'], None), after])
    fired = bool(kills) and not sched.kills
    if fired:
        sim.state('cold', plan['prog'], plan['kills'])
        sim.count('interrupted_first_uses')
    if errors[1] is not None:
        raise errors[1]
    if fired and not isinstance(errors[0], KeyboardInterrupt):
        raise Violation('swallowed', 'an interrupt at library function entry '
                        f'{plan["kills"][0]} of {plan["prog"]} did not reach '
                        f'the caller ({errors[0]!r})')
    if not fired and errors[0] is not None:
        raise errors[0]
    got = json.loads(json.dumps(sim.traces[2]))
    if got != want:
        raise Violation('left-behind', 'after an interrupted first use: '
                        + c01.diff('later', want, got))
    sim.ev('cold', got)


def run(plan, sim):
    sim.clock = Clock(tick=0)
    if 'family' in plan:
        return run_cold(plan, sim)
    cls = plan['cls']
    op = plan['op']

    def env(t):
        sim.inject = None
        sim.traces = {}
        e = c01hot.HotEnv(t, cls, *plan['start'],
                          empty=op[0].startswith('create') and t == 1)
        sim.traces = {}
        return e
    # what happens when nothing fails
    calls = []
    ents = Entries()
    e = env(1)
    e.o_ = None
    sim.inject = lambda what: calls.append(what[0])
    import sys
    sys.settrace(ents.glob)
    try:
        e.step(op)
    except Exception:  # noqa: BLE001 - an outcome of the operation
        pass
    finally:
        sys.settrace(None)
        sim.inject = None
    full = json.loads(json.dumps(sim.traces))
    full = [x for t in sorted(full) for x in full[t]]
    again = None
    if op[0] in PURE:
        sim.traces = {}
        e.step(op)
        again = json.loads(json.dumps(sim.traces))
    e = env(2)
    for o in plan['after']:
        e.step(o)
    later = json.loads(json.dumps(sim.traces))
    for kind, frac, what in plan['shots']:
        if kind == 'cb':
            if not calls:
                continue
            shoot_callback(plan, sim, env, calls, frac, what, again, later)
        else:
            shoot_call(plan, sim, env, ents.n, frac, again, later)
    sim.ev('done', len(calls), ents.n)


def shoot_callback(plan, sim, env, calls, frac, what, again, later):
    op = plan['op']
    at = min(len(calls) - 1, int(frac * len(calls)))
    exc = fail(what, at)
    seen = []

    def inject(ev):
        seen.append(ev[0])
        if len(seen) == at + 1:
            sim.fault('callback', what)
            raise exc
    e = env(1)
    sim.inject = inject
    got = None
    try:
        e.step(op)
    except BaseException as x:  # noqa: BLE001
        got = x
    finally:
        sim.inject = None
    sim.ev('shot', at, what, seen)
    sim.state(plan['cls'], op[0], seen[-1] if seen else None, what)
    where = f'{what} raised by callback {calls[at]} ({at + 1} of ' \
        f'{len(calls)}) in {op} of {plan["cls"]}'
    soft = calls[at] == 'soft' and what not in BASE
    if not soft:
        if got is not exc:
            raise Violation('swallowed', f'{where} did not reach the caller: '
                            f'{got!r}')
        if seen != calls[:at + 1]:
            raise Violation('went-on', f'{where}: callbacks {seen[-3:]} after '
                            f'it instead of {calls[at - 1:at + 1]}')
    behind(plan, sim, env, e, where, again, later)


def shoot_call(plan, sim, env, total, frac, again, later):
    op = plan['op']
    e = env(1)
    at = 1 + int(frac * total)
    sched = Scheduler(sim, 1, [], [0], kills={0: at})
    sim.inject = lambda ev: None
    try:
        _, errors = sched.run([lambda: e.step(op)])
    finally:
        sim.inject = None
    if sched.kills:
        sim.count('interrupt_not_reached')
        return
    sim.state(plan['cls'], op[0], at)
    where = f'an interrupt at library function entry {at} of {op} of ' \
        f'{plan["cls"]}'
    if not isinstance(errors[0], KeyboardInterrupt):
        raise Violation('swallowed', f'{where} did not reach the caller: '
                        f'{errors[0]!r}')
    behind(plan, sim, env, e, where, again, later)


def behind(plan, sim, env, e, where, again, later):
    """Nothing of the failure is left."""
    if again is not None:
        sim.traces = {}
        e.step(plan['op'])
        got = json.loads(json.dumps(sim.traces))
        if got != again:
            raise Violation('left-behind', f'{where}: done again on the same '
                            'object: ' + both(again, got))
    e2 = env(2)

    def after():
        for o in plan['after']:
            e2.step(o)
    # another thread goes on: no lock may be left held
    sched = Scheduler(sim, 1, [], [0])
    _, errors = sched.run([after])
    if errors[0] is not None:
        raise errors[0]
    got = json.loads(json.dumps(sim.traces))
    if got != later:
        raise Violation('left-behind', f'{where}: later, on another object: '
                        + both(later, got))
    sim.count('failures_checked')


def both(want, got):
    for t in sorted(set(want) | set(got)):
        if want.get(t) != got.get(t):
            return c01.diff(t, want.get(t) or [], got.get(t) or [])
    return '?'
