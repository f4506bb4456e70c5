"""C04: stored references agree with the objects in memory."""
from __future__ import annotations
from ..sim import Violation, Clock, SimCrash, InjectedFault, LineTracer
from .. import relworld
from ..relworld import RelWorld, gen_op, REL, KEYS, LETTER, SCALARS
from ..store import SimStore, plain

ID = 'C04'
QUICK = 11000
THOROUGH = 400000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (links in memory, references stored, which '
              'objects report changes) observed after a save')
REAL = ['relationship linking and unlinking', 'modified bookkeeping of linked '
        'objects', 'save of unlinked objects', 'local keys',
        'validation and on-save pass over the object graph']
STUB = ['durable storage (in-memory table behind the persistence hooks)',
        'process crash/restart']
ASSUMPTIONS = ['distinct primary keys; no object twice in one list',
               'a persistence package stores the local keys of a reference '
               'field when the field is reported as modified']

LOCAL = {'U': {'boss': 'boss_id', 'ups': 'up_ids'},
         'P': {'author': 'author_id'}, 'F': {'user': 'user_id'}}


def prepare():
    relworld.prepare('c04')


def gen(rng):
    ops = []
    for _ in range(rng.choice([3, 6, 10, 16])):
        ops.append(gen_op(rng))
        if rng.maybe(.4):
            ops.append(['save', rng.choice('UUPPF'), rng.randrange(4)])
        if rng.maybe(.1):
            ops.append(['scalar', rng.choice('UPF'), rng.randrange(4),
                        rng.choice(['a', 'b', 'c', 'bad'])])
        if rng.maybe(.1):
            ops.append(['flush'])
    faults = []
    if rng.maybe(.6):
        for _ in range(rng.randint(1, 3)):
            faults.append({'point': 'store.write', 'n': rng.randrange(12),
                           'kind': rng.choice(['error', 'error', 'ack_lost',
                                               'interrupt',
                                               'crash_before',
                                               'crash_after'])})
    cold = rng.maybe(.1)
    return {'ops': ops, 'faults': faults, 'n': rng.choice([2, 3, 3, 4]),
            'base': rng.choice([1, 1, 0]),
            'saved': rng.maybe(.85), 'reset_all': rng.maybe(.2),
            'fresh': cold, 'temp': 'cold' if cold else 'warm',
            'crash_line': 1 + int(2 ** (rng.random() * 14))
            if rng.maybe(.08) else 0}


class World(RelWorld):
    store_class = SimStore

    def __init__(self, sim, plan):
        super().__init__(sim, relworld.CLASSES[(plan['reset_all'],
                                                plan['temp'])], plan['n'])
        self.store = self.store_class(sim)
        self.base = plan.get('base', 1)     # the first key
        self.cut = {}      # object -> objects it was unlinked from
        for c, cls in self.c.items():
            self.store.attach(cls, ('id',) + SCALARS[c] + tuple(LOCAL[c]),
                              refs=LOCAL[c])

    def row(self, c, i):
        return self.store.rows.get((LETTER[c], i))

    def keys_now(self, c, o):
        return {rk: plain(getattr(o, rk)) for rk in LOCAL[c].values()}

    # the model notes every cut link
    def unlink(self, r, left, right):
        super().unlink(r, left, right)
        (lc, _), (rc, _) = REL[r]
        self.cut.setdefault((lc, left), set()).add((rc, right, r))
        self.cut.setdefault((rc, right), set()).add((lc, left, r))

    def link(self, r, left, right):
        super().link(r, left, right)
        (lc, _), (rc, _) = REL[r]
        self.cut.get((lc, left), set()).discard((rc, right, r))
        self.cut.get((rc, right), set()).discard((lc, left, r))

    def apply(self, op):
        done = super().apply(op)
        # a key that names an object again is no cut link any more, though
        # the object at the other end knows nothing of it
        for r, left in self.loose.items():
            (lc, _), (rc, _) = REL[r]
            for i, keys in left.items():
                for k in keys:
                    self.cut.get((lc, i), set()).discard((rc, k, r))
                    self.cut.get((rc, k), set()).discard((lc, i, r))
        return done

    def check_report(self, what):
        """Any object whose stored references are out of date says so."""
        for c in 'UPF':
            for i, o in self.objs[c].items():
                row = self.row(c, i)
                if o.is_new or row is None:
                    continue
                rep = {n.split('.')[0] for n in o.persisted_modified_fields}
                for f, rk in LOCAL[c].items():
                    now = plain(getattr(o, rk))
                    old = row.get(rk)
                    if rk == 'up_ids':
                        now, old = set(now or ()), set(old or ())
                    if now != old and (f not in rep or not o.is_modified):
                        raise Violation(
                            'unreported-change', f'after {what}: stored '
                            f'{LETTER[c]} {i} has {rk}={old}, the object '
                            f'{now}, reported changes {sorted(rep)}, '
                            f'modified={o.is_modified}')

    def invalid(self):
        """Objects that hold a value they must not be saved with."""
        return [o for c in 'UPF' for o in self.objs[c].values()
                if getattr(o, SCALARS[c][0]) == 'bad']

    def check_rows(self):
        for (name, i), row in self.store.rows.items():
            if 'bad' in row.values():
                raise Violation('stored-invalid', f'{name} {i} was stored '
                                'with a value its validator refuses')

    def save(self, c, o, retry=False):
        cut = set(self.cut.get((c, o.id), ()))
        new = o.is_new
        try:
            res = o.save()
        except (InjectedFault, KeyboardInterrupt) as e:
            self.sim.count('save.failed')
            self.check(f'failed save of {LETTER[c]} {o.id}')
            self.check_report('failed save')
            if not any(f['point'] == 'store.write' for f in
                       self.sim.plan['faults']):
                raise Violation('no-progress', str(e))
            return False
        except Exception as e:
            if type(e).__name__ != 'ValidationException' or \
                    not self.invalid():
                raise
            self.sim.count('save.invalid')
            self.check(f'refused save of {LETTER[c]} {o.id}')
            self.check_report('refused save')
            return False
        if res is not o:
            raise Violation('save-result', 'save returned another object')
        self.sim.count('save.ok')
        self.check(f'save of {LETTER[c]} {o.id}')
        row = self.row(c, o.id)
        now = self.keys_now(c, o)
        if row is None or any(row.get(k) != v for k, v in now.items()):
            raise Violation('stored-wrong', f'saved {LETTER[c]} {o.id} with '
                            f'references {now}, stored {row}')
        for (xc, xi, r) in sorted(cut):
            x = self.objs[xc].get(xi)
            row = self.row(xc, xi)
            lc, lf = REL[r][0]
            if r not in KEYS or lc != xc or x is None:
                continue
            # the stored side of the cut link
            rk = KEYS[r]
            stored = row.get(rk) if row else None
            refs = stored if isinstance(stored, list) else [stored]
            if o.id in refs and o.id not in ids_of(getattr(x, rk)):
                raise Violation(
                    'stale-reference', f'{LETTER[c]} {o.id} was unlinked from '
                    f'{LETTER[xc]} {xi} and saved, but the stored '
                    f'{LETTER[xc]} {xi} still has {rk}={stored}')
        self.cut.pop((c, o.id), None)
        self.sim.state(sorted((r, sorted(s)) for r, s in self.rel.items()),
                       sorted((k, sorted((a, b) for a, b in v.items()
                               if a.endswith(('_id', '_ids'))))
                              for k, v in self.store.rows.items()),
                       sorted((c2, i) for c2 in 'UPF'
                              for i, x in self.objs[c2].items()
                              if x.is_modified))
        return True

    def flush(self):
        """Save every object that says it has to be saved."""
        for _ in range(6):
            dirty = [(c, o) for c in 'UPF'
                     for _, o in sorted(self.objs[c].items())
                     if o.is_new or o.is_modified]
            if not dirty:
                break
            ok = True
            for c, o in dirty:
                ok = self.save(c, o) and ok
            if not ok:
                return False
        else:
            raise Violation('no-progress', 'objects keep reporting changes '
                            'after six rounds of saving')
        for c in 'UPF':
            for i, o in self.objs[c].items():
                row = self.row(c, i)
                for rk, v in self.keys_now(c, o).items():
                    s = row.get(rk)
                    if rk == 'up_ids':
                        v, s = sorted(v or []), sorted(s or [])
                    if v != s:
                        raise Violation(
                            'stored-wrong', f'everything saved, {LETTER[c]} '
                            f'{i} has {rk}={v}, stored {s}')
        return True

    def restart(self):
        """The process died: rebuild every object from its row."""
        rows = plain(self.store.rows)
        name2 = {v: k for k, v in LETTER.items()}
        self.objs = {k: {} for k in 'UPF'}
        self.rel = {r: set() for r in REL}
        self.loose = {r: {} for r in KEYS}
        self.cut = {}
        for (name, i), row in sorted(rows.items()):
            c = name2[name]
            o = self.c[c](id=i)
            for k, v in row.items():
                if k != 'id':
                    setattr(o, k, v)
            for f, rk in LOCAL[c].items():
                got = plain(getattr(o, rk))
                want = row.get(rk)
                if (got or None) != (want or None):
                    raise Violation('stored-wrong', f'{name} {i} restored '
                                    f'with {rk}={got}, stored {want}')
                if row.get(rk) is not None:
                    ks = row[rk] if isinstance(row[rk], list) else [row[rk]]
                    self.loose[FIELD_REL[(c, f)]][i] = set(ks)
            o._mark_unmodified()
            self.objs[c][i] = o
        for c in 'UPF':
            for i in range(self.base, self.n + self.base):
                if i not in self.objs[c]:
                    self.new(c, i)
        self.check('restart')


FIELD_REL = {(c, f): relworld.FIELDS[(c, f)][1]
             for c in LOCAL for f in LOCAL[c]}


def ids_of(v):
    return v if isinstance(v, list) else [v]


def body(sim, w, plan):
    for i in range(w.base, plan['n'] + w.base):
        for c in 'UPF':
            o = w.new(c, i)
            if plan['saved']:
                row = {'id': i}
                for k in SCALARS[c]:
                    row[k] = None
                row.update(w.keys_now(c, o))
                w.store.rows[(LETTER[c], i)] = row
                o._mark_unmodified()
    for op in plan['ops']:
        if op[0] == 'save':
            w.save(op[1], w.get(op[1], op[2]))
        elif op[0] == 'scalar':
            o = w.get(op[1], op[2])
            setattr(o, SCALARS[op[1]][0], op[3])
        elif op[0] == 'flush':
            w.flush()
        else:
            if not w.apply(op):
                continue
            w.check('/'.join(str(x) for x in op[:5]))
        w.check_report('/'.join(str(x) for x in op[:5]))
        w.check_rows()
        sim.count(op[0])


def run(plan, sim):
    sim.clock = Clock()
    w = World(sim, plan)
    try:
        if plan['crash_line']:
            with LineTracer(sim, plan['crash_line'], 'crash'):
                body(sim, w, plan)
        else:
            body(sim, w, plan)
    except SimCrash:
        sim.count('crashes')
        sim._faults.clear()
        w.restart()
        for k, op in enumerate(plan['ops'][:6]):
            if op[0] not in ('save', 'scalar', 'flush'):
                w.apply(op)
                w.check('restart/' + op[0])
    sim._faults.clear()
    plan['faults'] = []
    for o in w.invalid():
        setattr(o, SCALARS[{v: k for k, v in LETTER.items()}
                           [type(o).__name__]][0], 'a')
    w.flush()
    w.check_rows()
    sim.ev('final', sorted((k, v) for k, v in w.store.rows.items()))
