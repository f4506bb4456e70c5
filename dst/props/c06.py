"""C06: reset and previous values give back the last persisted state."""
from __future__ import annotations
from ..sim import Violation, SimCrash, InjectedFault, LineTracer, Clock
from .. import docworld
from ..docworld import DocWorld, gen_mut, gen_value, ALLF, FIELDS, snap, exact
from ..store import plain
from . import c04, c05
from .. import relworld
from ..relworld import LETTER, SCALARS, REL, KEYS, uid

ID = 'C06'
QUICK = 20000
THOROUGH = 500000
BATCH = 12
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation kind, set of names that differ '
              'from the last persisted state before the operation, number of '
              'previous-value callbacks seen)')
REAL = c05.REAL + ['reset', 'previous value bookkeeping', 'compare and '
                   'on-update callbacks']
STUB = c05.STUB
ASSUMPTIONS = c05.ASSUMPTIONS


def prepare():
    docworld.prepare('c06')
    relworld.prepare('c06r')


def gen_rel(rng):
    """Objects with references: what an object stores of a link (its keys) is
    part of the state to go back to."""
    ops = []
    for _ in range(rng.choice([2, 4, 7, 12])):
        ops.append(relworld.gen_op(rng))
        x = rng.random()
        o = [rng.choice('UUPPF'), rng.randrange(4)]
        if x < .15:
            ops.append(['save', *o])
        elif x < .25:
            ops.append(['scalar', *o, rng.choice(['a', 'b', 'bad'])])
        elif x < .6:
            ops.append(['reset', *o])
    ops.append(['reset', rng.choice('UUPPF'), rng.randrange(4)])
    faults = [{'point': 'store.write', 'n': rng.randrange(8), 'kind': 'error'}
              for _ in range(rng.randrange(3))]
    return {'rel': True, 'ops': ops, 'faults': faults, 'saved': True,
            'reset_all': True, 'fresh': False, 'temp': 'warm',
            'n': rng.choice([2, 3, 4]), 'base': rng.choice([1, 1, 0]), 'crash_line': 0,
            'links': rng.randrange(6)}


def gen(rng):
    if rng.maybe(.15):
        return gen_rel(rng)
    plan = c05.gen(rng)
    plan['reset_all'] = rng.maybe(.85)
    ops = []
    for op in plan['ops']:
        ops.append(op)
        if rng.maybe(.22):
            ops.append(['reset', op[1]])
    ops.append(['reset', rng.randrange(3)])
    plan['ops'] = ops
    plan['crash_line'] = 0
    return plan


def save(sim, w, i, base):
    doc = w.docs[i]
    new = doc.is_new
    sim.notes.clear()
    model = plain(w.models[i])
    reported = {n.split('.')[0] for n in doc.modified_fields}
    ok = True
    try:
        doc.save()
    except InjectedFault:
        ok = False
    except Exception as e:
        if type(e).__name__ != 'ValidationException':
            raise
        ok = False
    notes = list(sim.notes)
    w.same(i, 'save')
    sim.count('save.ok' if ok else 'save.failed')
    for note in notes:
        what, name, old, cur = note
        if new:
            raise Violation('previous-value', f'{what} of {name} ran while '
                            'creating the object')
        if name not in reported:
            raise Violation('previous-value', f'{what} of {name} ran, which '
                            f'was not changed ({sorted(reported)} were)')
        if old != base[i][name]:
            raise Violation('previous-value',
                            f'{what} of {name} was given the previous value '
                            f'{old!r}, the last persisted value is '
                            f'{base[i][name]!r}')
        if cur != model[name]:
            raise Violation('previous-value',
                            f'{what} of {name} was given the new value '
                            f'{cur!r}, the object holds {model[name]!r}')
        sim.count('notes')
    if ok:
        if not new:
            for what, names in (('compare', ('cn', 'cl', 'dl')),
                                ('onupdate', ('cn', 'cl', 'dl'))):
                for name in names:
                    n = sum(1 for x in notes if x[0] == what and x[1] == name)
                    if base[i][name] != model[name] and n != 1:
                        raise Violation(
                            'previous-value', f'{name} changed from '
                            f'{base[i][name]!r} to {model[name]!r} and {what} '
                            f'ran {n} times')
        base[i] = plain(w.models[i])
    return ok


def reset(sim, w, i, base, enabled):
    doc = w.docs[i]
    before = (snap(doc), doc.is_modified, sorted(doc.modified_fields),
              doc.is_new)
    try:
        doc.reset()
    except Exception as e:
        name = type(e).__name__
        if name not in ('JSONClassResetError',
                        'JSONClassResetNotEnabledError'):
            raise
        after = (snap(doc), doc.is_modified, sorted(doc.modified_fields),
                 doc.is_new)
        if after != before:
            raise Violation('refused-reset', 'a refused reset changed the '
                            f'object: {before} -> {after}')
        if enabled and not before[3]:
            raise Violation('refused-reset',
                            f'reset of a persisted object raised {name}')
        sim.count('reset.refused')
        return
    if not enabled or before[3]:
        raise Violation('reset-accepted', 'reset worked on an object that has '
                        'no state to go back to')
    got = snap(doc)
    if not exact(got, base[i]):
        diff = {k: (got[k], base[i][k]) for k in FIELDS
                if not exact(got[k], base[i][k])}
        raise Violation('reset-wrong', f'after reset (object, last persisted) '
                        f'= {diff}')
    if doc.is_modified or doc.modified_fields:
        raise Violation('reset-wrong', 'a reset object still reports changes '
                        f'{sorted(doc.modified_fields)}')
    if doc.previous_values:
        raise Violation('reset-wrong', 'a reset object still has previous '
                        f'values {doc.previous_values}')
    sim.count('reset.done')
    w.models[i] = plain(base[i])


class RelStore(c04.SimStore):
    base = None

    def write(self, obj):
        super().write(obj)
        c = {v: k for k, v in LETTER.items()}[type(obj).__name__]
        self.base[(c, obj.id)] = own_state(c, obj)


def own_state(c, o):
    return {n: plain(getattr(o, n)) for n in
            ('id',) + SCALARS[c] + tuple(c04.LOCAL[c].values())}


class RelReset(c04.World):
    store_class = RelStore

    def resync(self):
        """Take the links as one side has them."""
        for r, ((lc, lf), (rc, rf)) in REL.items():
            self.rel[r] = set()
            for i, o in self.objs[lc].items():
                v = getattr(o, lf)
                for x in (v if isinstance(v, list) else [v]):
                    if x is not None:
                        self.rel[r].add((i, uid(x)))
        for r, rk in KEYS.items():
            lc, lf = REL[r][0]
            self.loose[r] = {}
            for i, o in self.objs[lc].items():
                v = getattr(o, rk)
                ks = set(v if isinstance(v, list) else [v]) - {None}
                self.loose[r][i] = ks - self.others(lc, lf, i)
        self.cut = {}

    def reset(self, c, o):
        base = self.store.base.get((c, o.id))
        before = own_state(c, o)
        try:
            o.reset()
        except Exception as e:
            if type(e).__name__ != 'JSONClassResetError':
                raise
            if not o.is_new:
                raise Violation('refused-reset', 'reset of a persisted '
                                'object was refused')
            if own_state(c, o) != before:
                raise Violation('refused-reset', 'a refused reset changed '
                                'the object')
            return
        got = own_state(c, o)
        if got != base:
            raise Violation(
                'reset-wrong', f'after reset {LETTER[c]} {o.id} (object, last '
                'persisted) = '
                f'{ {k: (got[k], base[k]) for k in got if got[k] != base[k]} }')
        if o.is_modified or o.modified_fields:
            raise Violation('reset-wrong', 'a reset object still reports '
                            f'changes {sorted(o.modified_fields)}')
        if o.previous_values:
            raise Violation('reset-wrong', 'a reset object still has '
                            f'previous values of {sorted(o.previous_values)}')
        self.sim.count('reset.rel')
        self.sim.state('rel', [k for k in got if got[k] != before[k]])
        self.resync()
        self.check('reset')
        self.check_report('reset')


def run_rel(plan, sim):
    sim.clock = Clock()
    w = RelReset(sim, plan)
    w.store.base = {}
    for i in range(w.base, plan['n'] + w.base):
        for c in 'UPF':
            w.new(c, i)
    if plan['links'] & 1:
        w.apply(['assign', 'U', 0, 'ups', [0, 1], 0])
        w.apply(['one', 'P', 0, 'author', 1])
    if plan['links'] & 2:
        w.apply(['key', 'P', 1, 'author', 77])
        w.apply(['keys', 1, 'assign', [1, 77], 0])
    for c in 'UPF':
        for i, o in w.objs[c].items():
            row = {k: None for k in SCALARS[c]}
            row.update(own_state(c, o))
            w.store.rows[(LETTER[c], i)] = row
            w.store.base[(c, i)] = own_state(c, o)
            o._clear_unlinked_object()
            o._mark_unmodified()
    w.cut = {}
    for op in plan['ops']:
        what = '/'.join(str(x) for x in op[:5])
        if op[0] == 'save':
            w.save(op[1], w.get(op[1], op[2]))
        elif op[0] == 'scalar':
            setattr(w.get(op[1], op[2]), SCALARS[op[1]][0], op[3])
        elif op[0] == 'reset':
            w.reset(op[1], w.get(op[1], op[2]))
        elif w.apply(op):
            w.check(what)
        sim.count(op[0])
    sim.ev('final', [[c, i, own_state(c, o)] for c in 'UPF'
                     for i, o in w.objs[c].items()])


def run(plan, sim):
    if plan.get('rel'):
        try:
            return run_rel(plan, sim)
        except Violation as v:
            if v.kind not in ('reset-wrong', 'refused-reset') and \
                    not v.detail.startswith('after reset'):
                return      # the concern of C04 and C07
            raise
    sim.clock = Clock()
    w = DocWorld(sim, docworld.CLASSES[(plan['reset_all'], plan['temp'])])
    base = {}
    try:
        for i, values in enumerate(plan['init']):
            w.create(i + 1, values)
            base[i] = None
            if plan['saved'][i]:
                save(sim, w, i, base)
        for op in plan['ops']:
            i = op[1] % len(w.docs)
            if base[i] is not None:
                differ = sorted(f for f in FIELDS
                                if base[i][f] != w.models[i][f])
                sim.state(op[0], differ, len(sim.notes))
            if op[0] == 'm':
                w.mutate(i, op[2])
                w.same(i, op[2][0])
            elif op[0] == 'save':
                save(sim, w, i, base)
            elif op[0] == 'reload':
                w.reload(i)
                base[i] = None if w.docs[i].is_new else plain(w.models[i])
            elif op[0] == 'reset':
                reset(sim, w, i, base, plan['reset_all'])
                if base[i] is not None and not w.docs[i].is_new and \
                        plan['reset_all']:
                    c05.check_report(sim, w, i, 'reset') \
                        if not w.docs[i].is_modified and \
                        w.store.rows[('Doc', i + 1)] == base[i] else None
            sim.ev('op', op[0], i, sorted(w.docs[i].modified_fields))
    except SimCrash:
        sim.count('crashes')
        return
    sim.ev('final', [snap(d) for d in w.docs])
