"""C18: the operator is recorded on what it creates and recognised by identity
checks, over histories of several operators with failing steps."""
from __future__ import annotations
from ..sim import Violation, InjectedFault, Clock
from ..seams import CUR

ID = 'C18'
QUICK = 12000
THOROUGH = 500000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation, kind of operator, recorded keys '
              'present, object new/changed/loaded, outcome)')
REAL = ['opby, asop, asopd', 'getop, isthis, isobj, isobjof, fval',
        'permission checks, validate, save, delete, tojson']
STUB = ['storage (it may fail)', 'operator transformers (they may fail)']
ASSUMPTIONS = []

W = {}


def prepare():
    from jsonclasses import jsonclass, types

    def boss(op):
        sim = CUR.sim
        w = getattr(sim, 'world', None) if sim else None
        if w is None:
            return op
        sim.maybe_raise('cb.asop')
        return w.boss(op)

    def pair_of(op, team):
        sim = CUR.sim
        w = getattr(sim, 'world', None) if sim else None
        if w is None:
            return op
        w.seen.append((op, team))
        sim.maybe_raise('cb.asop')
        return w.pair(op)

    def third_of(op, team, ctx):
        if getattr(CUR.sim, 'world', None) is not None and (
                ctx.operator is not op or ctx.root is not team):
            raise Violation('operator-recorded', 'the transformer was given '
                            'another context')
        return pair_of(op, team)
    mine = types.getop.isobj(types.this.fval('owner'))
    some_user = types.getop.isobjof('C18U')     # in whichever graph

    @jsonclass(class_graph='c18', can_update=types.getop.isthis,
               can_delete=some_user)
    class C18U:
        id: str = types.str.primary
        name: str
        secret: str = types.str.canr(types.getop.isthis)
        keep: C18K = types.objof('C18K')

    @jsonclass(class_graph='c18', can_update=types.getop.isthis,
               can_delete=some_user)
    class C18V(C18U):
        more: str

    @jsonclass(class_graph='c18')
    class C18B:
        id: str = types.str.primary
        name: str

    @jsonclass(class_graph='c18', can_update=types.getop.isthis,
               can_delete=types.getop.isobj(types.this))
    class C18K:
        name: str
        secret: str = types.str.canr(types.getop.isthis)

    @jsonclass(class_graph='c18', can_update=mine, can_delete=mine)
    class C18T:
        id: str = types.str.primary
        name: str
        owner: C18U = types.objof('C18U').linkto.asopd
        maker: C18U = types.objof('C18U').linkto.asop(boss)
        pair: C18U = types.asop(pair_of).linkto.objof('C18U')
        third: C18U = types.objof('C18U').linkto.asop(third_of)
        notes: list[C18N] = types.nonnull.listof('C18N').linkedby('team')
        salary: str = types.str.canr(types.getop.isobj(
            types.this.fval('owner')))

    @jsonclass(class_graph='c18')
    class C18N:
        id: str = types.str.primary
        text: str
        team: C18T = types.objof('C18T').linkto
        author: C18U = types.objof('C18U').linkto.asopd

    def namesake():
        @jsonclass(class_graph='c18x', can_update=types.getop.isthis,
                   can_delete=some_user)
        class C18U:
            id: str = types.str.primary
            name: str
            secret: str = types.str.canr(types.getop.isthis)
        return C18U
    W['C18Ux'] = namesake()

    def write(self):
        w = CUR.sim.world
        f = w.sim.hit('store.write')
        if f is not None and f['kind'] != 'lost':
            raise InjectedFault('store.write', f['n'], f['kind'])
        w.written.append(self)
        if f is not None:
            raise InjectedFault('store.write', f['n'], f['kind'])
        self._mark_unmodified()

    def delete(self):
        CUR.sim.world.deleted.append(self)
    for c in (C18U, C18V, C18B, C18K, C18T, C18N):
        c._database_write = write
        c._orm_delete = delete
        W[c.__name__] = c
    W['C18Ux']._database_write = write
    W['C18Ux']._orm_delete = delete
    t = C18T(notes=[{}])
    t.opby(C18U(id='w', secret='x'))
    t.is_valid


OPS = [('team', 4), ('note', 3), ('opby', 10), ('save', 8), ('name', 5),
       ('clear', 1), ('give', 1), ('reload', 2), ('json', 3), ('delete', 1),
       ('opnote', 3), ('user', 5), ('valid', 1), ('savenote', 3),
       ('clearnote', 1)]


def gen(rng):
    ops = [['team'], ['opby', 0, rng.randrange(11)], ['save', 0]]
    for _ in range(rng.choice([4, 10, 20])):
        k = rng.weighted(OPS)
        ops.append([k, rng.randrange(4), rng.randrange(11),
                    rng.randrange(11)])
    faults = []
    if rng.maybe(.35):
        for _ in range(rng.choice([1, 2])):
            p = rng.choice(['cb.asop', 'cb.asop', 'store.write'])
            faults.append({'point': p, 'n': rng.randrange(8),
                           'kind': rng.choice(['error', 'memory',
                                               'interrupt'])
                           if p == 'cb.asop' else
                           rng.choice(['error', 'lost'])})
    return {'ops': ops, 'faults': faults, 'alone': rng.maybe(.2),
            'second': rng.choice(['b', 'b', '']), 'boss': [rng.choice([0, 0, 1, 1, 2, 2, 3])
                                                   for _ in range(3)]}


FAULTS = (InjectedFault, MemoryError, KeyboardInterrupt)
KEYS = ('owner_id', 'maker_id', 'pair_id', 'third_id')


class World:
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.seen = []
        self.written = []
        self.deleted = []
        # operators: three stored users, another user object with the key of
        # the first, a bot and a user of another graph with the same key,
        # unsaved users, keyless ones
        U, B, K = W['C18U'], W['C18B'], W['C18K']
        self.actors = [U(id='a', secret='sa'), U(id=plan.get('second', 'b'), secret='sb'),
                       U(id='c', secret='sc'), U(id='a', secret='sa'),
                       U(secret='s0'), U(secret='s1'),
                       K(name='k0', secret='k0'), K(name='k1', secret='k1'),
                       B(id='a'), W['C18Ux'](id='a', secret='sx'),
                       W['C18V'](id='a', secret='sv')]
        # objects inside a user are not the user
        self.actors[0].keep = self.actors[6]
        self.actors[1].keep = K(name='k2', secret='k2')
        for o in self.actors:
            if not (isinstance(o, U) and o.id is None):
                o._mark_not_new()
        self.teams = []
        self.notes = []
        self.n = 0

    def boss(self, op):
        i = next((i for i, a in enumerate(self.actors[:3])
                  if a is op), None)
        if i is None:
            return op
        b = self.plan['boss'][i]
        return None if b == 3 else self.actors[b]

    def pair(self, op):
        return None if self.plan.get('alone') and op is self.actors[1] \
            else op

    def keys(self, t):
        return {k: getattr(t, k) for k in KEYS}


def same(a, b):
    """The reference notion of identity."""
    if a is None or b is None:
        return False
    if a is b:
        return True
    return type(a) is type(b) and getattr(a, 'id', None) is not None and \
        a.id == b.id


def owns(op, t):
    if t.owner is not None:
        return same(op, t.owner)
    key = t.owner_id
    return type(op) is W['C18U'] and key is not None and op.id == key


def outcome(fn):
    from jsonclasses.excs import (ValidationException,
                                  UnauthorizedActionException)
    try:
        fn()
        return 'ok'
    except FAULTS:
        return 'fault'
    except ValidationException:
        return 'invalid'
    except UnauthorizedActionException:
        return 'unauthorized'


def run(plan, sim):
    sim.clock = Clock(tick=0)
    sim.world = w = World(sim, plan)
    for op in plan['ops']:
        kind, x, y, z = (op + [0, 0, 0])[:4]
        t = w.teams[x % len(w.teams)] if w.teams else None
        note = w.notes[x % len(w.notes)] if w.notes else None
        actor = w.actors[y]
        how = 'ok'
        if kind == 'team' or t is None:
            kind = 'team'
            w.n += 1
            t = W['C18T'](id=f't{w.n}', name='n', salary='high')
            w.teams.append(t)
            w.op = None
        elif kind == 'note':
            w.n += 1
            n = W['C18N'](id=f'n{w.n}', text='x')
            w.notes.append(n)
            t.notes.append(n)
        elif kind == 'opby':
            how = opby(w, t, None if z == 7 else actor)
        elif kind == 'opnote':
            if note is None:
                continue
            was = note.author_id
            new = note.is_new
            a = None if z == 7 else actor
            if outcome(lambda: note.opby(a)) != 'ok':
                raise Violation('opby-failed', 'on a note')
            want = was if a is None or not new else a._id
            if note.author_id != want:
                raise Violation('operator-recorded', f'note: '
                                f'{note.author_id!r}, not {want!r}')
        elif kind == 'name':
            t.name = f'm{z}'
        elif kind == 'clear':
            if t.owner is not None:
                # would save the cut user as well: C03 and C04
                continue
            if z == 0:
                t.owner_id = None
            elif z == 1:
                t.owner = None
            else:
                t.maker_id = None
        elif kind == 'give':
            if t.is_new or t.owner is not None:
                continue
            t.owner = w.actors[[0, 1, 2, 4, 5][y % 5]]
        elif kind in ('save', 'valid'):
            how = save(w, t, kind)
        elif kind == 'savenote':
            if note is None:
                continue
            how = savenote(w, note)
        elif kind == 'clearnote':
            if note is None:
                continue
            note.author_id = None
        elif kind == 'delete':
            op_ = t._operator
            w.deleted.clear()
            how = outcome(t.delete)
            want = 'ok' if owns(op_, t) else 'unauthorized'
            if how != want or (how == 'ok') != bool(w.deleted):
                raise Violation('wrong-decision', f'delete: {how}, not '
                                f'{want}')
        elif kind == 'reload':
            if t.is_new:
                continue
            k = W['C18T'](id=t.id, name=t.name, salary='high')
            for key in KEYS:
                k.update(**{key: getattr(t, key)})
            k._mark_not_new()
            k._mark_unmodified()
            w.teams[x % len(w.teams)] = t = k
        elif kind == 'json':
            out = t.tojson()
            shown = 'salary' in out
            if shown != owns(t._operator, t):
                raise Violation('wrong-decision', f'read: shown={shown} to '
                                f'{show(t._operator)}, owner '
                                f'{t.owner_id!r}')
        elif kind == 'user':
            how = user(w, w.actors[z], None if x == 3 and y == 0 else actor)
        sim.ev(kind, x, y, z, how, [w.keys(t) for t in w.teams],
               [n.author_id for n in w.notes])
        sim.state(kind, how, y, [v is not None for v in w.keys(t).values()],
                  t.is_new, t.is_modified, t.owner is not None)


def show(op):
    return 'nobody' if op is None else \
        f'{type(op).__name__} {getattr(op, "id", None)}'


def opby(w, t, actor):
    was = w.keys(t)
    new = t.is_new
    want = dict(was)
    if new and actor is not None:
        b = w.boss(actor)
        want = {'owner_id': actor._id, 'maker_id': b and b._id,
                'pair_id': w.pair(actor) and actor._id,
                'third_id': w.pair(actor) and actor._id}
    w.seen.clear()
    try:
        how = outcome(lambda: t.opby(actor))
    except AttributeError:
        if w.boss(actor) is not None and w.pair(actor) is not None:
            raise
        how = 'fault'       # there is nobody to record
    now = w.keys(t)
    for o, team in w.seen:
        if o is not actor or team is not t:
            raise Violation('operator-recorded', 'the transformer was given '
                            f'{show(o)} and another object')
    if how == 'fault':
        for k in KEYS:
            if now[k] not in (was[k], want[k]):
                raise Violation('operator-recorded', f'{k} {now[k]!r} after '
                                f'a failure: neither {was[k]!r} nor '
                                f'{want[k]!r}')
    elif how != 'ok':
        raise Violation('opby-failed', how)
    elif now != want:
        raise Violation('operator-recorded', f'{now} after {show(actor)}, '
                        f'not {want}')
    elif t._operator is not actor:
        raise Violation('operator-recorded', 'another operator acts')
    return how


def lacking(t):
    """Whether the team or one of its notes lacks an operator."""
    return any(getattr(t, k) is None for k in KEYS
               if t.is_new or k[:-3] in t.modified_fields) or \
        any(n.author_id is None and (n.is_new or 'author' in n.modified_fields)
            for n in t.notes)


def savenote(w, note):
    was = [n.author_id for n in w.notes] + [w.keys(t) for t in w.teams]
    want = 'invalid' if lacking(note.team) else 'ok'
    w.written.clear()
    how = outcome(note.save)
    if was != [n.author_id for n in w.notes] + [w.keys(t) for t in w.teams]:
        raise Violation('operator-recorded', f'saving a note changed {was}')
    if how == 'fault' and want == 'ok':
        return how
    if how != want:
        raise Violation('wrong-decision', f'a note is saved: {how}, not '
                        f'{want}')
    if (how == 'ok') != bool(w.written):
        raise Violation('wrong-write', f'{how} {len(w.written)}')
    return how


def save(w, t, kind):
    op = t._operator
    was = w.keys(t)
    want = 'ok'
    if not t.is_new and kind == 'save' and not owns(op, t):
        want = 'unauthorized'
    elif lacking(t):
        want = 'invalid'
    w.written.clear()
    how = outcome(t.save if kind == 'save' else t.validate)
    if w.keys(t) != was:
        raise Violation('operator-recorded', f'{kind} changed {was} to '
                        f'{w.keys(t)}')
    if how == 'fault' and want == 'ok':
        return how
    if how != want:
        raise Violation('wrong-decision', f'{kind} by {show(op)} of '
                        f'{was}: {how}, not {want}')
    if (how == 'ok' and kind == 'save') != bool(w.written):
        raise Violation('wrong-write', f'{how} {len(w.written)}')
    return how


def user(w, who, by):
    """Somebody changes (or reads, or deletes) a user or a keyless object."""
    who.opby(by)
    try:
        if type(who).__name__ in ('C18U', 'C18V', 'C18K'):
            out = who.tojson()
            keep = getattr(who, 'keep', None)
            if keep is not None and \
                    ('secret' in out['keep']) != same(keep, by):
                raise Violation('wrong-decision', f'{show(by)} reads inside '
                                f'{show(who)}: {out}')
            if ('secret' in out) != same(who, by):
                raise Violation('wrong-decision', f'{show(by)} reads '
                                f'{show(who)}: {out}')
        how = 'ok'
        if who.is_new or type(who).__name__ == 'C18B':
            return how
        who.name = f'x{w.n}{who.name}'[:20]
        how = outcome(who.save)
        want = 'ok' if same(who, by) else 'unauthorized'
        if how == 'fault' and want == 'ok':
            return how
        if how != want:
            raise Violation('wrong-decision', f'{show(by)} updates '
                            f'{show(who)}: {how}, not {want}')
        w.deleted.clear()
        how = outcome(who.delete)
        if type(who).__name__ in ('C18U', 'C18V'):
            base = W['C18Ux' if type(who) is W['C18Ux'] else 'C18U']
            want = 'ok' if isinstance(by, base) else 'unauthorized'
        else:
            want = 'ok' if same(who, by) else 'unauthorized'
        if how != want or (how == 'ok') != bool(w.deleted):
            raise Violation('wrong-decision', f'{show(by)} deletes '
                            f'{show(who)}: {how}, not {want}')
        return how
    finally:
        who.opby(None)
