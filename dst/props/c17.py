"""C17: fetching linked objects and missing fields, with failing fetches and
other processes changing the data."""
from __future__ import annotations
from .. import relworld
from ..sim import Violation, InjectedFault, Clock

ID = 'C17'
QUICK = 12000
THOROUGH = 500000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation, field, loaded fields of the '
              'object, modified fields, outcome)')
REAL = ['include, complete, fobj, crossfetch', 'linking of fetched objects, object graphs',
        'tracking, save, reset']
STUB = ['the database behind the query interface (rows, join rows, queries '
        'that fail)', 'other processes changing rows']
ASSUMPTIONS = ['relations are changed by other processes only: fetching a '
               'field whose own links have unsaved changes is not specified']

CLS = {}
ASK = {}
NAMES = {'User': 'U', 'Post': 'P', 'Profile': 'F'}
SCALAR = {'U': 'name', 'P': 'title', 'F': 'bio'}


class NotFound(Exception):
    pass


class Query:
    def __init__(self, db, fn, single):
        self.db, self.fn, self.single = db, fn, single

    def exec(self):
        db = self.db
        if db.sim is not None:
            f = db.sim.hit('query')
            if f is not None and f['kind'] == 'error':
                raise InjectedFault('query', f['n'], 'error')
        else:
            f = None
        got = self.fn()
        if f is not None:
            # the rows were read, the connection broke while decoding
            raise InjectedFault('query', f['n'], f['kind'])
        if self.single:
            if not got:
                raise NotFound()
            return got[0]
        return got

    @property
    def optional(self):
        q = Query(self.db, self.fn, False)
        q.exec = lambda: (Query.exec(q) or [None])[0]
        return q


class DB:
    """Rows by class and id; relations by name as sets of (left, right)."""
    cur = None

    def __init__(self, sim, classes):
        self.sim = sim
        self.classes = classes
        self.rows = {'U': {}, 'P': {}, 'F': {}}
        self.rel = {r: set() for r in relworld.REL}
        self.made = []
        self.writes = []

    def related(self, c, i, f):
        """Ids a field refers to in the database."""
        kind, r, side = relworld.FIELDS[(c, f)]
        return sorted(p[1 - side] for p in self.rel[r] if p[side] == i)

    def load(self, c, i, only=None):
        cls = self.classes[c]
        if i == 2:
            o = cls()
            o.id = i
        else:
            o = cls(id=i)
        # as the database integrations do: values, then clean
        row = self.rows[c][i]
        for r, key in relworld.KEYS.items():
            lc, lf = relworld.REL[r][0]
            if lc == c:
                ids = self.related(c, i, lf)
                if relworld.FIELDS[(lc, lf)][0] == 'one':
                    setattr(o, key, ids[0] if ids else None)
                elif ids:
                    setattr(o, key, ids)
        if only is None:
            setattr(o, SCALAR[c], row)
        else:
            object.__setattr__(o, '_is_partial', True)
        o._mark_unmodified()
        self.made.append(o)
        return o


def attach(classes):
    for c, cls in classes.items():
        def q_id(cls, i, _c=c):
            db = DB.cur
            return Query(db, lambda: [db.load(_c, i)]
                         if i in db.rows[_c] else [], True)

        def q_ids(cls, ids, _c=c):
            db = DB.cur
            return Query(db, lambda: [db.load(_c, i) for i in ids
                                      if i in db.rows[_c]], False)

        def q_find(cls, _c=c, **kw):
            return Query(DB.cur, lambda: match(_c, kw), False)

        def q_one(cls, _c=c, **kw):
            return Query(DB.cur, lambda: match(_c, kw), True)

        def write(self, _c=c):
            db = DB.cur
            if db is None:
                return
            db.writes.append((self, _c, self.id, self.is_modified,
                              sorted(self.persisted_modified_fields)))
            if db.sim is not None:
                f = db.sim.hit('write')
                if f is not None:
                    raise InjectedFault('write', f['n'], f['kind'])
            if SCALAR[_c] in self.modified_fields:
                db.rows[_c][self.id] = getattr(self, SCALAR[_c])
            self._mark_unmodified()

        def complete(self, _c=c):
            db = DB.cur
            half = db.sim.hit('complete') if db.sim is not None else None
            if half is not None and half['kind'] == 'error':
                raise InjectedFault('complete', half['n'], 'error')
            if SCALAR[_c] not in self.modified_fields:
                setattr(self, SCALAR[_c], db.rows[_c][self.id])
            if half is not None:
                raise InjectedFault('complete', half['n'], 'half')
            self._is_partial = False
        cls.id = classmethod(q_id)
        cls.ids = classmethod(q_ids)
        cls.find = classmethod(q_find)
        cls.one = classmethod(q_one)
        cls._database_write = write
        cls._orm_complete = complete


def match(c, kw):
    db = DB.cur
    (key, val), = kw.items()
    if key == 'id':
        return [db.load(c, val)] if val in db.rows[c] else []
    ids = val if isinstance(val, list) else [val]
    fields = {'author_id': 'author', 'user_id': 'user', 'boss_id': 'boss',
              'up_ids': 'ups', 'co_ids': 'cos', 'couser_ids': 'cousers'}
    f = fields[key]
    return [db.load(c, i) for i in sorted(db.rows[c])
            if set(db.related(c, i, f)) & set(ids)]


def define_ask(graph):
    """Rules that fetch: an object linked to another one, and an object of
    another class which matches a value."""
    from jsonclasses import jsonclass, types
    from typing import Any

    @jsonclass(class_graph=graph)
    class Ask:
        target: Any
        fname: str
        no: int
        same: str = types.str.getter(types.this.fval('fname'))
        got: Any = types.any.getter(types.this.fval('target').fobj(
            types.this.fval('fname')))
        got_boss: Any = types.any.getter(types.this.fval('target').fobj(
            'boss'))
        found: Any = types.any.getter(types.crossfetch('User', 'no', 'id'))
        found_post: Any = types.any.getter(types.crossfetch('Post', 'no',
                                                            'id'))
    return Ask


def prepare():
    relworld.prepare('c17')
    for k, classes in relworld.CLASSES.items():
        attach(classes)
        CLS[k] = classes
        ASK[k] = define_ask(f'c17-{k[0]}-{k[1]}')
    for reset in (False, True):
        warm({'reset': reset, 'warm': True, 'rels': [[r, 0, 1] for r in sorted(
            relworld.REL)], 'ops': [['load', 0, 0, 0]] + [
                ['include', 0, i, 0] for i in range(10)] + [
                ['save', 0, 0, 0]], 'faults': []})


FIELDS = sorted(relworld.FIELDS)


def warm(plan):
    try:
        run(plan, None)
    except Exception:  # noqa: BLE001
        pass            # the search will meet it again, and report it


def gen(rng):
    kinds = ['load', 'partial', 'include', 'include', 'include', 'include',
             'include', 'again', 'scalar', 'save', 'extern', 'complete',
             'reset', 'both', 'fobj', 'fobj', 'cross']
    pool = kinds if rng.maybe(.6) else rng.sample(kinds, 4) + ['include']
    ops = [['load', rng.randrange(3), rng.randrange(3), 0]]
    for _ in range(rng.choice([3, 6, 10, 16])):
        ops.append([rng.choice(pool), rng.randrange(60), rng.randrange(60),
                    rng.randrange(60)])
    faults = []
    if rng.maybe(.5):
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = rng.weighted([('query', 6), ('write', 2), ('complete', 2)])
            faults.append({'point': p, 'n': rng.randrange(6), 'kind':
                           rng.choice(['error', 'half'])})
    rels = [[r, rng.randrange(3), rng.randrange(3)]
            for r in sorted(relworld.REL)
            for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    return {'reset': rng.maybe(.4), 'warm': rng.maybe(.5), 'rels': rels,
            'base': rng.choice([1, 1, 0]),
            'ops': ops, 'faults': faults}


def relate(db, r, a, b, drop):
    left, right = relworld.REL[r]
    lone = relworld.FIELDS[left][0] == 'one'
    rone = relworld.FIELDS[right][0] == 'one'
    if drop:
        db.rel[r].discard((a, b))
        return
    if lone:
        db.rel[r] -= {p for p in db.rel[r] if p[0] == a}
    if rone:
        db.rel[r] -= {p for p in db.rel[r] if p[1] == b}
    db.rel[r].add((a, b))


def run(plan, sim):
    if sim is not None:
        sim.clock = Clock(tick=0)
    classes = CLS[(plan['reset'], 'warm' if plan['warm'] else 'cold')]
    db = DB(sim, classes)
    db.ask = ASK[(plan['reset'], 'warm' if plan['warm'] else 'cold')]
    DB.cur = db
    base = db.base = plan.get('base', 1)
    for c in 'UPF':
        for i in range(3):
            db.rows[c][i + base] = f'{c}{i + base}'
    for r, a, b in plan['rels']:
        relate(db, r, a + base, b + base, False)
    try:
        for op in plan['ops']:
            how = step(db, sim, plan, op)
            invariants(db, op)
            if sim is not None:
                sim.ev(op, how)
        # the end: saving everything writes only what the user changed
        if sim is not None:
            sim._faults.clear()
        rel = {r: set(v) for r, v in db.rel.items()}
        for o in list(db.made):
            save(db, o)
            invariants(db, ['final-save'])
        if rel != db.rel:
            raise Violation('relations-changed', '')
        for c in 'UPF':
            for i, v in db.rows[c].items():
                want = getattr(db, 'want', {}).get((c, i), f'{c}{i}')
                if v != want:
                    raise Violation('lost-write', f'{c}{i}: {v}')
    finally:
        DB.cur = None


def c_of(o):
    return NAMES[type(o).__name__]


def pick(db, k):
    return db.made[k % len(db.made)] if db.made else None


def changed(o):
    return getattr(o, '_dst_changed', set())


def snapshot(db):
    out = []
    for o in db.made:
        for c, f in FIELDS:
            if c == c_of(o):
                v = getattr(o, f)
                out.append((id(o), f, [id(x) for x in v]
                            if isinstance(v, list) else id(v)))
        for r, key in relworld.KEYS.items():
            if relworld.REL[r][0][0] == c_of(o):
                v = getattr(o, key)
                out.append((id(o), key, list(v) if isinstance(v, list)
                            else v))
        out.append((id(o), 'scalar', getattr(o, SCALAR[c_of(o)])))
    return out


def step(db, sim, plan, op):
    kind, x, y, z = op
    if kind in ('load', 'partial') or not db.made:
        c, i = 'UPF'[x % 3], db.base + y % 3
        o = db.load(c, i, [] if kind == 'partial' else None)
        return 'ok'
    o = pick(db, x)
    c = c_of(o)
    if kind == 'scalar':
        o._dst_changed = {SCALAR[c]}
        if not hasattr(o, '_dst_prev'):
            o._dst_prev = getattr(o, SCALAR[c])
        setattr(o, SCALAR[c], f'new{z}.{len(db.writes)}.{x}.{y}')
        return 'ok'
    if kind == 'extern':
        rs = sorted(relworld.REL)
        relate(db, rs[y % len(rs)], db.base + z % 3,
               db.base + (z // 3) % 3, z % 4 == 0)
        if sim is not None:
            sim.fault('other-process', 'change')
        return 'ok'
    if kind == 'save':
        try:
            save(db, o)
        except InjectedFault:
            return 'fault'
        return 'ok'
    if kind == 'reset':
        if not plan['reset']:
            return 'skip'
        prev = getattr(o, '_dst_prev', None) if changed(o) else \
            getattr(o, SCALAR[c])
        before = [s for s in snapshot(db) if s[1] != 'scalar']
        o.reset()
        if getattr(o, SCALAR[c]) != prev and not o.is_partial and \
                changed(o):
            raise Violation('reset-wrong', f'{getattr(o, SCALAR[c])!r} '
                            f'expected {prev!r}')
        if [s for s in snapshot(db) if s[1] != 'scalar'] != before:
            raise Violation('reset-undid-fetch', 'fetched objects are gone '
                            'after a reset')
        o._dst_changed = set()
        if hasattr(o, '_dst_prev'):
            del o._dst_prev
        return 'ok'
    if kind == 'complete':
        was = getattr(o, SCALAR[c])
        try:
            o.complete()
        except InjectedFault:
            return 'fault'
        if o.is_partial:
            raise Violation('still-partial', '')
        v = getattr(o, SCALAR[c])
        if changed(o) and v != was:
            raise Violation('change-lost', f'{was!r} became {v!r}')
        return 'ok'
    if kind == 'cross':
        return cross(db, y, z)
    if kind == 'fobj':
        fs = [f for cc, f in FIELDS if cc == c and
              relworld.FIELDS[(cc, f)][0] == 'one']
        return fobj(db, sim, o, fs[y % len(fs)], z)
    if kind == 'both':
        # from the other side as well
        fs = [f for cc, f in FIELDS if cc == c]
        f = fs[y % len(fs)]
        how = include(db, sim, o, f)
        v = getattr(o, f)
        o2 = (v[z % len(v)] if v else None) if isinstance(v, list) else v
        if how == 'ok' and o2 is not None:
            kind_, r, side = relworld.FIELDS[(c, f)]
            return include(db, sim, o2, relworld.REL[r][1 - side][1])
        return how
    fs = [f for cc, f in FIELDS if cc == c]
    f = fs[y % len(fs)]
    how = include(db, sim, o, f)
    if kind == 'again':
        how = include(db, sim, o, f)
    return how


def cross(db, y, z):
    """The object another class has for a value, and nothing else."""
    from jsonclasses.excs import ValidationException
    c, name = (('U', 'found'), ('P', 'found_post'))[z % 2]
    ask = db.ask(no=y % 5)
    before = snapshot(db)
    n = len(db.made)
    try:
        got = getattr(ask, name)
    except (InjectedFault, ValidationException) as e:
        del db.made[n:]
        if snapshot(db) != before:
            raise Violation('failed-fetch-changed', f'{name}: {e!r}')
        if isinstance(e, ValidationException) and ask.no in db.rows[c]:
            raise Violation('not-found', f'{name} {ask.no}')
        return 'fault' if isinstance(e, InjectedFault) else 'none'
    if ask.no not in db.rows[c] or got is None or c_of(got) != c or \
            got.id != ask.no:
        raise Violation('wrong-objects', f'{name} of {ask.no} is {got!r}')
    if snapshot(db)[:len(before)] != before:
        raise Violation('fetch-changed', f'{name}')
    db.made[n:] = [m for m in db.made[n:] if m is got]
    return 'ok'


def fobj(db, sim, o, f, z):
    """A rule asks for the object at a field, it is fetched if needed."""
    ask = db.ask()
    ask.target, ask.fname = o, f
    name = 'got_boss' if f == 'boss' and z % 2 else 'got'
    held = getattr(o, f)
    if held is not None:
        before = snapshot(db)
        got = getattr(ask, name)
        if got is not held or snapshot(db) != before:
            raise Violation('held-not-used', f'{c_of(o)}.{f}')
        return 'held'
    out = []
    how = include(db, sim, o, f, lambda: out.append(getattr(ask, name)))
    if how == 'ok' and out[0] is not getattr(o, f):
        raise Violation('wrong-objects', f'{c_of(o)}.{f}: {out[0]!r} was '
                        'given, not the object at the field')
    return how


def include(db, sim, o, f, fetch=None):
    c = c_of(o)
    kind, r, side = relworld.FIELDS[(c, f)]
    before = snapshot(db)
    n = len(db.made)
    # a local key held in memory decides, whatever the database says now
    if side == 0 and r in relworld.KEYS:
        k = getattr(o, relworld.KEYS[r])
        ids = sorted(k or []) if kind == 'many' else \
            ([] if k is None else [k])
    else:
        ids = db.related(c, o.id, f)
    held = {(c_of(x), x.id): x for x in reachable(o)}
    try:
        if fetch is not None:
            fetch()
        else:
            o.include(f)
    except (InjectedFault, NotFound) as e:
        del db.made[n:]
        if snapshot(db) != before:
            raise Violation('failed-fetch-changed', f'{c}.{f}: {e!r} changed '
                            'objects')
        if isinstance(e, NotFound) and (ids or side == 0):
            raise Violation('not-found', f'{c}.{f} {ids}')
        return 'fault' if isinstance(e, InjectedFault) else 'none'
    v = getattr(o, f)
    items = (v or []) if kind == 'many' else ([] if v is None else [v])
    got = sorted(x.id for x in items)
    if got != ids:
        raise Violation('wrong-objects', f'{c}{o.id}.{f} has {got} after it '
                        f'was fetched, {ids} are stored')
    other = relworld.REL[r][1 - side]
    for x in items:
        back = getattr(x, other[1])
        if not (back is o or isinstance(back, list) and
                any(b is o for b in back)):
            raise Violation('one-sided', f'{c}{o.id}.{f}: the fetched object '
                            'does not refer back')
        h = held.get((c_of(x), x.id))
        if h is not None and h is not x:
            raise Violation('two-objects', f'{c}.{f}: {c_of(x)}{x.id} was '
                            'known, but another object represents it now')
    # objects that were read but stand for known ones are not used
    used = {id(x) for x in reachable(o)}
    db.made[n:] = [m for m in db.made[n:] if id(m) in used]
    if sim is not None:
        sim.state(c, f, len(ids), sorted(cc + ff for cc, ff in FIELDS
                                         if cc == c and getattr(o, ff)),
                  sorted(changed(o)))
    return 'ok'


def reachable(o):
    out, todo = [], [o]
    seen = set()
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        for c, f in FIELDS:
            if c == c_of(x):
                v = getattr(x, f)
                todo.extend(v) if isinstance(v, list) else todo.append(v)
    return out


def save(db, o):
    n = len(db.writes)
    pending = {id(x): x for x in reachable(o) if changed(x)}
    try:
        o.save()
    finally:
        for obj, c, i, mod, fields in db.writes[n:]:
            want = sorted(changed(obj))
            if fields != want or mod != bool(want):
                raise Violation('unwanted-write', f'{c}{i} written with '
                                f'{fields} modified, the user changed {want}')
    for obj, c, i, mod, fields in db.writes[n:]:
        if changed(obj):
            db.want = getattr(db, 'want', {})
            db.want[(c, i)] = getattr(obj, SCALAR[c])
        obj._dst_changed = set()
        if hasattr(obj, '_dst_prev'):
            del obj._dst_prev
    assert pending is not None


def invariants(db, op):
    for o in db.made:
        want = changed(o)
        if o.is_modified != bool(want) or set(o.modified_fields) != want:
            raise Violation('modified-by-fetch', f'{c_of(o)}{o.id}: '
                            f'{o.is_modified} {sorted(o.modified_fields)}, '
                            f'the user changed {sorted(want)}')
        if any(o.unlinked_objects.values()):
            raise Violation('unlinked-by-fetch', f'{c_of(o)}{o.id}: '
                            f'{sorted(k for k, v in o.unlinked_objects.items() if v)}')
        if not want and o.previous_values:
            raise Violation('previous-by-fetch', f'{o.previous_values}')
        if o.is_new:
            raise Violation('new-again', '')
