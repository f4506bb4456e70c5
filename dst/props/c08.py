"""C08: recorded times under clock jumps, skew, coarse clocks and time zones."""
from __future__ import annotations
import datetime as dt
import os
import time
from ..sim import Violation, InjectedFault, Clock
from ..seams import CUR, utc_from_us

ID = 'C08'
QUICK = 12000
THOROUGH = 500000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation, new/changed/clean objects in '
              'the graph, clock going forward/backward/standing, local '
              'offset, outcome)')
REAL = ['tscreated, tsupdated, umininterval, datetime modifiers', 'save and '
        'on-save processing', 'tojson and set of times']
STUB = ['clock (virtual, jumps and ticks chosen by the plan)',
        'host time zone', 'storage']
ASSUMPTIONS = ['times handed to the library without a time zone are UTC']

W = {}
UTC = dt.timezone.utc


def prepare():
    from jsonclasses import jsonclass, types

    def begin(obj, op):
        sim = CUR.sim
        if sim is not None and getattr(sim, 'world', None):
            sim.world.begin(obj)

    @jsonclass(class_graph='c08', on_create=begin, on_update=begin)
    class Note:
        id: int = types.int.primary.required
        title: str = types.str.required
        created_at: datetime = types.readonly.datetime.tscreated.required
        updated_at: datetime = types.readonly.datetime.tsupdated.required
        bumped: datetime = types.datetime.umininterval(
            dt.timedelta(seconds=10))
        due: datetime = types.datetime
        pages: list[Page] = types.listof('Page').linkedby('note')
        author: Author = types.objof('Author').linkto

    @jsonclass(class_graph='c08', on_create=begin, on_update=begin)
    class Page:
        id: int = types.int.primary.required
        title: str = types.str.required
        created_at: datetime = types.datetime.tscreated.required
        updated_at: datetime = types.datetime.tsupdated.required
        due: datetime = types.datetime
        note: Note = types.objof('Note').linkto

    @jsonclass(class_graph='c08', on_create=begin, on_update=begin)
    class Author:
        id: int = types.int.primary.required
        title: str = types.str.required
        created_at: datetime = types.readonly.datetime.tscreated.required
        updated_at: datetime = types.datetime.tsupdated.required
        due: Optional[datetime]
        notes: list[Note] = types.listof('Note').linkedby('author')

    def write(self):
        sim = CUR.sim
        if sim is not None and getattr(sim, 'world', None):
            sim.world.write(self)
        self._mark_unmodified()
    for c in (Note, Page, Author):
        c._database_write = write
        W[c.__name__] = c
    W['REFS'] = {'Note': ('pages', 'author'), 'Page': ('note',),
                 'Author': ('notes',)}
    run({'ops': [['new', 0, 0, 0], ['new', 1, 0, 0], ['new', 2, 0, 0],
                 ['link', 0, 0, 0], ['link', 1, 0, 0], ['save', 0, 0, 0],
                 ['json', 0, 0, 0]],
         'faults': [], 'start': 10 ** 15, 'tick': 1, 'offset': 0}, None)


KINDS = ('new', 'new', 'attr', 'attr', 'client', 'link', 'unlink', 'save',
         'save', 'save', 'bad', 'bump', 'load', 'json', 'advance', 'jump',
         'offset', 'due', 'validate')


def gen(rng):
    pool = list(KINDS) if rng.maybe(.5) else \
        rng.sample(KINDS, 6) + ['save', 'new']
    ops = [['new', rng.randrange(3), rng.randrange(8), 0]]
    for _ in range(rng.choice([4, 8, 14, 20])):
        ops.append([rng.choice(pool), rng.randrange(8), rng.randrange(8),
                    rng.randrange(60)])
    ops.append(['save', rng.randrange(4), 0, 0])
    tick = rng.choice([0, 1, 1, 137, 1000, 999_999, 1_000_000])
    start = rng.choice([1_600_000_000_000_000, 1_600_000_000_123_456,
                        1_599_999_999_999_999, 946_684_799_999_000,
                        1_709_251_199_500_000])
    faults = []
    if rng.maybe(.5):
        for _ in range(rng.choice([1, 2, 4])):
            if rng.maybe(.7):
                faults.append({'point': 'clock',
                               'n': int(2 ** (rng.random() * 6)) - 1,
                               'kind': 'jump', 'by': jump_us(rng)})
            else:
                faults.append({'point': 'store.write',
                               'n': rng.randrange(6), 'kind': 'error'})
    return {'ops': ops, 'faults': faults, 'start': start, 'tick': tick,
            'offset': rng.choice([0, 0, 3600, -18000, 20700, 50400])}


def jump_us(rng):
    s = rng.choice([1, 10, 59, 3600, 86400, 31_622_400])
    return rng.choice([1, -1]) * (s * 1_000_000 + rng.choice([0, 1, 250_000]))


class JumpClock(Clock):
    """A clock that is set forward or back in the middle of things."""

    def __init__(self, sim, start, tick, offset):
        super().__init__(start, tick, offset)
        self.sim = sim

    def read(self):
        f = self.sim.hit('clock') if self.sim is not None else None
        if f is not None:
            self.advance(f['by'])
        return super().read()


def host_zone(seconds):
    """What the C library of the host takes for local time."""
    s = abs(seconds)
    os.environ['TZ'] = f'SIM{"-" if seconds >= 0 else ""}' \
        f'{s // 3600}:{s % 3600 // 60:02d}'
    time.tzset()


class World:

    def __init__(self, sim, clock):
        self.sim = sim
        self.clock = clock
        self.objs = []
        self.rows = {}
        self.n = 0
        self.saved = 0
        self.cur = None

    def read_since(self, at):
        return self.clock.readings[at:]

    def is_reading(self, value, at):
        if not isinstance(value, dt.datetime):
            return False
        aware(value, 'a recorded time')
        return any(abs(value - utc_from_us(us)) <= dt.timedelta(
            microseconds=2) for us in set(self.read_since(at)))

    def reach(self, root):
        out, todo = [], [root]
        while todo:
            o = todo.pop(0)
            if o is None or any(o is x for x in out):
                continue
            out.append(o)
            for f in W['REFS'][type(o).__name__]:
                v = getattr(o, f)
                todo.extend(v) if isinstance(v, list) else todo.append(v)
        return out

    def begin(self, root):
        reached = self.reach(root)
        self.cur = dict(root=root, at=len(self.clock.readings), snap=[
            (o, o.is_new, o.is_modified, o.created_at, o.updated_at, o.due)
            for o in reached], reached=reached,
            others=[(o, o.created_at, o.updated_at) for o in self.objs
                    if all(o is not x for x in reached)])

    def judge(self, ok):
        cur = self.cur
        for o, new, mod, c, u, due in cur['snap']:
            who = f'{type(o).__name__}({o.id})'
            if o.created_at != c:
                raise Violation('created-time-changed',
                                f'{who}: {c} became {o.created_at}')
            if o.due != due:
                raise Violation('other-time-changed', who)
            if not (new or mod):
                if o.updated_at != u:
                    raise Violation('updated-time-changed', f'{who} was not '
                                    f'changed: {u} became {o.updated_at}')
            elif ok:
                if not self.is_reading(o.updated_at, cur['at']):
                    raise Violation('updated-time-wrong', f'{who} saved, but '
                                    f'updated_at {o.updated_at} (was {u}) is '
                                    'not the time of this save')
            elif o.updated_at != u and \
                    not self.is_reading(o.updated_at, cur['at']):
                raise Violation('updated-time-wrong', f'{who}: '
                                f'{o.updated_at}')
        for o, c, u in cur['others']:
            if o.created_at != c or o.updated_at != u:
                raise Violation('unreached-object-changed',
                                f'{type(o).__name__}({o.id})')

    def write(self, obj):
        self.judge(True)
        f = self.sim.hit('store.write') if self.sim is not None else None
        if f is not None:
            raise InjectedFault('store.write', f['n'], f['kind'])
        key = (type(obj).__name__, obj.id)
        row = self.rows.setdefault(key, {})
        names = ['title', 'created_at', 'updated_at', 'due', 'bumped'] \
            if obj.is_new else \
            [m.split('.')[0] for m in obj.persisted_modified_fields]
        for m in names:
            if hasattr(obj, m) and m in ('title', 'created_at', 'updated_at',
                                         'due', 'bumped'):
                row[m] = getattr(obj, m)
        if row['updated_at'] != obj.updated_at:
            raise Violation('stored-time-stale', f"{key}: stored "
                            f"{row['updated_at']}, object {obj.updated_at}")
        self.saved += 1


def aware(v, what):
    if v.tzinfo is None or v.utcoffset() != dt.timedelta(0):
        raise Violation('time-without-utc', f'{what}: {v!r}')


def run(plan, sim):
    try:
        host_zone(plan['offset'])
        run_in_zone(plan, sim)
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()


def run_in_zone(plan, sim):
    clock = JumpClock(sim, plan['start'], plan['tick'], plan['offset'])
    if sim is not None:
        sim.clock = clock
    w = World(sim, clock)
    if sim is not None:
        sim.world = w

    def pick(k, cls=None):
        c = [o for o in w.objs if cls is None or type(o).__name__ == cls]
        return c[k % len(c)] if c else None

    from jsonclasses.excs import ValidationException
    for op in plan['ops']:
        kind, x, y, z = op
        at = len(clock.readings)
        last = clock.us
        how = 'ok'
        if not w.objs:
            kind, x, y, z = 'new', x, y, z
        if kind == 'new':
            cls = ['Note', 'Page', 'Author'][x % 3]
            w.n += 1
            given = {}
            if cls == 'Page' and y % 3 == 1:
                given['created_at'] = utc_from_us(10 ** 15 + z * 1_000_000)
            if cls == 'Note' and y % 3 == 1:
                # readonly: a client cannot choose it
                given['created_at'] = '1999-01-01T00:00:00.000Z'
            o = W[cls](id=w.n, title='t', **given)
            w.objs.append(o)
            if sim is not None:
                if cls == 'Page' and given:
                    if o.created_at != given['created_at']:
                        raise Violation('given-time-lost', f'{o.created_at}')
                elif not w.is_reading(o.created_at, at):
                    raise Violation('created-time-wrong', f'{cls}: '
                                    f'{o.created_at}')
                if not w.is_reading(o.updated_at, at):
                    raise Violation('updated-time-wrong', f'new {cls}: '
                                    f'{o.updated_at!r}')
                # the two times can be compared
                o.updated_at >= o.created_at
        elif kind == 'attr':
            pick(x).title = f't{z}'
        elif kind == 'bad':
            pick(x).title = None
        elif kind == 'client':
            o = pick(x)
            was = (o.created_at, o.updated_at)
            o.set(createdAt='1990-01-01T00:00:00.000Z',
                  updatedAt='1991-01-01T00:00:00.000Z')
            now = (o.created_at, o.updated_at)
            ro = {'Note': (True, True), 'Page': (False, False),
                  'Author': (True, False)}[type(o).__name__]
            for r, a, b, y_ in zip(ro, was, now, (1990, 1991)):
                want = a if r else dt.datetime(y_, 1, 1, tzinfo=UTC)
                if b != want:
                    raise Violation('client-time', f'{b}, expected {want}')
        elif kind == 'due':
            due(w, pick(x), y, z)
        elif kind == 'link':
            n = pick(x, 'Note')
            if n is not None:
                if y % 2:
                    n.author = pick(z, 'Author')
                else:
                    p = pick(z, 'Page')
                    if p is not None:
                        p.note = n
        elif kind == 'unlink':
            n = pick(x, 'Note')
            if n is not None:
                if y % 2:
                    n.author = None
                elif n.pages:
                    n.pages.pop()
        elif kind == 'bump':
            n = pick(x, 'Note')
            if n is not None:
                if y % 6 == 5:
                    n.bumped = None
                else:
                    n.bumped = utc_from_us(clock.us + (z - 30) * 1_000_000)
        elif kind == 'load':
            load(w, x)
        elif kind == 'json':
            check_json(pick(x))
        elif kind == 'validate':
            validate(w, pick(x))
        elif kind == 'advance':
            clock.advance([1, 999, 1_000_000, 11_000_000, 86_400_000_000][
                x % 5] * (1 + z))
        elif kind == 'jump':
            clock.us += (1 if y % 2 else -1) * [1, 1_000_000, 3_600_000_000,
                                                 86_400_000_000][x % 4]
            if sim is not None:
                sim.fault('clock', 'jump-between')
        elif kind == 'offset':
            clock.local_offset = [0, 3600, -18000, 50400][x % 4]
            host_zone(clock.local_offset)
            if sim is not None:
                sim.fault('host', 'timezone-change')
        elif kind == 'save':
            how = save(w, sim, pick(x))
        if sim is not None:
            sim.ev(kind, x, y, z, how, clock.us)
            if kind in ('save', 'new', 'load', 'bump'):
                d = clock.us - last
                sim.state(kind, how, (d > 0) - (d < 0), clock.local_offset,
                          sorted((type(o).__name__, o.is_new, o.is_modified)
                                 for o in (w.reach(pick(x)) if pick(x)
                                           else [])))
    if sim is not None:
        sim.count('saves', w.saved)


def title_bad(o):
    return o.title is None and (o.is_new or 'title' in o.modified_fields)


def bump_bad(w, o):
    """Changed too early, compared with the persisted value."""
    if type(o).__name__ != 'Note' or o.is_new or \
            'bumped' not in o.modified_fields:
        return False
    old = w.rows.get(('Note', o.id), {}).get('bumped')
    if old is None or o.bumped is None:
        return False
    return o.bumped < old + dt.timedelta(seconds=10)


def validate(w, o):
    from jsonclasses.excs import ValidationException
    bad = any(title_bad(p) or bump_bad(w, p) for p in w.reach(o))
    try:
        o.validate()
        ok = True
    except ValidationException:
        ok = False
    if ok == bad:
        raise Violation('interval', f'validate said {ok}')


def save(w, sim, o):
    from jsonclasses.excs import ValidationException
    # unlinked objects are saved as well, each with its own links
    w.cur = None
    reach = w.reach(o)
    bad = any(title_bad(p) or bump_bad(w, p) for p in reach)
    early = any(bump_bad(w, p) for p in reach)
    try:
        o.save()
    except InjectedFault:
        return 'fault'
    except ValidationException as e:
        if w.cur is not None:
            w.judge(False)
        if not bad and w.cur['root'] is o:
            raise Violation('save-refused', f'{e.keypath_messages}')
        if sim is not None:
            sim.count('too_early', 1 if early else 0)
        return 'refused'
    if bad:
        raise Violation('interval', 'saved although '
                        + ('the time was changed too early' if early
                           else 'invalid'))
    return 'ok'


def load(w, k):
    """A fresh process loads the rows: nothing recorded may move, and what
    was not stored is gone."""
    w.objs = []
    for cls, i in sorted(w.rows):
        row = w.rows[(cls, i)]
        o = W[cls](id=i)
        for f, v in row.items():
            o.update(**{f: v})
        o._mark_unmodified()
        for f, v in row.items():
            if getattr(o, f) != v:
                raise Violation('loaded-time', f'{cls}({i}).{f}')
        w.objs.append(o)


def due(w, o, y, z):
    """A time handed in keeps its instant, whatever its zone."""
    us = w.clock.us + z * 1_000_000 - (w.clock.us % 1_000_000 if y % 2 else 0)
    t = utc_from_us(us - us % 1000)
    zone = dt.timezone(dt.timedelta(hours=[0, 8, -5][z % 3]))
    if y == 7:
        # a day begins at midnight UTC
        day = dt.date(t.year, t.month, t.day)
        t = dt.datetime(t.year, t.month, t.day, tzinfo=UTC)
        o.set(due=day)
    elif y == 6:
        # text without a zone is UTC, as in the output
        o.set(due=t.replace(tzinfo=None).isoformat())
    elif y % 4 == 0:
        o.set(due=t.strftime('%Y-%m-%dT%H:%M:%S.%f')[:23] + 'Z')
    elif y % 4 == 1:
        o.set(due=t.astimezone(zone).isoformat())
    elif y % 4 == 2:
        o.set(due=t.astimezone(zone))
    else:
        o.set(due=t)
    if o.due is None or o.due.tzinfo is None or o.due != t:
        raise Violation('instant-lost', f'{t} became {o.due!r} (form {y},'
                        f' zone {zone})')


def check_json(o):
    """Output is UTC with milliseconds, and reads back as the same instant."""
    j = o.tojson()
    for f, k in (('created_at', 'createdAt'), ('updated_at', 'updatedAt'),
                 ('due', 'due')):
        v = getattr(o, f)
        if v is None:
            continue
        u = v.astimezone(UTC)
        want = u.strftime('%Y-%m-%dT%H:%M:%S.%f')[:23] + 'Z'
        if j.get(k) != want:
            raise Violation('time-output', f'{k}: {v!r} is output as '
                            f'{j.get(k)!r}')
    c = type(o)(id=1, title='x')
    if o.due is not None:
        c.set(due=j['due'])
        if abs(c.due - o.due) >= dt.timedelta(milliseconds=1):
            raise Violation('time-roundtrip', f"{o.due} {j['due']} {c.due}")
