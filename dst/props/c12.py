"""C12: validation judges everything it is asked about, tells where, changes
nothing and is the same each time, with failing validators in between."""
from __future__ import annotations
from enum import Enum
from ..sim import Violation, InjectedFault, Clock
from ..seams import CUR

ID = 'C12'
QUICK = 12000
THOROUGH = 400000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation, reporting mode, which rules fail, '
              'object new/changed, faults fired, outcome)')
REAL = ['validate, is_valid, save', 'chained, collection, instance, union, '
        'oneisvalid, validate, required and present modifiers', 'ctx and mgraph',
        'change tracking of the validated objects']
STUB = ['validator callbacks (they may fail)', 'storage']
ASSUMPTIONS = ['linked objects in one graph have different primary keys']

W = {}
FAULTS = (InjectedFault, MemoryError, KeyboardInterrupt)


def asked(tag, v, ctx=None):
    """A validator of the application."""
    sim = CUR.sim
    w = getattr(sim, 'world', None) if sim else None
    if w is not None:
        w.asked.append((tag, v, ctx.owner if ctx else None,
                        ctx.root if ctx else None,
                        ctx.operator if ctx else None))
        sim.maybe_raise('cb.validate')
    if isinstance(v, str):
        if v.startswith('bad'):
            return False
        if v.startswith('msg'):
            return 'says ' + v
        if v.startswith('yes'):
            return True
    if isinstance(v, int) and v < 0:
        return False
    return None


class Color(Enum):
    RED = 1
    BLUE = 2


# what is configured for the classes of links and for those of parts
CONFS = {'one': (False, False), 'all': (True, True),
         'outer': (True, False), 'inner': (False, True)}


def prepare():
    from jsonclasses import jsonclass, jsonenum, types
    for fam, (conf, pconf) in CONFS.items():
        g = 'c12-' + fam
        deco = jsonclass(class_graph=g, validate_all_fields=conf)
        pdeco = jsonclass(class_graph=g, validate_all_fields=pconf)

        def f1(v):
            return asked('f1', v)

        def f2(v, ctx):
            return asked('f2', v, ctx)

        def f3(v, ctx):
            return asked('f3', v, ctx)

        def f4(v):
            return isinstance(v, str) and v.endswith('!')

        def low(owner):
            return 3 if owner.id.startswith('w') else 0

        def gate(op, owner):
            return type(owner).__name__ == 'PD' and owner.label != 'fine' \
                or 'not with this label'

        ns = {
            'id': types.str.primary.required,
            'label': types.str.minlength(2).required,
            'n': types.int.validate(f1),
            'kinds': types.listof(types.str.validate(f1)),
            'inner': types.objof('P'),
            't': types.str.validate(f2),
        }
        P = pdeco(type('P', (), {
            '__module__': __name__, '__annotations__': {
                'id': 'str', 'label': 'str', 'n': 'int', 'kinds': 'list[str]',
                'inner': 'P', 't': 'str'}, **ns}))
        PD = pdeco(type('PD', (P,), {
            '__module__': __name__, '__annotations__': {
                'more': 'str', 'lock': 'str'},
            'more': types.str.minlength(2),
            'lock': types.str.canw(gate)}))
        # a class of another graph that has the same name
        Q = jsonclass(class_graph=g + 'x', validate_all_fields=pconf)(
            type('P', (), {
                '__module__': __name__, '__annotations__': {
                    'id': 'str', 'label': 'str', 'n': 'int'},
                'id': types.str.primary.required,
                'label': types.str.minlength(2).required,
                'n': types.int.validate(f1)}))
        ns = {
            'id': types.str.primary.required,
            'full_name': types.str.minlength(2).maxlength(6).required,
            'num': types.int.range(0, 10),
            'floor': types.int.min(low),
            'cb': types.str.validate(f1).maxlength(20),
            'cb2': types.str.validate(f2),
            'own': types.str.vmsg(f3, 'own message'),
            'sub': types.str.vmsg(types.minlength(3), 'too short'),
            'either': types.str.oneisvalid([types.str.minlength(4), f4]),
            'tags': types.listof(types.str.minlength(2).required),
            'opt_tags': types.listof(types.str.validate(f1)).maxlength(3),
            'nums': types.dictof(types.int.min(0)),
            'deep': types.listof(types.dictof(
                types.listof(types.int.max(9).required))),
            'uni': types.union([types.int.min(5), types.str.minlength(3)]),
            'color': types.enum(Color),
            'aa': types.str,
            'bb': types.str.presentwith('aa'),
            'cc': types.str.presentwithout(['aa', 'bb']),
            'part': types.objof('P'),
            'parts': types.listof('P'),
            'by_key': types.dictof('P'),
            'boss': types.objof('V').linkto,
            'team': types.listof('V').linkedby('boss'),
            'need': types.objof('N').linkto.required,
            'wants': types.listof('N').linkto.required,
            'other': types.objof(Q),
            'mix': types.union([types.str.minlength(3), types.objof('P'),
                                types.objof('PD')]),
            'mixes': types.listof(types.union([types.objof('PD'),
                                               types.objof('P')])),
        }
        ann = {k: 'str' for k in ns}
        ann.update(num='int', floor='int', tags='list[str]',
                   opt_tags='list[str]', nums='dict[str, int]',
                   deep='list[dict[str, list[int]]]', uni='str | int',
                   color='Color', part='P', parts='list[P]',
                   by_key='dict[str, P]', boss='V', team='list[V]', need='N', other='Any',
                   wants='list[N]',
                   mix='Any', mixes='list[Any]')
        V = deco(type('V', (), {'__module__': __name__,
                                '__annotations__': ann, **ns}))
        ns = {'id': types.str.primary.required,
              'title': types.str.minlength(2).required.validate(f2),
              'users': types.listof('V').linkedby('need')}
        N = deco(type('N', (), {'__module__': __name__, '__annotations__': {
            'id': 'str', 'title': 'str', 'users': 'list[V]'}, **ns}))

        def write(self):
            CUR.sim.world.written.append(self)
            self._mark_unmodified()
        for c in (V, P, N, Q, PD):
            c._database_write = write
        W[fam] = {'V': V, 'P': P, 'N': N, 'Q': Q, 'PD': PD}
    for fam in W:
        # first use outside of any run
        c = W[fam]
        n = c['N'](id='n', title='tt')
        c['V'](id='v', full_name='abc', cc='x', need=n, part={
            'id': 'p', 'label': 'll'}).validate(all_fields=True)


# ------------------------------------------------------------ reference model

def text(v, lo=0, hi=10 ** 6):
    return type(v) is str and lo <= len(v) <= hi


def cb_fails(v):
    return isinstance(v, str) and v.startswith(('bad', 'msg')) or \
        type(v) is int and v < 0


def each(v, typ, rule):
    """Failing sub paths of a list or dict."""
    if v is None:
        return []
    if not isinstance(v, typ):
        return ['']
    items = enumerate(v) if typ is list else v.items()
    return [f'.{k}{s}' for k, x in items
            for s in (rule(x) if x is not None else [''])]


def plainly(ok):
    return [] if ok else ['']


def instance(cls):
    return lambda x: plainly(x is None or isinstance(x, cls))


RULES = {
    'V': {
        'id': lambda o, v, c: plainly(text(v)),
        'full_name': lambda o, v, c: plainly(text(v, 2, 6)),
        'num': lambda o, v, c: plainly(v is None or type(v) is int
                                       and 0 <= v <= 10),
        'floor': lambda o, v, c: plainly(v is None or type(v) is int and v >= (
            3 if o.id.startswith('w') else 0)),
        'cb': lambda o, v, c: plainly(v is None or text(v, 0, 20)
                                      and not cb_fails(v)),
        'cb2': lambda o, v, c: plainly(v is None or text(v)
                                       and not cb_fails(v)),
        'own': lambda o, v, c: plainly(v is None or text(v)
                                       and not cb_fails(v)),
        'sub': lambda o, v, c: plainly(v is None or text(v, 3)),
        'either': lambda o, v, c: plainly(v is None or text(v) and (
            len(v) >= 4 or v.endswith('!'))),
        'tags': lambda o, v, c: each(v, list, lambda x: plainly(text(x, 2))),
        'opt_tags': lambda o, v, c: each(v, list, lambda x: plainly(
            text(x) and not cb_fails(x))) + (
            [''] if isinstance(v, list) and len(v) > 3 else []),
        'nums': lambda o, v, c: each(v, dict, lambda x: plainly(
            type(x) is int and x >= 0)),
        'deep': lambda o, v, c: each(v, list, lambda d: each(
            d, dict, lambda e: each(e, list, lambda x: plainly(
                type(x) is int and x <= 9)))),
        'uni': lambda o, v, c: plainly(v is None or type(v) is int and v >= 5
                                       or text(v, 3)),
        'color': lambda o, v, c: plainly(v is None or isinstance(v, Color)),
        'aa': lambda o, v, c: plainly(v is None or text(v)),
        'bb': lambda o, v, c: plainly(text(v) if v is not None
                                      else o.aa is None),
        'cc': lambda o, v, c: plainly(text(v) if v is not None
                                      else o.aa is not None
                                      or o.bb is not None),
        'part': lambda o, v, c: instance(c['P'])(v),
        'parts': lambda o, v, c: each(v, list, instance(c['P'])),
        'by_key': lambda o, v, c: each(v, dict, instance(c['P'])),
        'boss': lambda o, v, c: instance(c['V'])(v),
        'team': lambda o, v, c: each(v, list, instance(c['V'])),
        'need': lambda o, v, c: plainly(o.need_id is not None if v is None
                                        else isinstance(v, c['N'])),
        'wants': lambda o, v, c: each(v, list, instance(c['N'])),
        'other': lambda o, v, c: instance(c['Q'])(v),
        # (objects in here: see walk)
        'mix': lambda o, v, c: plainly(v is None or text(v, 3)
                                       or isinstance(v, c['P'])),
        'mixes': lambda o, v, c: each(v, list, instance(c['P'])),
    },
    'P': {
        'id': lambda o, v, c: plainly(text(v)),
        'label': lambda o, v, c: plainly(text(v, 2)),
        'n': lambda o, v, c: plainly(v is None or type(v) is int and v >= 0),
        'kinds': lambda o, v, c: each(v, list, lambda x: plainly(
            text(x) and not cb_fails(x))),
        'inner': lambda o, v, c: instance(c['P'])(v),
        't': lambda o, v, c: plainly(v is None or text(v)
                                     and not cb_fails(v)),
    },
    'N': {
        'id': lambda o, v, c: plainly(text(v)),
        'title': lambda o, v, c: plainly(text(v, 2) and not cb_fails(v)),
        'users': lambda o, v, c: each(v, list, instance(c['V'])),
    },
}
RULES['Q'] = {f: RULES['P'][f] for f in ('id', 'label', 'n')}
RULES['PD'] = {**RULES['P'], 'more': lambda o, v, c: plainly(
    v is None or text(v, 2)), 'lock': lambda o, v, c: plainly(
    OPERATOR[0] is not None and o.label != 'fine'
    and (v is None or text(v)))}
# who acts on the object that is judged
OPERATOR = [None]
REFS = {'boss', 'team', 'need', 'users', 'wants'}
FOLLOW = {'V': ('part', 'parts', 'by_key', 'boss', 'team', 'need',
                'wants', 'other'),
          'P': ('inner',), 'PD': ('inner',), 'N': ('users',), 'Q': ()}
ASKS = {'V': {'cb': 'f1', 'cb2': 'f2', 'own': 'f3'}, 'P': {'n': 'f1', 't': 'f2'},
        'PD': {'n': 'f1', 't': 'f2'}, 'Q': {'n': 'f1'},
        'N': {'title': 'f2'}}


def kind_of(o):
    name = type(o).__name__
    if name == 'P' and any(type(o) is c['Q'] for c in W.values()):
        return 'Q'
    return name


def considered(o):
    """Fields that are judged: all of a new object, the changed ones and the
    links of a persisted one."""
    names = list(RULES[kind_of(o)])
    if o.is_new:
        return names
    mod = {m.split('.')[0] for m in o.modified_fields}
    return [n for n in names if n in REFS or n in mod]


def walk(o, c, bad, seen, tried):
    """Judge `o` and what it leads to, each object once, in the order of the
    fields.  bad: {(id of object, sub path): object}; seen: the objects that
    were judged; tried: those judged for a union that then refused them."""
    seen.append(o)
    for f in considered(o):
        v = getattr(o, f)
        for s in RULES[kind_of(o)][f](o, v, c):
            bad[(id(o), f + s)] = o
        vs = list(enumerate(v)) if isinstance(v, list) else \
            list(v.items()) if isinstance(v, dict) else [(None, v)]
        for k, x in vs:
            if type(x) not in c.values() or any(x is y for y in seen):
                continue
            if f in UNIONS and isinstance(x, c['P']):
                sub, mine = {}, list(seen)
                walk(x, c, sub, mine, tried)
                if sub:
                    tried.extend(y for y in mine
                                 if not any(y is z for z in seen))
                    bad[(id(o), f if k is None else f'{f}.{k}')] = o
                else:
                    seen[:] = mine
            elif f in FOLLOW[kind_of(o)] and isinstance(x, target(c, f)):
                walk(x, c, bad, seen, tried)


UNIONS = ('mix', 'mixes')


def target(c, f):
    return c['V'] if f in ('boss', 'team', 'users') else \
        c['N'] if f in ('need', 'wants') else c['Q'] if f == 'other' else c['P']


def camel(f):
    a, *b = f.split('_')
    return a + ''.join(x.title() for x in b)


def failing(root, c):
    """{(id of object, sub path)} that is wrong."""
    bad = {}
    walk(root, c, bad, [], [])
    return bad


def resolve(root, path, c):
    """The object and field a reported key path names."""
    o, rest = root, path.split('.')
    while True:
        names = {camel(f): f for f in RULES[kind_of(o)]}
        if rest[0] not in names:
            return None
        f = names[rest[0]]
        v, used = getattr(o, f), 1
        while used < len(rest) and isinstance(v, (list, dict)):
            k = rest[used]
            try:
                v = v[int(k)] if isinstance(v, list) else v[k]
            except (ValueError, LookupError):
                return None
            used += 1
        if used == len(rest):
            return id(o), '.'.join([f] + rest[1:])
        if f not in FOLLOW[kind_of(o)] or type(v) not in c.values():
            return None
        o, rest = v, rest[used:]


def snap(objs):
    out = []
    for o in objs:
        d = {}
        for f in RULES[kind_of(o)]:
            d[f] = flat(getattr(o, f))
        out.append([d, o.is_new, o.is_modified, sorted(o.modified_fields),
                    id(o._operator)])
    return out


def flat(v):
    if isinstance(v, list):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return {k: flat(x) for k, x in v.items()}
    if hasattr(v, '__is_jsonclass__'):
        return ('object', id(v))
    return (type(v).__name__, v)


# ---------------------------------------------------------------------- runs

VALUES = {
    'full_name': ['abc', 'a', 'toolongname', None, 5, 'ok', 'abcdef'],
    'num': [0, 10, 11, -1, None, 'x', 5, True],
    'floor': [0, 2, 3, 9, None, -1],
    'cb': ['fine', 'bad', 'msg 1', 'yes', None, 3, 'msg' + 'x' * 30],
    'cb2': ['fine', 'bad 2', 'msg 2', None, 'yes', 'ok'],
    'own': ['fine', 'bad 3', 'msg 3', None, 'yes'],
    'sub': ['abc', 'ab', None, 4, ''],
    'either': ['long enough', 'ab', 'a!', None, 7],
    'tags': [['ab', 'cd'], ['a', 'bc', 'd'], [None], [], None, 'text',
             ['ok', 5, 'x'], '', {}],
    'opt_tags': [['fine', None], ['bad', 'ok', 'msg t'], ['a', 'b', 'c', 'd'],
                 None, [], ['bad', 'b', 'c', 'msg d'], '', 0],
    'nums': [{'a': 1}, {'a': -1, 'b_c': 2, 'd_e': -3}, {}, None, {'k': None},
             [1], {'z': 'text'}, [], ''],
    'deep': [[{'a': [1, 2]}], [{'a': [1, 10], 'b': [9]}, {'c': [11]}],
             [{'a': [None]}], [{'a': 5}], [5], None, [None], [{}, {'x': None}], '',
             [[]], [{'a': ''}]],
    'uni': [5, 4, 'abc', 'ab', None, 2.5, True],
    'color': [Color.RED, None, 'RED', 1, Color.BLUE],
    'aa': ['x', None, None, 3],
    'bb': ['x', None, 3],
    'cc': ['x', None, 'y', 3],
    'label': ['ok', 'x', None, 'fine', 4],
    'n': [1, -1, None, 0, 'x', -5],
    'kinds': [['ok'], ['bad', 'ok', 'msg k'], None, [None, 3], [], ''],
    't': ['fine', 'bad t', None, 'msg t', 'yes'],
    'more': ['ok', 'x', None],
    'lock': ['a', 5, None, 'b'],
    'title': ['ok', 'x', 'bad title', 'msg title', None, 'fine'],
}
KINDS = ('set', 'set', 'set', 'set', 'fix', 'item', 'item', 'link', 'link',
         'part', 'part', 'pset', 'pset', 'title', 'need', 'wrong',
         'validate', 'validate', 'validate', 'all', 'all', 'all', 'one', 'one',
         'valid', 'save', 'save', 'op')


def gen(rng):
    ops = [['new', rng.randrange(20), 0, 0], ['new', rng.randrange(20), 0, 0]]
    if rng.maybe(.4):
        ops.append(['new', rng.randrange(20), 0, 0])
    for _ in range(rng.choice([4, 8, 14, 24])):
        ops.append([rng.choice(KINDS), rng.randrange(20), rng.randrange(30),
                    rng.randrange(30)])
    faults = []
    if rng.maybe(.35):
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults.append({'point': 'cb.validate', 'n': rng.randrange(16),
                           'kind': rng.choice(['error', 'memory',
                                               'interrupt'])})
    return {'ops': ops, 'faults': faults,
            'family': rng.choice(['one', 'all', 'one', 'all', 'outer',
                                  'inner']),
            # embedded parts may be versions of the same thing
            'keys': rng.choice([0, 0, 1, 2]), 'op': rng.maybe(.5)}


class World:
    def __init__(self, plan, sim):
        self.sim = sim
        self.c = W[plan['family']]
        self.conf, self.pconf = CONFS[plan['family']]
        self.keys = plan.get('keys', 0)
        self.op = plan.get('op')
        self.vs = []
        self.ns = [self.c['N'](id=f'n{i}', title='title') for i in range(2)]
        self.ps = []
        self.asked = []
        self.written = []
        self.serial = 0

    def everything(self):
        return self.vs + self.ns + self.ps

    def new(self, x):
        i = len(self.vs)
        o = self.c['V'](id=('w' if x % 3 == 0 else 'v') + str(i),
                        full_name='name', cc='c')
        o.need = self.ns[x % 2]
        if self.op:
            o.opby(self.ns[0])
        self.vs.append(o)
        return o

    def new_part(self, cls='P'):
        i = len(self.ps) % self.keys if self.keys else len(self.ps)
        p = self.c[cls](id=f'p{i}', label='label')
        self.ps.append(p)
        return p

    def change(self, op):
        kind, x, y, z = op
        o = self.vs[x % len(self.vs)]
        if kind in ('set', 'fix'):
            fs = [f for f in VALUES if f in RULES['V']]
            f = fs[y % len(fs)]
            v = VALUES[f][0 if kind == 'fix' else z % len(VALUES[f])]
            setattr(o, f, copy(v))
        elif kind == 'item':
            f = ('tags', 'opt_tags', 'nums', 'deep')[y % 4]
            v = getattr(o, f)
            if isinstance(v, list) and f != 'deep':
                v.append(['fine', 'x', 'bad item', None][z % 4])
            elif isinstance(v, dict):
                v[f'k{z % 3}'] = [1, -2, None, 'x'][z // 3 % 4]
            elif isinstance(v, list) and v and isinstance(v[0], dict):
                v[0][f'k{z % 2}'] = [[1], [10], None][z // 2 % 3]
        elif kind == 'link':
            p = self.vs[y % len(self.vs)]
            if z % 4 == 0:
                o.boss = None
            elif z % 4 == 1 and o.team is None:
                o.team = [p]
            elif z % 4 == 1 and not any(p is t for t in o.team):
                o.team.append(p)
            else:
                o.boss = p
        elif kind == 'part':
            p = self.ps[y % len(self.ps)] if self.ps and z % 2 \
                else self.new_part()
            how = z // 2 % 9
            if how > 5 and kind_of(p) != 'Q':
                if z % 5 == 0:
                    p = self.new_part('PD')
                if how == 6:
                    o.mix = p
                elif how == 7:
                    o.mixes = (list(o.mixes or []) + [p])[-3:]
                    if y % 2:
                        o.mix = p
                    if y % 3 and p.t is None:
                        p.t = VALUES['t'][z % 5]
                else:
                    o.mix = [None, 'ab', 'abc', 5][z % 4]
                return
            if how == 5:
                o.other = p if kind_of(p) == 'Q' else self.new_part('Q')
            elif kind_of(p) == 'Q':
                o.other = None
            elif how == 0:
                o.part = p
            elif how == 1:
                o.parts = (list(o.parts or []) + [p])[-3:]
            elif how == 2:
                o.by_key = {**(o.by_key or {}), f'k_{z % 3}': p}
            elif how == 3:
                o.part = None
            elif self.ps[0] is not p and kind_of(self.ps[0]) != 'Q':
                self.ps[0].inner = p
        elif kind == 'pset':
            if self.ps:
                p = self.ps[x % len(self.ps)]
                f = ('label', 'n', 'kinds', 't', 'more', 'lock')[y % {
                    'P': 4, 'PD': 6, 'Q': 2}[kind_of(p)]]
                setattr(p, f, copy(VALUES[f][z % len(VALUES[f])]))
        elif kind == 'title':
            self.ns[x % 2].title = VALUES['title'][y % 6]
        elif kind == 'need':
            if y > 17:
                # None, or a list that is a new one
                o.wants = [None, [self.ns[0]], [], [self.ns[1], self.ns[0]],
                           [self.ns[1]]][z % 5]
            elif y % 3 == 0:
                o.need = None
            elif y % 3 == 1:
                o.need_id = 'elsewhere'
            else:
                o.need = self.ns[z % 2]
        elif kind == 'wrong':
            # something of a wrong kind where an object belongs
            w = [self.ns[0], 'text', 5, o][y % 4]
            how = z % 6
            if how == 4:
                # items which cannot be linked
                v = [None, *([w] if w is not o else []), 'text'][
                    z % 2:1 + z % 3 or None]
                if y % 3 == 0:
                    o.wants = [x for x in v if x is not self.ns[0]]
                elif o.team is not None and y % 3 == 1:
                    o.team.extend(v)
                else:
                    o.team = v
            elif how == 5:
                o.boss = self.ns[1]
            elif how == 0:
                o.part = w
            elif how == 1:
                o.parts = [w]
            elif how == 2:
                o.boss = ['text', 5][y % 2]
            else:
                o.by_key = {'w': w}
        elif kind == 'op':
            o.opby([None, self.ns[0], 'someone'][y % 3])

    def judge(self, op):
        from jsonclasses.excs import ValidationException
        sim = self.sim
        kind, x, y, z = op
        pool = self.vs + self.ns if y % 5 == 4 else self.vs
        o = pool[x % len(pool)]
        bad, objs, tried = {}, [], []
        OPERATOR[0] = o._operator
        walk(o, self.c, bad, objs, tried)
        self.tried = tried
        alls = {'all': True, 'one': False, 'valid': False}.get(
            kind, (True if z % 2 else None) if kind == 'save' else None)
        full = self.conf if alls is None else alls
        mixed = alls is None and self.conf != self.pconf
        before = snap(self.everything())
        self.asked.clear()
        self.written.clear()
        msgs = None
        fault = False
        try:
            if kind == 'validate':
                r = o.validate()
            elif kind == 'all':
                r = o.validate(all_fields=True)
            elif kind == 'one':
                r = o.validate(all_fields=False)
            elif kind == 'save':
                r = o.save(validate_all_fields=alls)
            else:
                r = None
                msgs = None if o.is_valid else {}
            if kind != 'valid' and r is not o:
                raise Violation('wrong-result', f'{kind} returned {r!r}')
        except ValidationException as e:
            msgs = e.keypath_messages
            if kind == 'save' and any(e.root is x for x in self.everything()):
                if e.root is not o:
                    # saving goes on with objects it was unlinked from (C04)
                    OPERATOR[0] = e.root._operator
                    if not failing(e.root, self.c):
                        raise Violation('refused', f'{e.root.id}: {msgs}')
                    return 'other', bad
            if e.root is not o:
                raise Violation('wrong-result', 'the error names another root')
        except FAULTS:
            fault = True
        out = 'fault' if fault else 'valid' if msgs is None else 'invalid'
        # nothing has changed by it (but a save that went through)
        if kind == 'save' and fault and self.written:
            return 'other', bad         # an object it was unlinked from
        if kind == 'save' and out == 'valid':
            if not any(w is o for w in self.written):
                raise Violation('not-written', 'a valid object')
        else:
            if self.written:
                raise Violation('written', f'although {out}')
            after = snap(self.everything())
            if after != before:
                d = [(a, b) for a, b in zip(before, after) if a != b][0]
                raise Violation('changed', f'{kind} changed {d}'[:700])
        if fault:
            self.fault_seen = True
        elif out == 'valid' and bad:
            raise Violation('accepted', f'{kind}: {self.names(bad)}')
        elif out == 'invalid' and not bad:
            raise Violation('refused', f'{kind}: {msgs}')
        elif out == 'invalid' and kind != 'valid':
            got = {}
            for path, msg in msgs.items():
                at = resolve(o, path, self.c)
                if at is None or at not in bad:
                    raise Violation('wrong-place', f'{kind}: {path!r}: '
                                    f'{msg!r}; wrong are {self.names(bad)}')
                if at in got:
                    raise Violation('reported-twice', f'{path}')
                if not isinstance(msg, str) or not msg:
                    raise Violation('no-message', path)
                got[at] = msg
            if mixed:
                self.by_class(o, got, bad)
            elif full and set(got) != set(bad):
                # one field may have several faults: all of them are told
                # when asked for, at least one otherwise
                told = {(i, p.split('.')[0]) for i, p in got}
                miss = {k: bad[k] for k in bad if k not in got and (
                    alls or (k[0], k[1].split('.')[0]) not in told)}
                if miss:
                    raise Violation('not-reported', self.names(miss))
            if not full and not mixed and len(got) != 1:
                raise Violation('too-many', f'{msgs}')
            self.messages(got, bad)
        self.callbacks(o, objs, bad, full and not mixed, fault, kind)
        return out, bad

    def by_class(self, root, got, bad):
        """Each class tells one fault or all, as it is configured."""
        told = {(i, p.split('.')[0]) for i, p in got}
        objs = {id(o): o for o in [root, *bad.values()]}
        for i, o in objs.items():
            mine = [p for j, p in got if j == i]
            if self.conf if kind_of(o) in 'VN' else self.pconf:
                if not mine and o is not root:
                    continue        # may not have been reached
                miss = {k: bad[k] for k in bad if k[0] == i
                        and (i, k[1].split('.')[0]) not in told}
                if miss:
                    raise Violation('not-reported', self.names(miss))
            elif len(mine) > 1:
                raise Violation('too-many', f'{o.id}: {mine}')

    def messages(self, got, bad):
        """Messages of the application's own."""
        for (_, path), msg in got.items():
            o = bad[(_, path)]
            f = path.split('.')[0]
            v = getattr(o, f)
            if path in ('cb2', 'title', 't') and isinstance(v, str) and \
                    len(v) >= 2 and v.startswith('msg') and \
                    msg != 'says ' + v:
                raise Violation('wrong-message', f'{path}={v!r}: {msg!r}')
            if path == 'own' and type(v) is str and msg != 'own message':
                raise Violation('wrong-message', f'{path}={v!r}: {msg!r}')
            if path == 'sub' and type(v) is str and msg != 'too short':
                raise Violation('wrong-message', f'{path}={v!r}: {msg!r}')

    def names(self, bad):
        return str(sorted(f'{o.id}.{p}={getattr(o, p.split(".")[0])!r}'[:80]
                          for (_, p), o in bad.items()))[:600]

    def callbacks(self, root, objs, bad, full, fault, kind):
        """Each validator is asked about each value once, in the context of
        the object the value belongs to."""
        want = []
        if kind == 'save':
            return      # a save has other stages: see C13
        for o in objs:
            fs = considered(o)
            for f, tag in ASKS[kind_of(o)].items():
                v = getattr(o, f)
                if f in fs and v is not None:
                    want.append((tag, v, o if tag != 'f1' else None,
                                 (id(o), f) in bad))
        have = [(t, v, ow) for t, v, ow, r, op in self.asked]
        for t, v, ow, r, op in self.asked:
            if r is not None and r is not root:
                raise Violation('wrong-context', f'{t}({v!r}): root {r.id}')
            if ow is not None and op is not root._operator:
                raise Violation('wrong-context', f'{t}({v!r}): operator {op}')
        left = list(want)
        for h in have:
            if h[0] == 'f1':
                continue
            m = next((i for i, w in enumerate(left) if w[0] == h[0]
                      and w[1] == h[1] and w[2] is h[2]), None)
            if m is None and any(h[2] is t for t in self.tried):
                continue
            if m is None:
                raise Violation('asked-wrongly', f'{h[0]}({h[1]!r}) of '
                                f'{h[2].id if h[2] else None}')
            left.pop(m)
        if full and not fault:
            # a wrong value may be refused before it is asked about
            left = [w for w in left if w[0] != 'f1' and not w[3]]
            if left:
                raise Violation('not-asked', f'{left[0][0]}({left[0][1]!r})')


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


def run(plan, sim):
    sim.clock = Clock(tick=0)
    w = sim.world = World(plan, sim)
    for op in plan['ops']:
        if op[0] == 'new':
            w.new(op[1])
            sim.ev(*op)
            continue
        if not w.vs:
            w.new(0)
        if op[0] in ('validate', 'all', 'one', 'valid', 'save'):
            out, bad = w.judge(op)
            rules = sorted({p.split('.')[0] for _, p in bad})
            sim.ev(*op, out, rules)
            sim.state(op[0], w.conf, rules[:6], out,
                      sorted({o.is_new for o in bad.values()}),
                      sorted(sim.fault_counts))
        else:
            w.change(op)
            sim.ev(*op)
