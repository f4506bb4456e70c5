"""C16: what output shows, over changing object graphs with failing read
checks and getters."""
from __future__ import annotations
import json
from ..sim import Violation, InjectedFault, Clock
from ..seams import CUR

ID = 'C16'
QUICK = 9000
THOROUGH = 400000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (options, shape of the output: classes by '
              'depth, hidden and refused fields met, picked fields, outcome)')
REAL = ['tojson of object graphs', 'canr, writeonly, internal, temp',
        'pick, omit', 'JSON encoder', 'linking, set, save, opby']
STUB = ['read checks and getters of the application (answers and faults come '
        'from the plan)', 'storage']
ASSUMPTIONS = ['a linked object is shown at most as deep as its class allows: '
               'only the links of the object asked for are required to be '
               'there']

W = {}
# kind: s text, l list, d dict, g calculated, e object, el list of objects,
# ed dict of objects, k link, kl links by local keys, f links by foreign key
# rule: - plain, w writeonly, i internal, t temp, c read check
F = {
    'C16U': {
        'id': ('s', '-'), 'full_name': ('s', '-'), 'password': ('s', 'w'),
        'note': ('s', 'i'), 'code': ('s', 't'), 'salary': ('s', 'c'),
        'rating': ('s', 'c'), 'grades': ('l', 'c'), 'texts': ('l', '-'),
        'secret_texts': ('l', 'w'), 'data': ('d', '-'),
        'secret_data': ('d', 'i'), 'shout': ('g', '-'), 'whisper': ('g', 'w'),
        'card': ('e', '-'), 'cards': ('el', '-'), 'card_map': ('ed', '-'),
        'secret_card': ('e', 'w'), 'secret_cards': ('el', 'i'),
        'badge': ('ue', '-'), 'secret_badge': ('ue', 'w'),
        'badges': ('ul', '-'), 'thing': ('a', '-'), 'things': ('la', '-'),
        'secret_thing': ('a', 'i'),
        'best_pal': ('k', '-'), 'secret_boss': ('k', 'w'),
        'tags': ('kl', '-'), 'secret_tags': ('kl', 'w'),
        'posts': ('f', '-'), 'reviews': ('f', '-'), 'secret_posts': ('f', 'w'),
    },
    'C16E': {
        'title': ('s', '-'), 'pin': ('s', 'w'), 'tmp': ('s', 't'),
        'fee': ('s', 'c'), 'hints': ('l', '-'), 'sub': ('e', '-'),
        'secret_sub': ('e', 'i'),
    },
    'C16P': {
        'id': ('s', '-'), 'title': ('s', '-'), 'draft': ('s', 'w'),
        'tmp': ('s', 't'), 'fee': ('s', 'c'), 'card': ('e', '-'),
        'author': ('k', '-'), 'reviewer': ('k', '-'),
        'secret_author': ('k', 'w'),
    },
    'C16T': {
        'id': ('s', '-'), 'label': ('s', '-'), 'hidden': ('s', 'i'),
        'fee': ('s', 'c'),
    },
}
TARGET = {'best_pal': 'C16U', 'secret_boss': 'C16U', 'tags': 'C16T',
          'secret_tags': 'C16T', 'posts': 'C16P', 'reviews': 'C16P',
          'secret_posts': 'C16P', 'author': 'C16U', 'reviewer': 'C16U',
          'secret_author': 'C16U'}
BY = {'posts': 'author', 'reviews': 'reviewer', 'secret_posts':
      'secret_author'}


# classes that output empty fields as null unless told otherwise
NULLS = ('C16T', 'C16E')


def nulls(cfg, o):
    return type(o).__name__ in NULLS if cfg['null'] is None else cfg['null']


def camel(name):
    a = name.split('_')
    return a[0] + ''.join(x.capitalize() for x in a[1:])


def refkey(f, kind):
    return f[:-1] + '_ids' if kind == 'kl' else f + '_id'


def prepare():
    from jsonclasses import jsonclass, types

    def world():
        sim = CUR.sim
        return getattr(sim, 'world', None) if sim else None

    def checker(cls, f):
        """Read checks of every documented form."""
        def ask(op, owner, *val):
            w = world()
            return w.check(f, op, owner, *val) if w else True

        def by_operator(op):
            w = world()
            return w.check_op(f, op) if w else True
        if (cls, f) == ('C16U', 'rating'):
            return lambda op, owner, val: ask(op, owner, val)
        if (cls, f) == ('C16U', 'grades'):
            return types.validate(lambda val, ctx: ask(ctx.operator,
                                                       ctx.owner))
        if (cls, f) == ('C16P', 'fee'):
            return lambda op, owner, val, ctx: ask(op, owner, val)
        if (cls, f) == ('C16T', 'fee'):
            return by_operator
        return lambda op, owner: ask(op, owner)

    def getter(f):
        def get(self):
            sim = CUR.sim
            w = getattr(sim, 'world', None) if sim else None
            if w is not None and w.live:
                sim.maybe_raise('cb.getter')
            return f'{f} of {self.full_name}'
        return get

    def build(name, fields):
        ns, ann = {}, {}
        for f, (kind, rule) in fields.items():
            t = types
            if rule == 'w':
                t = t.writeonly
            elif rule == 'i':
                t = t.internal
            elif rule == 't':
                t = t.temp
            if kind == 's':
                t = t.str
            elif kind == 'l':
                t = t.listof(str)
            elif kind == 'd':
                t = t.dictof(str)
            elif kind == 'g':
                t = t.str.getter(getter(f))
            elif kind == 'e':
                t = t.objof('C16E')
            elif kind == 'el':
                t = t.listof('C16E')
            elif kind == 'ed':
                t = t.dictof('C16E')
            elif kind == 'ue':
                t = t.union([types.str, types.objof('C16E')])
            elif kind == 'ul':
                t = t.listof(types.union([types.objof('C16E'), types.str]))
            elif kind == 'a':
                t = t.any
            elif kind == 'la':
                t = t.listof(types.any)
            elif kind == 'k':
                t = t.linkto.objof(TARGET[f])
            elif kind == 'kl':
                t = t.linkto.listof(TARGET[f])
            else:
                t = t.listof(TARGET[f]).linkedby(BY[f])
            if rule == 'c':
                t = t.canr(checker(name, f))
            if f == 'id':
                t = t.primary
            ns[f] = t
            ann[f] = 'str'
        cls = jsonclass(class_graph='c16', **(
            {'output_null': True} if name in NULLS else {}))(type(name, (), {
            '__module__': __name__, '__annotations__': ann, **ns}))

        def write(self):
            self._mark_unmodified()
        cls._database_write = write
        W[name] = cls
    for name, fields in F.items():
        build(name, fields)
    W['C16K'] = jsonclass(class_graph='c16')(type('C16K', (), {
        '__module__': __name__,
        '__annotations__': {'id': 'str', 'keeper': 'str'},
        'id': types.str.primary,
        'keeper': types.linkto.objof('C16U').canr(lambda op: False)}))
    u = W['C16U'](id='w', full_name='w', card={}, posts=[{'id': 'p'}],
                  tags=[{'id': 't'}])
    u.tojson()


# ----------------------------------------------------------------- generate

OPS = [('set', 8), ('link', 8), ('json', 9), ('pick', 1), ('omit', 1),
       ('save', 1), ('op', 2), ('answers', 2), ('new', 4)]


def gen_card(rng, depth=0):
    c = {f: 1 for f, (k, _) in F['C16E'].items()
         if k in 'sl' and rng.maybe(.7)}
    if depth < 2 and rng.maybe(.4):
        c[rng.choice(['sub', 'secret_sub'])] = gen_card(rng, depth + 1)
    return c


def gen(rng):
    if rng.maybe(.004):
        return {'probe': 'refused link', 'ops': [], 'faults': [],
                'loaded': rng.maybe(.5), 'who': rng.choice([None, 'ann'])}
    ops = [['new', 'C16U'], ['set', 0, 'full_name'],
           ['set', 0, rng.choice(['password', 'salary', 'note', 'rating'])]]
    for _ in range(rng.choice([4, 10, 20])):
        k = rng.weighted(OPS)
        x, y = rng.randrange(6), rng.randrange(1 << 16)
        if k == 'new':
            ops.append([k, rng.choice(['C16U', 'C16P', 'C16P', 'C16T'])])
        elif k == 'set':
            f = rng.choice([f for f, v in F['C16U'].items()
                            if v[0] not in ('g', 'k', 'kl', 'f')
                            and f != 'id'] + ['title', 'draft', 'fee', 'tmp',
                                              'label', 'hidden', 'card'])
            v = None
            if f in ('card', 'secret_card', 'badge', 'secret_badge'):
                v = gen_card(rng)
            elif f in ('cards', 'secret_cards', 'badges'):
                v = [gen_card(rng) for _ in range(rng.randrange(3))]
            elif f == 'card_map':
                v = {a: gen_card(rng) for a in 'ab'[:rng.randrange(3)]}
            ops.append([k, x, f, v])
        elif k == 'link':
            ops.append([k, x, rng.choice(sorted(TARGET)), rng.randrange(6),
                        rng.maybe(.15)])
        elif k == 'json':
            ops.append([k, 0 if rng.maybe(.5) else x, y & 1, y >> 1 & 1,
                        rng.choice([None, True, False]), y >> 2 & 3])
        elif k in ('pick', 'omit'):
            ops.append([k, x, y])
        elif k == 'op':
            ops.append([k, x, rng.choice([None, 'ann', 'bob', 'ann'])])
        elif k == 'answers':
            ops.append([k, y])
        else:
            ops.append([k, x])
    ops.append(['json', 0, 0, 0, None, 0])
    faults = []
    if rng.maybe(.35):
        for _ in range(rng.choice([1, 2])):
            faults.append({'point': rng.choice(['cb.check', 'cb.getter']),
                           'n': rng.randrange(8),
                           'kind': rng.choice(['error', 'memory',
                                               'interrupt'])})
    return {'ops': ops, 'faults': faults}


# ---------------------------------------------------------------------- run

FAULTS = (InjectedFault, MemoryError, KeyboardInterrupt)


class Op:
    """An operator is an opaque object of the application."""

    def __init__(self, name):
        self.name = name


class World:
    def __init__(self, sim):
        self.sim = sim
        self.objs = []
        self.seq = 0
        self.salt = 0
        self.calls = []
        self.live = False
        self.picks = {}
        self.ops = {}
        self.opers = {'ann': Op('ann'), 'bob': Op('bob')}

    def tok(self):
        self.seq += 1
        return f'v{self.seq}.'

    def answer(self, f, owner, op):
        """The application's decision: by field, object and operator."""
        if type(owner).__name__ == 'C16T':
            return self.answer_op(op)
        v = getattr(owner, f)
        key = v if isinstance(v, str) else '/'.join(v) if v else 'none'
        n = sum(map(ord, key)) * 7 + len(f) + self.salt + \
            (3 if op.name == 'bob' else 0)
        return [True, False, None, 'no', True, False][n % 6]

    def answer_op(self, op):
        return [True, False, None, 'no'][
            (self.salt + (op.name == 'bob')) % 4]

    def check_op(self, f, op):
        if not self.live:
            return True
        self.calls.append((f, op, None))
        self.sim.maybe_raise('cb.check')
        return self.answer_op(op)

    def check(self, f, op, owner, *val):
        if not self.live:
            return True
        self.calls.append((f, op, owner))
        self.sim.maybe_raise('cb.check')
        if f not in F.get(type(owner).__name__, {}):
            raise Violation('read-check-owner', f'the read check of {f} was '
                            f'asked about {type(owner).__name__}')
        if val and val[0] != getattr(owner, f):
            raise Violation('read-check-owner', f'the read check of {f} was '
                            f'asked about {val[0]!r}')
        return self.answer(f, owner, op)

    # -- reference

    def expect(self, o, out, cfg, op, path, root):
        """`out` is the right output of `o`."""
        c = type(o).__name__
        iw, null = cfg['iw'], nulls(cfg, o)
        if not isinstance(out, dict):
            raise Violation('wrong-output', f'{path}: {out!r}')
        left = set(out)
        picks = self.picks.get(id(o))
        for f, (kind, rule) in F[c].items():
            name = camel(f)
            shown = rule != 't' and (rule not in 'wi' or iw) and \
                (picks is None or f in picks)
            where = f'{path}.{f}'
            if kind in ('k', 'kl'):
                rk = camel(refkey(f, kind))
                left.discard(rk)
                v = getattr(o, refkey(f, kind))
                if not shown:
                    if rk in out:
                        raise Violation('hidden-key-output', where)
                elif v is None and not null:
                    if rk in out:
                        raise Violation('null-output', where)
                elif rk not in out or out[rk] != v:
                    raise Violation('wrong-output', f'{where}: key '
                                    f'{out.get(rk)!r}, is {v!r}')
            left.discard(name)
            if not shown:
                if name in out:
                    raise Violation('hidden-output', f'{where}: '
                                    f'{out[name]!r}')
                continue
            v = getattr(o, f)
            if kind in ('k', 'kl', 'f'):
                if not root and name not in out:
                    continue
                self.links(o, f, v, out, name, cfg, op, where)
                continue
            if rule == 'c' and (op is None or self.answer(f, o, op) in
                                (False, 'no')):
                v = None
            if v is None:
                if (name in out) != null or out.get(name) is not None:
                    raise Violation(
                        'refused-output' if rule == 'c' else 'null-output',
                        f'{where}: {out.get(name)!r}')
                continue
            if name not in out:
                raise Violation('missing-output', where)
            got = out[name]
            if kind == 'e' or kind == 'ue' and not isinstance(v, str):
                self.expect(v, got, cfg, op, where, False)
            elif kind in ('el', 'ul'):
                if not isinstance(got, list) or len(got) != len(v):
                    raise Violation('wrong-output', where)
                for i, (a, b) in enumerate(zip(v, got)):
                    if isinstance(a, str):
                        if a != b:
                            raise Violation('wrong-output', f'{where}.{i}')
                        continue
                    self.expect(a, b, cfg, op, f'{where}.{i}', False)
            elif kind == 'ed':
                if not isinstance(got, dict) or sorted(got) != sorted(v):
                    raise Violation('wrong-output', where)
                for k in v:
                    self.expect(v[k], got[k], cfg, op, f'{where}.{k}', False)
            else:
                want = list(v) if kind == 'l' else dict(v) if kind == 'd' \
                    else v
                if got != want:
                    raise Violation('wrong-output', f'{where}: {got!r} is '
                                    f'not {want!r}')
        if left:
            raise Violation('unknown-output', f'{path}: {sorted(left)}')

    def links(self, o, f, v, out, name, cfg, op, where):
        if v is None:
            if (name in out) != nulls(cfg, o) or out.get(name) is not None:
                raise Violation('null-output', where)
            return
        if name not in out:
            raise Violation('missing-output', where)
        if isinstance(v, list):
            if not isinstance(out[name], list) or len(out[name]) != len(v):
                raise Violation('wrong-output', f'{where}: {out[name]!r}')
            for i, (a, b) in enumerate(zip(v, out[name])):
                self.expect(a, b, cfg, op, f'{where}.{i}', False)
        else:
            self.expect(v, out[name], cfg, op, where, False)

    def read(self):
        memo = {}

        def go(v):
            if v is None or isinstance(v, str):
                return v
            if isinstance(v, list):
                return [type(v).__name__] + [go(x) for x in v]
            if isinstance(v, dict):
                return {k: go(x) for k, x in v.items()}
            if id(v) in memo:
                return memo[id(v)]
            memo[id(v)] = len(memo)
            d = {'_': memo[id(v)], 'new': v.is_new, 'mod': v.is_modified,
                 'fields': sorted(v.modified_fields),
                 'prev': sorted(v.previous_values),
                 'unl': sorted((k, len(x)) for k, x in
                               v.unlinked_objects.items())}
            for f, (kind, _) in F[type(v).__name__].items():
                if kind == 'g':
                    continue
                d[f] = go(getattr(v, f))
                if kind in ('k', 'kl'):
                    d[refkey(f, kind)] = go(getattr(v, refkey(f, kind)))
            return d
        return [go(o) for o in self.objs]


def wreck(v):
    """Destroy an output: it must not be part of any object."""
    if isinstance(v, dict):
        for x in v.values():
            wreck(x)
        v.clear()
        v['wrecked'] = 'x'
    elif isinstance(v, list):
        for x in v:
            wreck(x)
        del v[:]
        v.append('wrecked')


def pick_obj(w, x, need=None):
    """An object by number; for a field: among those which have it."""
    have = [o for o in w.objs if need is None or
            need in F[type(o).__name__]]
    return have[x % len(have)] if have else None


def card(w, spec):
    out = {}
    for f, v in spec.items():
        out[f] = card(w, v) if isinstance(v, dict) else \
            [w.tok(), w.tok()] if f == 'hints' else w.tok()
    return W['C16E'](**{k: v for k, v in out.items()
                        if k != 'secret_sub'}).update(
        **{k: v for k, v in out.items() if k == 'secret_sub'})


def probe(plan, sim):
    """A link whose read check refuses."""
    o = W['C16K'](id='k')
    if plan['loaded']:
        o.keeper = W['C16U'](id='u9', full_name='n')
    else:
        o.keeper_id = 'u9'
    o.opby(Op(plan['who']) if plan['who'] else None)
    out = o.tojson()
    sim.ev('probe', out)
    sim.state('probe', plan['loaded'], plan['who'])
    if 'keeper' in out or set(out) - {'id', 'keeperId'}:
        raise Violation('refused-output', f'C16K.keeper: {out}')
    if 'keeperId' in out:
        raise Violation('refused-key-output', 'C16K.keeper: the reference '
                        'key of a link whose read check refuses is output')


def run(plan, sim):
    from jsonclasses import JSONEncoder
    if plan.get('probe'):
        probe(plan, sim)
        return
    sim.clock = Clock(tick=0)
    sim.world = w = World(sim)
    for op in plan['ops']:
        kind = op[0]
        how = 'ok'
        if kind == 'new' or not w.objs:
            c = op[1] if kind == 'new' else 'C16U'
            w.objs.append(W[c](id=f'i{len(w.objs)}'))
        elif kind == 'set':
            f = op[2]
            o = pick_obj(w, op[1], f)
            if o is None:
                continue
            k = F[type(o).__name__][f][0]
            v = op[3] if len(op) > 3 else None
            if k == 's':
                v = w.tok()
                if w.seq % 7 == 0 and f != 'id':
                    v = ''      # empty is not the same as nothing
            elif k == 'l':
                v = [w.tok() for _ in range(w.seq % 3)]
            elif k == 'd':
                v = {a: w.tok() for a in 'xy'[:w.seq % 3]}
            elif k in ('a', 'la'):
                v = [w.tok(), [w.tok()], {'k': [w.tok()]}, None,
                     [{'a': w.tok()}, []]][w.seq % 5]
                v = [v or 'x', w.tok()][:w.seq % 3] if k == 'la' else v
            elif k == 'ue':
                v = w.tok() if w.seq % 3 == 0 else card(w, v)
            elif k == 'ul':
                v = [w.tok() if i == 1 else card(w, x)
                     for i, x in enumerate(v)]
            elif k == 'e':
                v = card(w, v)
            elif k == 'el':
                v = [card(w, x) for x in v]
            elif k == 'ed':
                v = {a: card(w, x) for a, x in v.items()}
            o.update(**{f: v})
        elif kind == 'link':
            _, x, f, y, cut = op
            o = pick_obj(w, x, f)
            to = [p for p in w.objs if type(p).__name__ == TARGET[f]
                  and p is not o]
            if o is None or not to:
                continue
            p = to[y % len(to)]
            k = F[type(o).__name__][f][0]
            if k == 'k':
                setattr(o, f, None if cut else p)
            elif cut:
                if p in (getattr(o, f) or []):
                    getattr(o, f).remove(p)
            elif p not in (getattr(o, f) or []):
                if getattr(o, f) is None:
                    setattr(o, f, [p])
                else:
                    getattr(o, f).append(p)
        elif kind == 'op':
            o = pick_obj(w, op[1])
            o.opby(w.opers.get(op[2]))
            w.ops[id(o)] = w.opers.get(op[2])
        elif kind == 'answers':
            w.salt = op[1]
        elif kind == 'save':
            pick_obj(w, op[1]).save()
        elif kind in ('pick', 'omit'):
            o = pick_obj(w, op[1])
            names = list(F[type(o).__name__])
            some = [f for i, f in enumerate(names) if op[2] >> (i % 14) & 1]
            if kind == 'pick':
                given = list(some)
                o.pick(given)
                w.picks[id(o)] = set(some)
                given.clear()     # the caller's list stays the caller's
            else:
                was = w.picks.get(id(o), set(names))
                some = [f for f in some if f in was][:3]
                o.omit(some)
                w.picks[id(o)] = was - set(some)
        elif kind == 'json':
            how = output(w, sim, pick_obj(w, op[1]), op, JSONEncoder)
        sim.ev(kind, how, w.read() if kind != 'json' else None)


def output(w, sim, o, op, JSONEncoder):
    _, _, iw, rr, null, mode = op
    cfg = {'iw': bool(iw), 'null': null}
    oper = w.ops.get(id(o))
    was = w.read()
    w.live = True
    w.calls.clear()
    how = 'ok'
    try:
        out = o.tojson(ignore_writeonly=bool(iw), reverse_relationship=bool(
            rr), output_null=null)
    except FAULTS:
        how = 'fault'
    finally:
        w.live = False
    if w.read() != was:
        raise Violation('output-changed-object', f'a {how} output')
    if how == 'fault':
        sim.count('failed_outputs')
        sim.state('fault', w.calls and w.calls[-1][0], type(o).__name__)
        return how
    for f, by, owner in w.calls:
        if by is not oper:
            raise Violation('wrong-operator', f'{f}: {by!r}')
    w.expect(o, out, cfg, oper, type(o).__name__, True)
    sim.ev('output', out)
    sim.state(cfg, bool(rr), type(o).__name__, oper is None, shape(out))
    text = json.dumps(out, sort_keys=True)
    if mode == 2:
        wreck(out)
        if w.read() != was:
            raise Violation('output-shared', 'the output is a part of the '
                            'object')
    w.live = True
    try:
        if mode == 1 and not iw and not rr and null is None:
            if json.dumps([o], cls=JSONEncoder, sort_keys=True) != f'[{text}]':
                raise Violation('encoder', 'encodes another output')
        elif mode:
            again = o.tojson(ignore_writeonly=bool(iw),
                             reverse_relationship=bool(rr), output_null=null)
            if json.dumps(again, sort_keys=True) != text:
                raise Violation('output-differs', 'the second time')
    except FAULTS:
        pass
    finally:
        w.live = False
    return how


def shape(v, depth=0):
    if depth > 3:
        return 0
    if isinstance(v, dict):
        return sorted((k, shape(x, depth + 1)) for k, x in v.items()
                      if isinstance(x, (dict, list)))
    if isinstance(v, list):
        return len(v) and shape(v[0], depth + 1)
    return 0
