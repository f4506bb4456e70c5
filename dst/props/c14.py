"""C14: accessor marks hold for every input, by whatever name, at whatever
depth, over histories with failing inputs and saves."""
from __future__ import annotations
from ..sim import Violation, InjectedFault, SimCrash, Clock, LineTracer
from ..seams import CUR
from ..store import plain

ID = 'C14'
QUICK = 9000
THOROUGH = 500000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation, way in: name, JSON name, key '
              'path or reference key, rule of the field, value present or '
              'not, outcome)')
REAL = ['creating objects, set, update, key paths', 'transform of nested '
        'objects, lists and dicts', 'reference keys, save, reset']
STUB = ['application transformers (they may fail)', 'storage']
ASSUMPTIONS = []

W = {}
# kind: s text, t text with a transformer, l list, d dict, e object, el list
# of objects, ed dict of objects, k link; rule: - r(eadonly) i(nternal)
# o(nce) n(onnull); default
E_FIELDS = {
    'id': ('s', '-', None), 'plain': ('s', '-', None),
    'fixed_one': ('s', 'r', 'rd'), 'hidden': ('s', 'i', None),
    'once_a': ('s', 'o', None), 'once_b': ('s', 'o', 'od'),
    'keep_a': ('s', 'n', None), 'keep_b': ('s', 'n', 'nd'),
    'trans': ('t', '-', None), 'fixed_t': ('t', 'r', None),
    'once_t': ('t', 'o', None), 'texts': ('l', '-', None),
    'once_l': ('l', 'o', None), 'fixed_l': ('l', 'r', None),
    'sub': ('e', '-', None), 'fixed_sub': ('e', 'r', None),
    'chief': ('k', 'r', None), 'first_pal': ('k', 'o', None),
    'last_pal': ('k', '-', None),
}
R_FIELDS = {
    **E_FIELDS,
    'keep_t': ('t', 'n', None), 'keep_l': ('l', 'n', None),
    'dct': ('d', '-', None), 'fixed_d': ('d', 'r', None),
    'hidden_d': ('d', 'i', None), 'once_d': ('d', 'o', None),
    'once_e': ('e', 'o', None), 'subs': ('el', '-', None),
    'fixed_subs': ('el', 'r', None), 'once_subs': ('el', 'o', None),
    'sub_map': ('ed', '-', None), 'fixed_map': ('ed', 'r', None),
    'boss': ('k', 'r', None), 'old_mate': ('k', 'o', None),
    'pal': ('k', '-', None), 'spouse': ('k', 'n', None),
}
B_FIELDS = {'id': ('s', '-', None), 'plain': ('s', '-', None),
            'fixed_one': ('s', 'r', 'rd'), 'once_a': ('s', 'o', None)}
SPEC = {'E': E_FIELDS, 'R': R_FIELDS, 'S': R_FIELDS, 'B': B_FIELDS}


def camel(name):
    a = name.split('_')
    return a[0] + ''.join(x.capitalize() for x in a[1:])


def transformer(v):
    sim = CUR.sim
    if sim is None or getattr(sim, 'c14', None) is None:
        return v
    sim.c14.append(v)
    sim.maybe_raise('cb.transform')
    return 'T' + v


def prepare():
    from jsonclasses import jsonclass, types

    def build(name, spec, **conf):
        ns, ann = {}, {}
        for f, (kind, rule, dflt) in spec.items():
            t = types
            if rule == 'r':
                t = t.readonly
            elif rule == 'i':
                t = t.internal
            elif rule == 'o':
                t = t.writeonce
            elif rule == 'n':
                t = t.writenonnull
            if kind == 's':
                t = t.str
            elif kind == 't':
                t = t.str.transform(transformer)
            elif kind == 'l':
                t = t.listof(str)
            elif kind == 'd':
                t = t.dictof(str)
            elif kind == 'e':
                t = t.objof('C14E')
            elif kind == 'el':
                t = t.listof('C14E')
            elif kind == 'ed':
                t = t.dictof('C14E')
            else:
                t = t.linkto.objof('C14B')
            if dflt is not None:
                t = t.default(dflt)
            if f == 'id':
                t = t.primary
            ns[f] = t
            ann[f] = 'str'
        cls = jsonclass(class_graph="c14", **conf)(type("C14" + name, (), {
            '__module__': __name__, '__annotations__': ann, **ns}))

        def write(self):
            sim = CUR.sim
            f = sim.hit('store.write')
            if f is not None:
                raise InjectedFault('store.write', f['n'], f['kind'])
            if cname(self) == sim.plan['cls']:
                sim.c14_row = read(self)
            self._mark_unmodified()
        cls._database_write = write
        W[name] = cls
    build('B', B_FIELDS)
    build('E', E_FIELDS)
    build('R', R_FIELDS, reset_all_fields=True)
    build('S', R_FIELDS, strict_input=True)
    # warm up lazily resolved definitions
    W['R'](subs=[{'id': 'w'}], pal={'id': 'w'}, sub={'sub': {'id': 'x'}},
           sub_map={'k': {'id': 'z'}})
    W['S'](subs=[{'id': 'w'}], pal_id='w')


def cname(o):
    return type(o).__name__[3:]


def read(o, memo=None):
    """Observable content of an object, deep; shared objects stay shared."""
    if memo is None:
        memo = {}
    if o is None or isinstance(o, str):
        return o
    if isinstance(o, (list, tuple)):
        return [read(x, memo) for x in o]
    if isinstance(o, dict):
        return {k: read(v, memo) for k, v in o.items()}
    if id(o) in memo:
        return memo[id(o)]
    c = cname(o)
    out = memo[id(o)] = {'_': c}
    for f, (kind, _, _) in SPEC[c].items():
        out[f] = read(getattr(o, f), memo)
        if kind == 'k':
            out[f + '_id'] = getattr(o, f + '_id')
    return out


# ---------------------------------------------------------------- reference

class Refused(Exception):
    """The model says this input must be refused as a whole."""


class NoAnswer(Exception):
    """Not specified: an error is expected, protections are still checked."""


def names_of(c):
    out = set()
    for f, (kind, _, _) in SPEC[c].items():
        for n in (f, f + '_id') if kind == 'k' else (f,):
            out |= {n, camel(n)}
    return out


class Model:
    def __init__(self):
        self.accepted = 0
        self.refused_tokens = []
        self.ways = []
        self.loose = []
        self.unknown = False

    def blank(self, c):
        m = {'_': c}
        for f, (kind, _, dflt) in SPEC[c].items():
            m[f] = dflt
            if kind == 'k':
                m[f + '_id'] = None
        return m

    def tokens(self, v):
        if isinstance(v, str):
            yield v
        elif isinstance(v, dict):
            for x in v.values():
                yield from self.tokens(x)
        elif isinstance(v, list):
            for x in v:
                yield from self.tokens(x)

    def refuse(self, v):
        self.refused_tokens.extend(self.tokens(v))

    def present(self, m, f, kind):
        if m[f] is not None:
            return True
        return kind == 'k' and m[f + '_id'] is not None

    def apply(self, m, inp, fresh, seen, top=True, depth=0):
        """`fresh`: the object is being made from this input."""
        spec = SPEC[m['_']]
        given = {}
        if not top and not set(inp) <= names_of(m['_']):
            self.unknown = True     # these classes are strict as well
        for key, v in inp.items():
            for f, (kind, rule, dflt) in spec.items():
                if key in (f, camel(f)):
                    given[f] = (kind, rule, dflt, v, 'val', key == f)
                elif kind == 'k' and key in (f + '_id', camel(f + '_id')):
                    given.setdefault(f, (kind, rule, dflt, v, 'key',
                                         key == f + '_id'))
        for f, (kind, rule, dflt, v, how, snake) in given.items():
            here = not fresh and self.present(m, f, kind)
            ok = not (rule in 'ri' or (rule == 'o' and here)
                      or (rule == 'n' and v is None))
            self.ways.append((rule, kind, how, snake, here, v is None, ok,
                              depth))
            if not ok:
                self.refuse(v)
                continue
            if how == 'key':
                if v is not None:
                    m[f + '_id'] = v
                    if m[f] is not None and m[f]['id'] != v:
                        m[f] = None
                    self.accepted += 1
                continue
            self.accepted += 1
            unloaded = m[f] is None
            m[f] = self.value(kind, v, dflt, seen, depth)
            if kind == 'k' and v is not None:
                m[f + '_id'] = v['id']
            elif kind == 'k' and unloaded and m[f + '_id'] is not None:
                # clearing a link that was not loaded: not specified
                self.loose.append(f + '_id')
            elif kind == 'k':
                m[f + '_id'] = None

    def value(self, kind, v, dflt, seen, depth):
        if v is None:
            return dflt
        if kind == 's' or kind in 'ld':
            return plain(v)
        if kind == 't':
            return 'T' + v
        if kind == 'e':
            return self.make('E', v, seen, depth)
        if kind == 'k':
            return self.make('B', v, seen, depth)
        if kind == 'el':
            return [self.make('E', x, seen, depth) for x in v]
        return {k: self.make('E', x, seen, depth) for k, x in v.items()}

    def make(self, c, v, seen, depth):
        pk = (c, v.get('id'))
        if pk[1] is not None and pk in seen:
            m = seen[pk]
            self.apply(m, v, False, seen, False, depth + 1)
            return m
        m = self.blank(c)
        if pk[1] is not None:
            seen[pk] = m
        self.apply(m, v, True, seen, False, depth + 1)
        return m

    def path(self, m, items, v):
        c = m['_']
        f = items[0]
        kind, rule, dflt = SPEC[c][f]
        if len(items) == 1:
            self.apply(m, {f: v}, False, {}, False, 1)
            return
        ok = not (rule in 'ri' or (rule == 'o' and m[f] is not None))
        self.ways.append((rule, kind, 'path', len(items), m[f] is not None,
                          ok))
        if not ok:
            self.refuse(v)
            return
        dest = m[f]
        if dest is None:
            raise NoAnswer()
        rest = items[1:]
        if kind in ('e', 'k'):
            self.path(dest, rest, v)
        elif kind in ('l', 'el'):
            if int(rest[0]) >= len(dest):
                raise NoAnswer()
            if kind == 'l':
                dest[int(rest[0])] = v
                self.accepted += 1
            else:
                self.path(dest[int(rest[0])], rest[1:], v)
        elif kind == 'd':
            dest[rest[0]] = v
            self.accepted += 1
        else:
            if rest[0] not in dest:
                raise NoAnswer()
            self.path(dest[rest[0]], rest[1:], v)


# ----------------------------------------------------------------- generate

def gen_value(rng, kind, tok, depth, none=.2):
    if rng.maybe(none):
        return None
    if kind in 'st':
        return tok()
    if kind == 'l':
        return [tok() for _ in range(rng.randrange(3))]
    if kind == 'd':
        return {k: tok() for k in 'ab'[:rng.randrange(3)]}
    if kind == 'e':
        return gen_input(rng, 'E', tok, depth + 1)
    if kind == 'k':
        v = gen_input(rng, 'B', tok, depth + 1)
        v['id'] = tok()
        return v
    if kind == 'el':
        out = [gen_input(rng, 'E', tok, depth + 1)
               for _ in range(rng.randrange(4))]
        if len(out) > 1 and rng.maybe(.5):
            # the same object twice in one input
            out[0]['id'] = out[-1]['id'] = tok()
        return out
    return {k: gen_input(rng, 'E', tok, depth + 1)
            for k in 'ab'[:rng.randrange(3)]}


def gen_input(rng, c, tok, depth=0, n=None):
    spec = SPEC[c]
    names = [f for f in spec if f != 'id' and not
             (depth > 2 and spec[f][0] in ('e', 'el', 'ed', 'k'))]
    if n is None:
        n = rng.choice([1, 2, 3, 5, 9])
    out = {}
    if rng.maybe(.4):
        out['id'] = tok()
    for f in rng.sample(names, min(n, len(names))):
        kind = spec[f][0]
        if kind == 'k' and rng.maybe(.5):
            key = f + '_id'
            v = tok() if rng.maybe(.9) else None
        else:
            key = f
            v = gen_value(rng, kind, tok, depth)
        out[camel(key) if rng.maybe(.4) else key] = v
    return out


def gen_path(rng, c, tok, depth=0):
    """A key path of at least two parts and its value."""
    spec = SPEC[c]
    names = [f for f in spec if spec[f][0] in
             (('l', 'd', 'e', 'el', 'ed', 'k') if depth < 2 else ('l', 'd'))]
    f = rng.choice(names)
    kind = spec[f][0]

    def leaf(c2):
        if rng.maybe(.35) and depth < 2 and c2 != 'B':
            return gen_path(rng, c2, tok, depth + 1)
        g = rng.choice([x for x in SPEC[c2] if x != 'id'
                        and SPEC[c2][x][0] not in ('e', 'el', 'ed', 'k')])
        return [g], gen_value(rng, SPEC[c2][g][0], tok, 3)
    if kind == 'l':
        return [f, str(rng.randrange(2))], tok()
    if kind == 'd':
        return [f, rng.choice('abc')], tok()
    if kind == 'e':
        p, v = leaf('E')
        return [f] + p, v
    if kind == 'k':
        p, v = leaf('B')
        return [f] + p, v
    p, v = leaf('E')
    return [f, rng.choice('ab') if kind == 'ed' else
            str(rng.randrange(2))] + p, v


def nested(d, out, name=None):
    """The inputs of nested objects inside an input."""
    for k, v in d.items():
        f = next((f for f in R_FIELDS if k in (f, camel(f))), None)
        kind = R_FIELDS[f][0] if f else None
        for x in ([v] if kind in ('e', 'k') else v if kind == 'el' else
                  list(v.values()) if kind == 'ed' and v else []) or []:
            if isinstance(x, dict):
                out.append(x)
                nested(x, out)


def gen(rng):
    seq = [0]

    def tok():
        seq[0] += 1
        return f'v{seq[0]}'
    c = rng.choice(['R', 'R', 'S'])

    def inputs():
        d = gen_input(rng, c, tok)
        if c == 'S' and rng.maybe(.15):
            d[rng.choice(['nothing', 'fixedOn', '_mate'])] = tok()
        elif rng.maybe(.1):
            inner = []
            nested(d, inner)
            if inner:
                # nowhere known, or by the outer class only
                rng.choice(inner)[rng.choice(
                    ['zzz', 'pal', 'keepT', 'dct', 'palId'])] = tok()
        return d

    def paths(d):
        for _ in range(rng.choice([0, 1, 1, 3])):
            p, v = gen_path(rng, c, tok)
            d['.'.join(p) if rng.maybe(.6) else
              p[0] + ''.join(f'[{x}]' for x in p[1:])] = v
        return d
    ops = [['new', inputs()]]
    for _ in range(rng.choice([2, 4, 8])):
        k = rng.weighted([('set', 10), ('path', 6), ('update', 3),
                          ('assign', 3), ('save', 2), ('reload', 1),
                          ('reset', 1)])
        if k == 'set':
            ops.append([k, inputs()])
        elif k == 'path':
            ops.append(['set', paths({} if rng.maybe(.6) else inputs())])
        elif k in ('update', 'assign'):
            f = rng.choice([x for x in R_FIELDS
                            if R_FIELDS[x][0] in 'stld' and x != 'id'])
            v = gen_value(rng, R_FIELDS[f][0], tok, 3, .3)
            if rng.maybe(.25):
                f, v = rng.choice(['boss_id', 'old_mate_id']), tok()
            elif rng.maybe(.25):
                f = rng.choice([x for x in R_FIELDS
                                if R_FIELDS[x][0] in ('e', 'el', 'ed', 'k')])
                v = {'obj': gen_value(rng, R_FIELDS[f][0], tok, 2, 0)}
            ops.append([k, f, v])
        else:
            ops.append([k])
    faults = []
    if rng.maybe(.35):
        for _ in range(rng.choice([1, 2])):
            faults.append({'point': rng.weighted([('cb.transform', 5),
                                                  ('store.write', 1)]),
                           'n': rng.randrange(8),
                           'kind': rng.choice(['error', 'memory',
                                               'interrupt'])})
    return {'cls': c, 'ops': ops, 'faults': faults,
            'line': [rng.randrange(1, 700), rng.choice(['interrupt',
                                                        'memory'])]
            if rng.maybe(.15) else None}


# ---------------------------------------------------------------------- run

FAULTS = (InjectedFault, MemoryError, KeyboardInterrupt)


def protected(c, was, now, how):
    """What no input may do, also when it fails half way."""
    for f, (kind, rule, _) in SPEC[c].items():
        a, b = was[f], now[f]
        if rule in 'ri':
            if a != b or (kind == 'k' and was[f + '_id'] != now[f + '_id']):
                raise Violation('readonly-written', f'{f} by {how}: {a!r} '
                                f'{was.get(f + "_id")!r} became {b!r} '
                                f'{now.get(f + "_id")!r}')
        elif rule == 'o':
            if a is not None and a != b:
                raise Violation('writeonce-rewritten', f'{f} by {how}: {a!r} '
                                f'became {b!r}')
            if kind == 'k' and was[f + '_id'] is not None and \
                    was[f + '_id'] != now[f + '_id']:
                raise Violation('writeonce-rewritten', f'{f}_id by {how}: '
                                f'{was[f + "_id"]!r} became '
                                f'{now[f + "_id"]!r}')
        elif rule == 'n':
            if a is not None and b is None and kind != 'k':
                raise Violation('nonnull-cleared', f'{f} by {how}')


def run(plan, sim):
    from jsonclasses.excs import ValidationException
    sim.clock = Clock(tick=0)
    c = plan['cls']
    sim.c14 = []
    cls = W[c]
    o = None
    sim.c14_row = None
    tracer = None
    if plan['line']:
        tracer = LineTracer(sim, *plan['line'])
    for op in plan['ops']:
        kind = op[0]
        if o is None and kind != 'new':
            op = ['new', {}]
            kind = 'new'
        how = 'ok'
        if kind in ('new', 'set'):
            inp = op[1]
            single = {k: v for k, v in inp.items()
                      if '.' not in k and '[' not in k}
            paths = {k: v for k, v in inp.items() if k not in single}
            mod = Model()
            was = read(o) if o is not None else None
            want = mod.blank(c) if o is None else copy(was)
            if c == 'S' and not set(single) <= known():
                want, how = ('refused', 'refused') if o is None else \
                    (was, 'refused')
            else:
                mod.apply(want, single, o is None, {})
                try:
                    for k, v in paths.items():
                        mod.path(want, k.replace(']', '').replace('[', '.')
                                 .split('.'), v)
                except NoAnswer:
                    how = 'any'
                if mod.unknown:
                    how = 'inner'
            flags = None if o is None else (
                o.is_new, o.is_modified, tuple(sorted(o.modified_fields)))
            del sim.c14[:]
            made = o
            try:
                if tracer:
                    with tracer:
                        made = give(cls, o, inp)
                else:
                    made = give(cls, o, inp)
                got = 'ok'
            except FAULTS:
                got = 'fault'
            except ValidationException:
                got = 'refused'
            except (ValueError, IndexError, KeyError, AttributeError,
                    TypeError):
                if how != 'any':
                    raise
                got = 'any'
            for t in mod.refused_tokens:
                if t in sim.c14:
                    raise Violation('refused-transformed', f'{t} reached a '
                                    f'transformer although it is refused')
            if how == 'inner' and got == 'ok':
                raise Violation('unknown-key-accepted', f'{kind} {inp}')
            if got == 'refused' and how not in ('refused', 'inner'):
                raise Violation('input-refused', f'{kind} {inp}')
            if got == 'ok' and how == 'refused':
                raise Violation('unknown-key-accepted', f'{kind} {inp}')
            if o is None and got != 'ok':
                sim.ev(kind, inp, got)
                continue
            new = o is None
            o = made
            now = read(o)
            if not new:
                protected(c, was, now, kind)
            if got == 'ok' and how == 'ok':
                for k in mod.loose:
                    want[k] = now[k]
                compare(want, now, kind, inp)
                if flags is not None and mod.accepted == 0 and flags != (
                        o.is_new, o.is_modified,
                        tuple(sorted(o.modified_fields))):
                    raise Violation('refused-modified', f'{flags} became '
                                    f'{o.modified_fields} by {inp}')
            elif how == 'refused' and now != was:
                raise Violation('refused-input-applied', diff(was, now))
            sim.ev(kind, inp, got, now)
            for w in mod.ways:
                sim.state(kind, got, w)
            continue
        if kind in ('update', 'assign'):
            f, v = op[1], op[2]
            if isinstance(v, dict) and 'obj' in v and f in R_FIELDS and \
                    R_FIELDS[f][0] in ('e', 'el', 'ed', 'k'):
                k, v = R_FIELDS[f][0], v['obj']
                try:
                    v = (W['B'](**v) if k == 'k' else W['E'](**v)
                         if k == 'e' else [W['E'](**x) for x in v]
                         if k == 'el' else {a: W['E'](**x)
                                            for a, x in v.items()})
                except FAULTS:
                    sim.ev(kind, 'fault')
                    continue
            if kind == 'update':
                was = read(getattr(o, f))
                try:
                    o.update(**{f: v, 'nowhere': v})
                except ValueError:
                    pass
                else:
                    raise Violation('unknown-key-accepted', f'update {f} and '
                                    'a name which is not known')
                if read(getattr(o, f)) != was:
                    raise Violation('refused-but-changed', f'update {f}')
                o.update(**{f: v})
            else:
                setattr(o, f, v)
            got = read(getattr(o, f))
            if got != read(v):
                raise Violation('not-updated', f'{kind} {f}={v!r} gave '
                                f'{got!r}')
        elif kind == 'save':
            try:
                o.save()
            except FAULTS:
                how = 'fault'
        elif kind == 'reset':
            if c == 'R' and not o.is_new:
                o.reset()
        elif kind == 'reload':
            if sim.c14_row is None:
                continue
            o = load(cls, sim.c14_row)
        sim.ev(kind, how, read(o))
        sim.state(kind, how, sorted(k for k, v in read(o).items()
                                    if v is not None)[:6])


def give(cls, o, inp):
    if o is None:
        return cls(**inp)
    return o.set(**inp)


def known():
    out = set()
    for f, (kind, _, _) in R_FIELDS.items():
        out |= {f, camel(f)}
        if kind == 'k':
            out |= {f + '_id', camel(f + '_id')}
    return out


def copy(v):
    """Deep copy which keeps shared objects shared."""
    import copy as m
    return m.deepcopy(v)


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return '; '.join(f'{k}: {a.get(k)!r} / {b.get(k)!r}'
                         for k in sorted(set(a) | set(b))
                         if a.get(k) != b.get(k))
    return f'{a!r} / {b!r}'


def compare(want, now, kind, inp):
    if want == now:
        return
    for f, (k, rule, _) in SPEC[want['_']].items():
        if want[f] != now[f] or k == 'k' and \
                want[f + '_id'] != now[f + '_id']:
            name = {'r': 'readonly', 'i': 'internal', 'o': 'writeonce',
                    'n': 'writenonnull', '-': 'plain'}[rule]
            raise Violation('wrong-after-input',
                            f'{name} field {f} after {kind} {inp}: '
                            f'wanted {want[f]!r} {want.get(f + "_id")!r}, '
                            f'is {now[f]!r} {now.get(f + "_id")!r}')


def load(cls, row):
    """As a persistence package does: make it, put the columns in, mark it."""
    o = cls()
    for f, (kind, _, _) in R_FIELDS.items():
        if kind in 'stld':
            o.update(**{f: plain(row[f])})
        elif kind == 'k':
            o.update(**{f + '_id': row[f + '_id']})
    o._mark_not_new()
    o._mark_unmodified()
    return o


def simplify(plan):
    """Smaller inputs: drop one key of one input at a time."""
    import json
    for i, op in enumerate(plan['ops']):
        if op[0] in ('new', 'set'):
            for k in list(op[1]):
                p = json.loads(json.dumps(plan))
                del p['ops'][i][1][k]
                yield p
