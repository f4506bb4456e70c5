"""A world of documents with nested lists and dicts kept in a simulated store.

Operations are data; every operation is applied both to the real object and to
a reference model made of builtin lists and dicts."""
from __future__ import annotations
from .sim import Violation, SimCrash, InjectedFault
from .store import SimStore, plain
from .seams import CUR
from typing import Any

LISTS = {
    'l': 'int', 'ls': 'str', 'll': 'list', 'ld': 'dict',
}
DICTS = {
    'd': 'int', 'dl': 'list', 'dd': 'dict',
}
SCALARS = ('n', 's', 'f', 'b')
FIELDS = ('id', 'n', 's', 'f', 'b', 'l', 'ls', 'll', 'ld', 'd', 'dl', 'dd',
          'cn', 'cl', 'x')
KEYS = ('a', 'b', 'c', 'ab')


class Boom(Exception):
    """Raised by user supplied iterables, key functions and callbacks."""


def define(reset_all, graph):
    from jsonclasses import jsonclass, types

    def note(what, *data):
        CUR.sim.notes.append((what,) + data)

    def compare(name):
        def cmp(old, new):
            sim = CUR.sim
            if sim is None:
                return True
            note('compare', name, plain(old), plain(new))
            f = sim.hit('compare')
            if f:
                if f['kind'] == 'reject':
                    return False
                raise InjectedFault('compare', f['n'], f['kind'])
            return True
        return cmp

    def upd(name):
        def cb(old, new):
            sim = CUR.sim
            if sim is None:
                return
            note('onupdate', name, plain(old), plain(new))
            sim.maybe_raise('onupdate')
        return cb

    def val(v):
        sim = CUR.sim
        if sim is None:
            return True
        f = sim.hit('validate')
        if f:
            if f['kind'] == 'reject':
                return False
            raise InjectedFault('validate', f['n'], f['kind'])
        return True

    def onsave(v):
        if CUR.sim is not None:
            CUR.sim.maybe_raise('onsave')

    opt = {}
    if reset_all:
        opt['reset_all_fields'] = True
    cn_types = types.int.compare(compare('cn')).onupdate(upd('cn'))
    cl_types = types.listof(int).compare(compare('cl')).onupdate(
        lambda old, new, ctx: upd('cl')(old, new))

    @jsonclass(class_graph=graph, **opt)
    class Doc:
        id: int = types.int.primary.required
        n: int = types.int.validate(val)
        s: str = types.str.onsave(onsave)
        f: float = types.float
        b: bool = types.bool
        l: list[int] = types.listof(types.int.nullable)
        ls: list[str] = types.listof(types.str.nullable)
        ll: list[list[int]] = types.listof(
            types.listof(types.int.nullable).nullable)
        ld: list[dict[str, int]] = types.listof(
            types.dictof(types.int.nullable).nullable)
        d: dict[str, int] = types.dictof(types.int.nullable)
        dl: dict[str, list[int]] = types.dictof(
            types.listof(types.int.nullable).nullable).compare(
                compare('dl')).onupdate(upd('dl'))
        dd: dict[str, dict[str, int]] = types.dictof(
            types.dictof(types.int.nullable).nullable)
        cn: int = cn_types
        cl: list[int] = cl_types
        x: Any = types.any
        t: str = types.str.temp
        tl: list[list[int]] = types.listof(types.listof(int)).temp
        td: dict[str, dict[str, int]] = types.dictof(types.dictof(int)).temp
    return Doc


CLASSES = {}


def prepare(prefix):
    """Define the classes once, before any run: 'cold' ones have never been
    used when a run starts, 'warm' ones have all lazy work done."""
    for reset_all in (False, True):
        for temp in ('cold', 'warm'):
            cls = define(reset_all, f'{prefix}-{reset_all}-{temp}')
            CLASSES[(reset_all, temp)] = cls
            if temp == 'warm':
                d = cls(id=1, n=1, s='x', f=1.0, b=True, l=[1], ls=['a'],
                        ll=[[1]], ld=[{'a': 1}], d={'a': 1}, dl={'a': [1]},
                        dd={'a': {'a': 1}}, cn=1, cl=[1], t='x', x=1)
                d.validate()
                d.save()
                d.tojson()


# ------------------------------------------------------------------- values

def gen_int(rng):
    return rng.choice([0, 1, 2, 3, 5, 8, -1, 7, 13, 100])


def gen_leaf(rng, kind):
    if kind == 'int':
        return gen_int(rng)
    if kind == 'str':
        return rng.choice(['', 'x', 'y', 'zz', 'q'])
    if kind == 'list':
        return [gen_int(rng) for _ in range(rng.randrange(4))]
    if kind == 'dict':
        return {rng.choice(KEYS): gen_int(rng)
                for _ in range(rng.randrange(3))}


ONES = [0, False, 0.0, 1, True, 1.0]


def exact(a, b):
    """The same values of the same kinds."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and \
            all(exact(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and \
            all(map(exact, a, b))
    return type(a) is type(b) and a == b


def gen_value(rng, field):
    if field in ('n', 'cn'):
        return None if rng.maybe(.1) else gen_int(rng)
    if field == 's':
        return None if rng.maybe(.1) else rng.choice(['a', 'b', 'hello', ''])
    if field == 'f':
        return rng.choice([0.5, 1.5, -2.0, None])
    if field == 'b':
        return rng.choice([True, False, None])
    if field == 'x':
        # equal values of different kinds
        v = rng.choice(ONES)
        return rng.choice([v, v, v, None, '1', [v], [v, 1], {'a': v},
                           [[v]], {'a': {'b': v}}, {'a': [v]}, [{'b': v}]])
    if field == 't':
        return rng.choice(['tmp', 'tmp2', None])
    if field == 'cl':
        kind = 'int'
    elif field in LISTS:
        kind = LISTS[field]
    else:
        kind = None
    if kind is not None:
        if rng.maybe(.06):
            return None
        return [gen_leaf(rng, kind) for _ in range(rng.randrange(5))]
    if rng.maybe(.06):
        return None
    kind = DICTS[field]
    return {k: gen_leaf(rng, kind) for k in rng.sample(KEYS, rng.randrange(4))}


ALLF = SCALARS + tuple(LISTS) + tuple(DICTS) + ('cn', 'cl', 'x')
LIST_OPS = ('append', 'extend', 'extend_gen', 'extend_tuple', 'insert',
            'remove', 'pop', 'pop_i', 'clear', 'sort', 'sort_rev',
            'sort_boom', 'reverse', 'iadd', 'iadd_gen', 'imul', 'setitem',
            'setslice', 'setslice_gen', 'setslice_step', 'delitem',
            'delslice', 'delslice_step', 'extend_boom', 'append_self_item',
            'set_equal', 'slice_equal')
DICT_OPS = ('setitem', 'delitem', 'pop', 'pop_default', 'popitem',
            'setdefault', 'setdefault1', 'update', 'update_kw', 'update_pairs',
            'update_gen', 'update_boom', 'clear', 'ior', 'ior_pairs',
            'ior_gen', 'setdefault_mut', 'set_equal')


def elem_kind(field, depth):
    """Kind of the elements of the container `field` at nesting depth."""
    if field in ('l', 'cl', 'd'):
        return 'int'
    if field == 'ls':
        return 'str'
    kind = LISTS.get(field) or DICTS.get(field)
    return kind if depth == 0 else 'int'


def gen_mut(rng):
    """A mutation of one document."""
    x = rng.random()
    if x < .22:
        f = rng.choice(ALLF)
        return ['assign', f, gen_value(rng, f)]
    if x < .27:
        fs = rng.sample(ALLF, rng.randint(1, 3))
        return ['update', {f: gen_value(rng, f) for f in fs}]
    if x < .33:
        fs = rng.sample(ALLF, rng.randint(1, 3))
        return ['set', {f: gen_value(rng, f) for f in fs}]
    if x < .37:
        f = rng.choice([k for k in LISTS if k != 'ld'] + list(DICTS))
        return ['keyset', f, rng.choice(KEYS), rng.randrange(6),
                rng.randrange(6), gen_leaf(rng, elem_kind(f, 0)),
                gen_int(rng), rng.randrange(2), rng.randrange(3)]
    if x < .375:
        # an equal value of another kind
        return ['anymut', rng.randrange(5), rng.randrange(4),
                rng.choice(ONES)]
    if x < .382:
        # the object's own list or dict at another place of it
        return ['inner', rng.randrange(8), rng.choice(KEYS),
                rng.randrange(6)]
    if x < .39:
        return ['temp', gen_value(rng, 't'), rng.randrange(6)]
    if x < .40:
        # assign an equal container, then use the new one
        return ['assign_equal', rng.choice(tuple(LISTS) + tuple(DICTS)),
                rng.randrange(2)]
    if x < .42:
        # assign the container of another document
        f = rng.choice(tuple(LISTS) + tuple(DICTS))
        return ['assign_from', f, rng.randrange(3)]
    f = rng.choice(tuple(LISTS) + tuple(DICTS) + ('cl',) + ('ll', 'dl', 'dd',
                                                             'ld'))
    mut = gen_container_mut(rng, f)
    if rng.maybe(.06):
        # keep a reference to the container, replace it, then use the old one
        return ['stale', f, gen_value(rng, f), mut]
    return mut


def gen_container_mut(rng, f):
    depth = 1 if f in ('ll', 'ld', 'dl', 'dd') and rng.maybe(.55) else 0
    kind = elem_kind(f, depth)
    outer_is_list = f in LISTS or f == 'cl'
    if depth == 0:
        is_list = outer_is_list
    else:
        is_list = f in ('ll', 'dl')
    if is_list:
        op = rng.choice(LIST_OPS)
    else:
        op = rng.choice(DICT_OPS)
    arg = {
        'v': gen_leaf(rng, kind),
        'vs': [gen_leaf(rng, kind) for _ in range(rng.randrange(4))],
        'i': rng.randrange(-5, 6), 'j': rng.randrange(-5, 7),
        'k': rng.choice(KEYS), 'n': rng.randrange(-1, 4),
        'st': rng.choice([-2, -1, 2, 3]),
        'kv': {k: gen_leaf(rng, kind)
               for k in rng.sample(KEYS, rng.randrange(4))},
        'boom': rng.randrange(0, 3),
        'way': rng.randrange(6) if rng.maybe(.3) else 0,
    }
    return ['mut', f, depth, rng.randrange(6), 'L' if is_list else 'D', op,
            arg]


def _none_if(j):
    return None if j == 6 else j


def apply_list(c, op, a):
    """Apply list operation; same code for the real list and the model."""
    v = plain(a['v'])
    vs = plain(a['vs'])
    n = len(c)
    if op == 'append':
        c.append(v)
    elif op == 'append_self_item':
        if n:
            c.append(c[a['i'] % n])
    elif op == 'extend':
        c.extend(vs)
    elif op == 'extend_gen':
        c.extend(x for x in vs)
    elif op == 'extend_tuple':
        c.extend(tuple(vs))
    elif op == 'extend_boom':
        def it():
            for i, x in enumerate(vs):
                if i == a['boom']:
                    raise Boom()
                yield x
            raise Boom()
        c.extend(it())
    elif op == 'insert':
        c.insert(a['i'], v)
    elif op == 'remove':
        if n:
            c.remove(plain(c[a['i'] % n]))
        else:
            c.remove(v)
    elif op == 'pop':
        return c.pop()
    elif op == 'pop_i':
        return c.pop(a['i'])
    elif op == 'clear':
        c.clear()
    elif op == 'sort':
        c.sort(key=repr)
    elif op == 'sort_rev':
        c.sort(key=repr, reverse=True)
    elif op == 'sort_boom':
        left = [a['boom'] + 1]

        class K:
            def __init__(self, x):
                self.x = repr(x)

            def __lt__(self, o):
                left[0] -= 1
                if left[0] <= 0:
                    raise Boom()
                return self.x < o.x
        c.sort(key=K)
    elif op == 'reverse':
        c.reverse()
    elif op == 'iadd':
        c += vs
    elif op == 'iadd_gen':
        c += (x for x in vs)
    elif op == 'imul':
        c *= a['n']
    elif op == 'setitem':
        c[a['i']] = v
    elif op == 'setslice':
        c[a['i']:_none_if(a['j'])] = vs
    elif op == 'setslice_gen':
        c[a['i']:_none_if(a['j'])] = (x for x in vs)
    elif op == 'setslice_step':
        idx = range(n)[a['i']:_none_if(a['j']):a['st']]
        c[a['i']:_none_if(a['j']):a['st']] = [plain(v) for _ in idx]
    elif op == 'delitem':
        del c[a['i']]
    elif op == 'delslice':
        del c[a['i']:_none_if(a['j'])]
    elif op == 'delslice_step':
        del c[a['i']:_none_if(a['j']):a['st']]
    elif op == 'set_equal':
        if n:
            i = a['i'] % n
            c[i] = plain(c[i])
            touch(c[i])
    elif op == 'slice_equal':
        if n:
            i = a['i'] % n
            c[i:] = plain(c[i:])
            touch(c[i])
    else:
        raise AssertionError(op)
    return None


def touch(x, kind='int'):
    """Change a nested value through the reference the container gives."""
    leaf = {'int': 7, 'str': 'z', 'list': [7], 'dict': {'c': 7}}[kind]
    if isinstance(x, list):
        x.append(leaf)
    elif isinstance(x, dict):
        x['c'] = leaf


def apply_dict(c, op, a):
    v = plain(a['v'])
    kv = plain(a['kv'])
    k = a['k']
    if op == 'setitem':
        c[k] = v
    elif op == 'delitem':
        del c[k]
    elif op == 'pop':
        return c.pop(k)
    elif op == 'pop_default':
        return c.pop(k, 'dflt')
    elif op == 'popitem':
        return list(c.popitem())
    elif op == 'setdefault':
        return c.setdefault(k, v)
    elif op == 'setdefault1':
        return c.setdefault(k)
    elif op == 'setdefault_mut':
        x = c.setdefault(k, v)
        touch(x)
        return x
    elif op == 'set_equal':
        if k in c:
            c[k] = plain(c[k])
            touch(c[k])
    elif op == 'update':
        c.update(kv)
    elif op == 'update_kw':
        c.update(**kv)
    elif op == 'update_pairs':
        c.update(list(kv.items()))
    elif op == 'update_gen':
        c.update((x, y) for x, y in kv.items())
    elif op == 'update_boom':
        def it():
            for i, p in enumerate(kv.items()):
                if i == a['boom']:
                    raise Boom()
                yield p
            raise Boom()
        c.update(it())
    elif op == 'clear':
        c.clear()
    elif op == 'ior':
        c |= kv
    elif op == 'ior_pairs':
        c |= list(kv.items())
    elif op == 'ior_gen':
        c |= ((x, y) for x, y in kv.items())
    else:
        raise AssertionError(op)
    return None


PARTIAL = ('sort_boom', 'extend_boom', 'update_boom')


def snap(obj, fields=FIELDS):
    return {f: plain(getattr(obj, f)) for f in fields}


def locate(root, depth, idx, way=0):
    """Descend into a container; returns None when there is nothing there.
    `way` chooses how the nested value is looked up."""
    c = root
    if c is None:
        return None
    if depth == 1:
        if not len(c):
            return None
        if isinstance(c, dict):
            k = sorted(c)[idx % len(c)]
            return [lambda: c[k], lambda: c.get(k),
                    lambda: dict(c.items())[k],
                    lambda: list(c.values())[list(c).index(k)],
                    lambda: c.copy()[k], lambda: {**c}[k]][way]()
        i = idx % len(c)
        return [lambda: c[i], lambda: c[i - len(c)], lambda: c[i:][0],
                lambda: list(c)[i], lambda: c.copy()[i],
                lambda: list(reversed(c))[len(c) - 1 - i]][way]()
    return c


def outcome(fn):
    """Run fn, returning ('ok', value) or ('exc', class name)."""
    try:
        return ('ok', plain(fn()))
    except (Boom, InjectedFault) as e:
        return ('exc', type(e).__name__)
    except (SimCrash, Violation):
        raise
    except (IndexError, KeyError, ValueError, TypeError) as e:
        return ('exc', type(e).__name__)


class DocWorld:

    def __init__(self, sim, cls):
        self.sim = sim
        sim.notes = []
        self.cls = cls
        self.store = SimStore(sim)
        self.store.attach(self.cls, FIELDS)
        self.docs = []
        self.models = []

    def create(self, i, values):
        doc = self.cls(id=i, **values)
        model = {f: None for f in FIELDS}
        model['id'] = i
        model.update(plain(values))
        self.docs.append(doc)
        self.models.append(model)
        self.same(len(self.docs) - 1, 'creation')

    def same(self, i, what):
        got = snap(self.docs[i])
        if not exact(got, self.models[i]):
            diff = {k: (got[k], self.models[i][k]) for k in FIELDS
                    if not exact(got[k], self.models[i][k])}
            raise Violation('memory-diverged',
                            f'after {what}: (object, reference) = {diff}')

    def mutate(self, i, op):
        """Apply one mutation to document i and its model."""
        doc, model = self.docs[i], self.models[i]
        kind = op[0]
        if kind == 'assign':
            setattr(doc, op[1], plain(op[2]))
            model[op[1]] = plain(op[2])
        elif kind == 'update':
            doc.update(**plain(op[1]))
            model.update(plain(op[1]))
        elif kind == 'set':
            doc.set(**plain(op[1]))
            model.update(plain(op[1]))
        elif kind == 'temp':
            doc.t = op[1]
            how = op[2] if len(op) > 2 else 0
            if how == 1:
                doc.tl = [[1], []]
            elif how == 2:
                doc.td = {'a': {'b': 1}}
            if how >= 3 and doc.tl:
                doc.tl[0].append(how)
            if how >= 4 and doc.td:
                doc.td['a']['c'] = how
            return
        elif kind == 'anymut':
            for o in (doc.x, model['x']):
                self.anymut(o, *op[1:])
        elif kind == 'inner':
            if not self.inner(doc, model, *op[1:]):
                return
        elif kind == 'assign_equal':
            f = op[1]
            if model[f] is None:
                return
            setattr(doc, f, plain(getattr(doc, f)))
            for x in (getattr(doc, f), model[f]):
                deep = int(bool(op[2] and len(x)))
                if deep:
                    x = x[min(x)] if isinstance(x, dict) else x[0]
                touch(x, elem_kind(f, deep))
        elif kind == 'assign_from':
            j = op[2] % len(self.docs)
            setattr(doc, op[1], getattr(self.docs[j], op[1]))
            model[op[1]] = plain(self.models[j][op[1]])
        elif kind == 'keyset':
            self.keyset(doc, model, op)
        elif kind == 'stale':
            _, f, value, mut = op
            old = locate(getattr(doc, f), mut[2], mut[3])
            setattr(doc, f, plain(value))
            kept = model[f] is not None and plain(value) == model[f]
            model[f] = plain(value)
            if old is not None and not kept:
                fn = apply_list if mut[4] == 'L' else apply_dict
                outcome(lambda: fn(old, mut[5], mut[6]))
        else:
            _, f, depth, idx, shape, name, arg = op
            way = arg.get('way', 0)
            a = locate(getattr(doc, f), depth, idx, way)
            b = locate(model[f], depth, idx, way)
            if b is None:
                if a is not None and len(a if depth == 0 else a):
                    raise Violation('memory-diverged', f'{f} should be empty')
                return
            fn = apply_list if shape == 'L' else apply_dict
            ra = outcome(lambda: fn(a, name, arg))
            rb = outcome(lambda: fn(b, name, arg))
            self.sim.count(f'mut.{shape}.{name}')
            if name in PARTIAL and rb[0] == 'exc':
                # what a failed bulk operation leaves behind is the
                # container's business; it must be reported all the same
                if ra != rb:
                    raise Violation('container-result',
                                    f'{name} gave {ra}, builtin gives {rb}')
                if depth == 0:
                    model[f] = plain(getattr(doc, f))
                else:
                    cur = plain(a)
                    b.clear()
                    if isinstance(b, dict):
                        b.update(cur)
                    else:
                        b.extend(cur)
            elif ra != rb:
                raise Violation(
                    'container-result',
                    f'{f} {shape}.{name}({arg}) gave {ra}, builtin gives {rb}')
            # repeating or re-inserting an inner container aliases it in a
            # builtin list; an owned list holds its own copy
            model[f] = plain(model[f])
        self.sim.count(f'op.{kind}')

    def anymut(self, c, how, i, v):
        if isinstance(c, list) and c:
            i %= len(c)
            if isinstance(c[i], (list, dict)):
                return self.anymut(c[i], how, i, v)
            if how == 0:
                c[i] = v
            elif how == 1:
                c[i:] = [v] * (len(c) - i)
            elif how == 2:
                c[i:i + 1] = (v,)
            elif how == 3:
                c[::-1] = [v] * len(c)
            else:
                c.append(v)
        elif isinstance(c, dict) and c:
            k = sorted(c)[i % len(c)]
            if isinstance(c[k], (list, dict)):
                return self.anymut(c[k], how, i, v)
            if how == 0:
                c[k] = v
            elif how == 1:
                c.update({k: v})
            elif how == 2:
                c |= {k: v}
            elif how == 3:
                c.pop(k)
                c.setdefault(k, v)
            else:
                c['z'] = v

    def inner(self, doc, model, how, k, i):
        """A list or dict the object already holds is put in another place
        as well, and then changed there."""
        def values(o):
            return list(o.values()) if isinstance(o, dict) else list(o or [])
        src = ['dd', 'dl', 'll', 'ld'][how % 4]
        is_list = src in ('dl', 'll')
        have = [n for n, v in enumerate(values(model[src])) if v is not None]
        if not have:
            return False
        n = have[i % len(have)]
        dst = {'dd': 'ld', 'ld': 'dd', 'dl': 'll', 'll': 'dl'}[src]
        for o, get in ((doc, lambda f: getattr(doc, f)),
                       (model, lambda f: model[f])):
            v = values(get(src))[n]
            if o is model:
                v = plain(v)
            whole = how >= 4 or get(dst) is None
            if dst in ('ld', 'll'):
                if whole:
                    if o is model:
                        model[dst] = [v]
                    else:
                        setattr(doc, dst, [v])
                else:
                    get(dst).append(v)
                new = get(dst)[-1]
            else:
                if whole:
                    if o is model:
                        model[dst] = {k: v}
                    else:
                        setattr(doc, dst, {k: v})
                else:
                    get(dst)[k] = v
                new = get(dst)[k]
            if is_list:
                new.append(i)
            else:
                new['c'] = i + 50
        return True

    def keyset(self, doc, model, op):
        """Batch-set one entry through a dotted key."""
        _, f, k, i, j, leaf, ival, deep, style = op
        m = model[f]
        if m is None:
            return
        if isinstance(m, list):
            if not m:
                return
            key = str(i % len(m))
            sub = m[i % len(m)]
        else:
            key = k
            sub = m.get(k)
        if deep and isinstance(sub, (list, dict)):
            if isinstance(sub, list):
                if not sub:
                    return
                key2 = str(j % len(sub))
                sub[j % len(sub)] = ival
            else:
                key2 = 'ab'
                sub['ab'] = ival
            path = [f'{f}.{key}.{key2}', f'{f}[{key}][{key2}]',
                    f'{f}[{key}].{key2}'][style]
            doc.set(**{path: ival})
        else:
            if isinstance(m, list):
                m[i % len(m)] = plain(leaf)
            else:
                m[k] = plain(leaf)
            path = [f'{f}.{key}', f'{f}[{key}]', f'{f}[{key}]'][style]
            doc.set(**{path: plain(leaf)})

    def reload(self, i):
        """Load document i from the store, as a persistence package would."""
        row = self.store.rows.get(('Doc', self.models[i]['id']))
        doc = self.cls()
        model = {f: None for f in FIELDS}
        model['id'] = self.models[i]['id']
        if row is not None:
            for k, v in row.items():
                setattr(doc, k, plain(v))
            model.update(plain(row))
            doc._mark_unmodified()
        else:
            doc.id = model['id']
        self.docs[i] = doc
        self.models[i] = model
