"""A world of objects in every kind of relationship, with a reference model of
who is linked to whom.

Relations (left side / right side):
  author   Post.author (local key)        <-> User.posts
  user     Profile.user (local key)       <-> User.profile
  boss     User.boss (local key)          <-> User.reports   (same class)
  ups      User.ups (list of local keys)  <-> Post.uppers
  cos      User.cos                       <-> Post.cousers   (join)
"""
from __future__ import annotations
from .sim import Violation
from .store import plain


class Boom(Exception):
    pass


# field -> (class, kind, relation, side)
FIELDS = {
    ('P', 'author'): ('one', 'author', 0),
    ('U', 'posts'): ('many', 'author', 1),
    ('F', 'user'): ('one', 'user', 0),
    ('U', 'profile'): ('one', 'user', 1),
    ('U', 'boss'): ('one', 'boss', 0),
    ('U', 'reports'): ('many', 'boss', 1),
    ('U', 'ups'): ('many', 'ups', 0),
    ('P', 'uppers'): ('many', 'ups', 1),
    ('U', 'cos'): ('many', 'cos', 0),
    ('P', 'cousers'): ('many', 'cos', 1),
}
# relation -> ((class, field) of side 0, (class, field) of side 1, left is
# single valued, right is single valued)
REL = {
    'author': (('P', 'author'), ('U', 'posts')),
    'user': (('F', 'user'), ('U', 'profile')),
    'boss': (('U', 'boss'), ('U', 'reports')),
    'ups': (('U', 'ups'), ('P', 'uppers')),
    'cos': (('U', 'cos'), ('P', 'cousers')),
}
KEYS = {'author': 'author_id', 'user': 'user_id', 'boss': 'boss_id',
        'ups': 'up_ids'}
LETTER = {'U': 'User', 'P': 'Post', 'F': 'Profile'}
SCALARS = {'U': ('name',), 'P': ('title',), 'F': ('bio',)}
MANY = [k for k, v in FIELDS.items() if v[0] == 'many']
ONE = [k for k, v in FIELDS.items() if v[0] == 'one']
CLASSES = {}


def define(graph, reset_all=False):
    from jsonclasses import jsonclass, types
    opt = {'reset_all_fields': True} if reset_all else {}

    @jsonclass(class_graph=graph, **opt)
    class User:
        id: int = types.int.primary.required
        name: str = types.str.validate(lambda v: v != 'bad')
        posts: list['Post'] = types.listof('Post').linkedby('author')
        profile: 'Profile' = types.objof('Profile').linkedby('user')
        boss: 'User' = types.objof('User').linkto
        reports: list['User'] = types.listof('User').linkedby('boss')
        ups: list['Post'] = types.listof('Post').linkto
        cos: list['Post'] = types.listof('Post').linkedthru('cousers')

    @jsonclass(class_graph=graph, **opt)
    class Post:
        id: int = types.int.primary.required
        title: str = types.str.validate(lambda v: v != 'bad')
        author: User = types.objof('User').linkto
        uppers: list[User] = types.listof('User').linkedby('ups')
        cousers: list[User] = types.listof('User').linkedthru('cos')

    @jsonclass(class_graph=graph, **opt)
    class Profile:
        id: int = types.int.primary.required
        bio: str = types.str.validate(lambda v: v != 'bad')
        user: User = types.objof('User').linkto

    return {'U': User, 'P': Post, 'F': Profile}


def prepare(prefix):
    for reset_all in (False, True):
        for temp in ('cold', 'warm'):
            c = define(f'{prefix}-{reset_all}-{temp}', reset_all)
            CLASSES[(reset_all, temp)] = c
            if temp == 'warm':
                u = c['U'](id=1, posts=[{'id': 1}], profile={'id': 1},
                           boss={'id': 2}, ups=[{'id': 2}], cos=[{'id': 3}])
                u.validate()
                u.save()
                u.tojson()
                u.reports = []


# --------------------------------------------------------------- generation

LIST_OPS = ('append', 'insert', 'remove', 'pop', 'pop_i', 'clear', 'extend',
            'iadd', 'setitem', 'delitem', 'setslice', 'delslice', 'reverse',
            'sort', 'setsame', 'boom')


def gen_op(rng, keys=True):
    x = rng.random()
    a, b = rng.randrange(4), rng.randrange(4)
    if x < .28:
        c, f = rng.choice(ONE)
        return ['one', c, a, f, None if rng.maybe(.25) else b]
    if x < .44:
        c, f = rng.choice(MANY)
        v = None if rng.maybe(.06) else rng.sample(range(4),
                                                   rng.randint(0, 4))
        return ['assign', c, a, f, v, rng.randrange(3)
                if rng.maybe(.9) else rng.choice([3, 4])]
    if x < .84 or not keys:
        c, f = rng.choice(MANY)
        return ['list', c, a, f, rng.choice(LIST_OPS), rng.randrange(-4, 5),
                rng.randrange(-4, 5), rng.sample(range(4), rng.randint(0, 3))]
    if x < .92:
        c, f = rng.choice([k for k in ONE if FIELDS[k][2] == 0])
        return ['key', c, a, f, rng.choice([None, 0, 1, 2, 3, 4, 77])]
    return ['keys', a, rng.choice(['assign', 'remove', 'append', 'pop',
                                   'clear', 'setitem', 'none']),
            rng.sample([0, 1, 2, 3, 4, 77, 78], rng.randint(0, 4)),
            rng.randrange(4)]


def uid(o):
    """What the model calls an object (it may have no key)."""
    return o.id if o.id is not None else o._dst_uid


class RelWorld:

    def __init__(self, sim, classes, n):
        self.sim = sim
        self.c = classes
        self.objs = {k: {} for k in 'UPF'}
        self.rel = {r: set() for r in REL}     # (left id, right id)
        self.loose = {r: {} for r in KEYS}     # left id -> keys w/o object
        self.n = n

    def new(self, letter, i, **kw):
        o = self.c[letter](id=i, **kw)
        self.objs[letter][i] = o
        return o

    def new_keyless(self, letter, i):
        """An object the storage has not given a key yet: it looks exactly
        like the others of its class."""
        o = self.c[letter]()
        o._dst_uid = i
        self.objs[letter][i] = o
        return o

    def get(self, letter, i):
        d = self.objs[letter]
        ids = sorted(d)
        return d[ids[i % len(ids)]] if ids else None

    # -- the model

    def others(self, c, f, i):
        """Ids linked to object i through field f."""
        _, r, side = FIELDS[(c, f)]
        return {p[1 - side] for p in self.rel[r] if p[side] == i}

    def unlink(self, r, l, rr):
        self.rel[r].discard((l, rr))

    def link(self, r, left, right):
        (lc, lf), (rc, rf) = REL[r]
        if (left, right) in self.rel[r]:
            return
        if FIELDS[(lc, lf)][0] == 'one':
            for p in list(self.rel[r]):
                if p[0] == left:
                    self.unlink(r, *p)
            self.loose[r].pop(left, None)
        if FIELDS[(rc, rf)][0] == 'one':
            for p in list(self.rel[r]):
                if p[1] == right:
                    self.unlink(r, *p)
        self.rel[r].add((left, right))
        if r == 'ups':
            self.loose[r].get(left, set()).discard(right)

    def m_set(self, c, f, i, ids):
        """Field f of object i now links exactly `ids`."""
        kind, r, side = FIELDS[(c, f)]
        for o in self.others(c, f, i) - set(ids):
            self.unlink(r, *((i, o) if side == 0 else (o, i)))
        if r in KEYS and side == 0:
            self.loose[r].pop(i, None)
        for o in ids:
            self.link(r, *((i, o) if side == 0 else (o, i)))

    # -- operations

    def target_letter(self, c, f):
        _, r, side = FIELDS[(c, f)]
        return REL[r][1 - side][0]

    def apply(self, op):
        kind = op[0]
        if kind == 'one':
            _, c, a, f, b = op
            o = self.get(c, a)
            t = self.target_letter(c, f)
            v = None if b is None else self.get(t, b)
            if v is o:
                return False
            if v is None and getattr(o, f) is None:
                # already empty: assigning nothing changes nothing
                setattr(o, f, None)
                return True
            setattr(o, f, v)
            self.m_set(c, f, uid(o), [] if v is None else [uid(v)])
            return True
        if kind == 'assign':
            _, c, a, f, idx, form = op
            o = self.get(c, a)
            t = self.target_letter(c, f)
            vs = None if idx is None else self.pick(t, idx, o)
            if form >= 3 and vs:
                # the same object twice, and then nothing
                setattr(o, f, [vs[0], vs[0], *vs[1:]])
                self.m_set(c, f, uid(o), [uid(v) for v in vs])
                vs = [] if form == 3 else None
            cur = getattr(o, f)
            same = cur is vs or cur is not None and vs is not None and \
                len(cur) == len(vs) and all(x is y for x, y in zip(cur, vs))
            if form == 1 and vs is not None:
                o.update(**{f: list(vs)})
            else:
                setattr(o, f, None if vs is None else list(vs))
            if not same:
                self.m_set(c, f, uid(o), [uid(v) for v in vs or []])
            self.expect_order(o, f, vs)
            return True
        if kind == 'list':
            return self.list_op(op)
        if kind == 'key':
            _, c, a, f, k = op
            o = self.get(c, a)
            r = FIELDS[(c, f)][1]
            rk = KEYS[r]
            if getattr(o, rk) == k:
                setattr(o, rk, k)
                return True
            setattr(o, rk, k)
            self.m_set(c, f, uid(o), [])
            if k is not None:
                self.loose[r][uid(o)] = {k}
            return True
        if kind == 'keys':
            return self.keys_op(op)
        raise AssertionError(kind)

    def pick(self, t, idx, exclude):
        out = []
        for j in idx:
            v = self.get(t, j)
            if v is not None and v is not exclude and \
                    not any(x is v for x in out):
                out.append(v)
        return out

    def expect_order(self, o, f, vs):
        got = getattr(o, f)
        if vs is None:
            if got:
                raise Violation('list-order', f'{f} was emptied and holds '
                                f'{[uid(x) for x in got]}')
            return
        if [uid(x) for x in got] != [uid(x) for x in vs]:
            raise Violation('list-order', f'{type(o).__name__}.{f} should be '
                            f'{[uid(x) for x in vs]} and is '
                            f'{[uid(x) for x in got]}')

    def list_op(self, op):
        _, c, a, f, m, i, j, idx = op
        o = self.get(c, a)
        lst = getattr(o, f)
        t = self.target_letter(c, f)
        if lst is None:
            setattr(o, f, [])
            self.m_set(c, f, uid(o), [])
            lst = getattr(o, f)
        model = list(lst)
        fresh = [v for v in self.pick(t, idx, o)
                 if not any(v is x for x in model)]
        n = len(model)
        if m in ('append', 'insert'):
            if not fresh:
                return False
            if m == 'append':
                lst.append(fresh[0])
                model.append(fresh[0])
            else:
                lst.insert(i, fresh[0])
                model.insert(i, fresh[0])
        elif m in ('extend', 'iadd'):
            if m == 'extend':
                lst.extend(fresh if i % 2 else iter(fresh))
            else:
                lst += fresh
            model.extend(fresh)
        elif m in ('remove', 'pop_i', 'delitem', 'setitem', 'setsame'):
            if not n:
                return False
            k = i % n
            if m == 'remove':
                lst.remove(model[k])
                del model[k]
            elif m == 'pop_i':
                got = lst.pop(k)
                if got is not model[k]:
                    raise Violation('list-order', 'pop gave another object')
                del model[k]
            elif m == 'delitem':
                del lst[k if i >= 0 else k - n]
                del model[k]
            elif m == 'setsame':
                lst[k] = model[k]
            else:
                if not fresh:
                    return False
                lst[k] = fresh[0]
                model[k] = fresh[0]
        elif m == 'pop':
            if not n:
                return False
            lst.pop()
            model.pop()
        elif m == 'clear':
            lst.clear()
            model.clear()
        elif m == 'boom':
            # the application's iterable fails half way
            def it():
                yield from fresh
                raise Boom()
            self.sim.fault('iterable', 'error')
            try:
                if i % 3 == 0:
                    lst.extend(it())
                elif i % 3 == 1:
                    lst += it()
                else:
                    lst[i:j] = it()
            except Boom:
                pass
            else:
                raise Violation('error-swallowed', 'a failing iterable was '
                                'accepted')
        elif m == 'setslice':
            lo, hi, _ = slice(i, j).indices(n)
            hi = max(lo, hi)
            keep = model[lo:hi]
            new = (fresh + keep[::-1])[:3] if j % 2 else fresh
            lst[i:j] = new
            model[i:j] = new
        elif m == 'delslice':
            del lst[i:j]
            del model[i:j]
        elif m == 'reverse':
            lst.reverse()
            model.reverse()
        elif m == 'sort':
            lst.sort(key=lambda x: -uid(x))
            model.sort(key=lambda x: -uid(x))
        self.expect_order(o, f, model)
        kind, r, side = FIELDS[(c, f)]
        ids = [uid(x) for x in model]
        keep = self.loose[r].get(uid(o)) if r == 'ups' and side == 0 else None
        self.m_set(c, f, uid(o), ids)
        if keep:
            self.loose[r][uid(o)] = keep - set(ids)
        return True

    def keys_op(self, op):
        _, a, m, ks, i = op
        u = self.get('U', a)
        keys = u.up_ids
        have = list(keys) if keys is not None else []
        if m == 'assign' or m == 'none':
            want = [] if m == 'none' else list(ks)
            if m == 'none':
                u.up_ids = None
            elif i % 2:
                u.update(up_ids=list(ks))
            else:
                u.up_ids = list(ks)
        elif m == 'append':
            new = [k for k in ks if k not in have]
            if not new:
                return False
            want = have + [new[0]]
            if i % 2:
                # as a request names one key to add
                u.set(ups=[{'_add': new[0]}])
            else:
                u.up_ids.append(new[0])
        elif m == 'clear':
            want = []
            u.up_ids.clear()
        elif not have:
            return False
        elif m == 'remove':
            k = have[i % len(have)]
            want = [x for x in have if x != k]
            if i // 2 % 2:
                u.set(ups=[{'_del': k}])
            else:
                u.up_ids.remove(k)
        elif m == 'pop':
            want = have[:-1]
            u.up_ids.pop()
        else:
            new = [k for k in ks if k not in have]
            if not new:
                return False
            want = list(have)
            want[i % len(have)] = new[0]
            u.up_ids[i % len(have)] = new[0]
        if list(u.up_ids or []) != want:
            raise Violation('keys-wrong', f'keys set to {want} read back as '
                            f'{u.up_ids}')
        linked = self.others('U', 'ups', uid(u))
        for k in linked - set(want):
            self.unlink('ups', uid(u), k)
        self.loose['ups'][uid(u)] = set(want) - linked
        return True

    # -- invariants

    def check(self, what):
        for r, ((lc, lf), (rc, rf)) in REL.items():
            self.check_side(what, r, 0, lc, lf)
            self.check_side(what, r, 1, rc, rf)
        for r, rk in KEYS.items():
            lc, lf = REL[r][0]
            for i, o in self.objs[lc].items():
                linked = self.others(lc, lf, i)
                loose = self.loose[r].get(i, set())
                got = getattr(o, rk)
                if r == 'ups':
                    got = list(got or [])
                    want = linked | loose
                    if len(got) != len(set(got)) or set(got) != want:
                        raise Violation(
                            'stale-key', f'after {what}: {LETTER[lc]} {i} '
                            f'holds keys {got}, linked to {sorted(linked)}'
                            f' plus keys {sorted(loose)}')
                else:
                    want = next(iter(linked or loose), None)
                    if linked:
                        want = self.objs[REL[r][1][0]][want].id
                    if got != want:
                        raise Violation(
                            'stale-key', f'after {what}: {LETTER[lc]} {i} '
                            f'holds {rk}={got}, linked to {sorted(linked)} '
                            f'keys {sorted(loose)}')

    def check_side(self, what, r, side, c, f):
        for i, o in self.objs[c].items():
            want = self.others(c, f, i)
            v = getattr(o, f)
            if v is None:
                got = []
            elif isinstance(v, list):
                got = list(v)
            else:
                got = [v]
            ids = [uid(x) for x in got]
            if len(ids) != len(set(ids)) or set(ids) != want:
                raise Violation(
                    'one-sided', f'after {what}: {LETTER[c]} {i}.{f} links '
                    f'{ids}, the other side says {sorted(want)}')
            t = self.target_letter(c, f)
            for x in got:
                if self.objs[t].get(uid(x)) is not x:
                    raise Violation('one-sided', f'after {what}: '
                                    f'{LETTER[c]} {i}.{f} links a copy')
