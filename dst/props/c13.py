"""C13: on-save processing of an object graph."""
from __future__ import annotations
from ..sim import (Violation, InjectedFault, SimCrash, HarnessError, Clock)
from ..seams import CUR

ID = 'C13'
QUICK = 9000
THOROUGH = 400000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (shape of the graph reached by the save: '
              'number of objects per class, cycles, new/modified/clean, how '
              'the save ended)')
REAL = ['save, validate and on-save processing of linked objects',
        'setonsave, fsetonsave, onsave, onwrite, onupdate, compare, '
        'validate modifiers', 'linking']
STUB = ['storage hook (marks the object as saved)', 'clock',
        'application callbacks (answers and faults come from the plan)']
ASSUMPTIONS = ['a field set by force on save is declared before the other '
               'on-save fields of its class']

W = {}


def cb(kind, obj_or_owner, val, *more):
    """Every application callback goes through here."""
    sim = CUR.sim
    if sim is None or getattr(sim, 'world', None) is None:
        return
    sim.world.calls.append((kind, W['uid'](obj_or_owner), val) + more)
    sim.maybe_raise('cb.' + kind)


def prepare():
    from jsonclasses import jsonclass, types
    seq = [0]

    def uid(o):
        if type(o) is int:
            return f'?{o}'
        if o is None or isinstance(o, (list, dict)):
            return f'<{type(o).__name__}>'
        return getattr(o, '_dst_uid', '?')
    W['uid'] = uid

    def setter(v):
        sim = CUR.sim
        if sim is not None and getattr(sim, 'world', None):
            sim.world.calls.append(('setter', None, v))
            sim.maybe_raise('cb.setter')
        return (v or 0) + 1

    def onsave(v):
        cb('onsave', 'x', v)

    def onwrite(v, ctx):
        cb('onwrite', ctx.owner, v)

    def onwritel(v, ctx):
        cb('onwritel', ctx.owner, plain(v))

    def onupdate(o, n, ctx):
        cb('onupdate', ctx.owner, n, o)

    def compare(o, n, ctx):
        cb('compare', ctx.owner, n, o)
        return True

    def check(v, ctx):
        cb('check', ctx.owner, v)
        return None if v != 'bad' else 'is bad'

    def precheck(v, ctx):
        cb('precheck', ctx.owner, v)
        return None if v != 666 else 'is refused'

    def begin(obj, op):
        sim = CUR.sim
        if sim is not None and getattr(sim, 'world', None):
            sim.world.begin(obj)

    @jsonclass(class_graph='c13', on_create=begin, on_update=begin)
    class Box:
        id: int = types.int.primary.required
        next: Box = types.objof('Box').linkto
        name: str = types.str.validate(check).required
        n: int = types.int.default(0)
        rev: int = types.int.default(0).setonsave(setter)
        copy: int = types.int.setonsave(types.this.fval('n'))
        seen: int = types.int.default(7).onsave(onsave)
        w: int = types.int.onwrite(onwrite)
        u: int = types.int.onupdate(onupdate)
        c: int = types.int.compare(compare)
        pre: int = types.int.setonsave(lambda v: v).validate(precheck)
        items: list[Item] = types.listof('Item').linkedby('box')
        prevs: list[Box] = types.listof('Box').linkedby('next')
        friends: list[Tag] = types.listof('Tag').linkedthru('friends')
        inner: Inner = types.objof('Inner')
        inners: list[Inner] = types.listof('Inner')
        innermap: dict[str, Inner] = types.dictof('Inner')
        mixed: Any = types.union([types.str, types.objof('Inner')])
        wl: list[int] = types.listof(int).onwrite(onwritel)
        wd: dict[str, list[int]] = types.dictof(
            types.listof(int)).onwrite(onwritel)

    @jsonclass(class_graph='c13', on_create=begin, on_update=begin)
    class Item:
        id: int = types.int.primary.required
        need: Tag = types.objof('Tag').linkto.required
        forced: int = types.int.default(0).fsetonsave(setter)
        name: str = types.str.validate(check).required
        n: int = types.int.default(0)
        rev: int = types.int.setonsave(setter)
        copy: int = types.int.setonsave(types.this.fval('n'))
        w: int = types.int.onwrite(onwrite)
        u: int = types.int.onupdate(onupdate)
        c: int = types.int.compare(compare)
        pre: int = types.int.setonsave(lambda v: v).validate(precheck)
        box: Box = types.objof('Box').linkto
        tag: Tag = types.objof('Tag').linkto

    @jsonclass(class_graph='c13', on_create=begin, on_update=begin)
    class Tag:
        id: int = types.int.primary.required
        friends: list[Box] = types.listof('Box').linkedthru('friends')
        items: list[Item] = types.listof('Item').linkedby('tag')
        name: str = types.str.validate(check).required
        n: int = types.int.default(0)
        rev: int = types.int.default(0).setonsave(setter)
        copy: int = types.int.setonsave(types.this.fval('n'))
        w: int = types.int.onwrite(onwrite)
        u: int = types.int.onupdate(onupdate)
        c: int = types.int.compare(compare)
        must: Item = types.objof('Item').linkto

    @jsonclass(class_graph='c13')
    class Inner:
        key: int = types.int.primary
        name: str
        n: int = types.int.default(0)
        rev: int = types.int.setonsave(setter)
        copy: int = types.int.setonsave(types.this.fval('n'))
        w: int = types.int.onwrite(onwrite)
        pre: int = types.int.setonsave(lambda v: v).validate(precheck)

    # subclasses where their base class is declared
    @jsonclass(class_graph='c13')
    class Inner2(Inner):
        erev: int = types.int.default(0).setonsave(setter)

    @jsonclass(class_graph='c13', on_create=begin, on_update=begin)
    class Tag2(Tag):
        erev: int = types.int.default(0).setonsave(setter)
    cs = dict(Box=Box, Item=Item, Tag=Tag, Inner=Inner, Inner2=Inner2,
              Tag2=Tag2)
    W.update(cs)

    def write(self):
        sim = CUR.sim
        if sim is not None and getattr(sim, 'world', None):
            sim.world.write(self)
        self._mark_unmodified()
    for c in cs.values():
        c._database_write = write
    # no reference to required objects is made in the schema itself
    W['REFS'] = {'Box': ('items', 'next', 'prevs', 'friends', 'inner',
                         'inners', 'innermap', 'mixed'),
                 'Item': ('box', 'tag', 'need'),
                 'Tag': ('friends', 'items', 'must'),
                 'Inner': ()}
    W['SCALARS'] = {'Box': ('id', 'name', 'n', 'seen', 'w', 'u', 'c', 'pre',
                            'wl', 'wd', 'next_id'),
                    'Item': ('id', 'name', 'n', 'w', 'u', 'c', 'pre',
                             'need_id', 'box_id', 'tag_id'),
                    'Tag': ('id', 'name', 'n', 'w', 'u', 'c', 'must_id'),
                    'Inner': ('key', 'name', 'n', 'w', 'pre')}


def plain(v):
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def cname(o):
    """The class an object stands for (a subclass has the same rules)."""
    return type(o).__name__.rstrip('2')


KINDS = ('box', 'item', 'tag', 'attr', 'attr', 'attr', 'link', 'link',
         'link', 'unlink', 'key', 'inner', 'innerattr', 'save', 'save', 'save',
         'bad', 'pre', 'validate', 'wlist', 'inner', 'innerattr')


def gen(rng):
    n = rng.choice([4, 8, 14, 22])
    pool = list(KINDS) if rng.maybe(.5) else \
        rng.sample(KINDS, 6) + ['save', 'link', 'attr']
    ops = [['box', 0, 0, 0], [rng.choice(['item', 'tag', 'box']), 0, 0, 0]]
    for _ in range(n):
        ops.append([rng.choice(pool), rng.randrange(8), rng.randrange(8),
                    rng.randrange(40)])
    ops.append(['save', rng.randrange(4), 0, 0])
    faults = []
    if rng.maybe(.45):
        for _ in range(rng.choice([1, 1, 2, 4])):
            p = rng.choice(['store.write', 'cb.setter', 'cb.onsave',
                            'cb.onwrite', 'cb.onupdate', 'cb.check',
                            'cb.compare', 'cb.precheck'])
            faults.append({'point': p, 'n': int(2 ** (rng.random() * 5)) - 1,
                           'kind': 'error'})
    return {'ops': ops, 'faults': faults}


def invalid(s):
    if s['cls'] == 'Inner':
        return False
    if s['cls'] == 'Box' and (s['new'] or 'mixed' in s['mod']) and \
            s['links']['mixed'] == '?5':
        return True
    if s['cls'] == 'Item' and s['vals']['need_id'] is None:
        return True
    return s['vals']['name'] in ('bad', None) and \
        (s['new'] or 'name' in s['mod'])


class World:

    def __init__(self, sim):
        self.sim = sim
        self.calls = []
        self.objs = []
        self.n = 0
        self.uids = 0
        self.passes = []
        self.done = 0

    def reg(self, o):
        self.uids += 1
        o._dst_uid = self.uids
        return o

    # -- one pass of on-save processing over the graph

    def reach(self, root):
        out, todo = [], [root]
        seen = set()
        while todo:
            o = todo.pop(0)
            if o is None or id(o) in seen:
                continue
            seen.add(id(o))
            out.append(o)
            for f in W['REFS'][cname(o)]:
                if f in ('innermap', 'mixed') and not (o.is_new or o.is_modified):
                    continue    # stored inside an object nobody changed
                v = getattr(o, f)
                if isinstance(v, (str, int)):
                    continue
                if isinstance(v, list):
                    todo.extend(v)
                elif isinstance(v, dict):
                    todo.extend(v.values())
                else:
                    todo.append(v)
        return out

    def links(self, o):
        out = {}
        for f in W['REFS'][cname(o)]:
            v = getattr(o, f)
            if isinstance(v, dict):
                v = {k: W['uid'](x) for k, x in v.items()}
            elif isinstance(v, list):
                v = [W['uid'](x) for x in v]
            elif v is not None and not isinstance(v, str):
                v = W['uid'](v)
            out[f] = v
        return out

    def begin(self, root):
        reached = self.reach(root)
        snap = []
        for o in reached:
            cls = cname(o)
            mod = {m.split('.')[0] for m in o.modified_fields}
            snap.append(dict(
                o=o, cls=cls, new=o.is_new, mod=mod, dirty=o.is_modified,
                rev=o.rev, forced=getattr(o, 'forced', None), copy=o.copy,
                erev=getattr(o, 'erev', None),
                vals={f: plain(getattr(o, f)) for f in W['SCALARS'][cls]},
                links=self.links(o), prev=dict(o.previous_values)))
        others = [(o, self.links(o), o.rev) for o in self.objs
                  if all(o is not r for r in reached)]
        self.cur = dict(root=root, snap=snap, at=len(self.calls),
                        others=others)

    def write(self, obj):
        f = self.sim.hit('store.write')
        self.judge(obj, True)
        if f is not None:
            raise InjectedFault('store.write', f['n'], f['kind'])
        self.done += 1

    def judge(self, root, ok):
        cur = self.cur
        if ok and cur['root'] is not root:
            raise Violation('wrong-object-written', 'another object than the '
                            'one being saved was written')
        calls = self.calls[cur['at']:]
        for s in cur['snap']:
            o, cls = s['o'], s['cls']
            who = f"{cls}#{W['uid'](o)}"
            live = s['new'] or s['dirty'] or cls == 'Item'
            if self.links(o) != s['links']:
                raise Violation('save-changed-links',
                                f"{who}: {s['links']} became {self.links(o)}")
            for f, v in s['vals'].items():
                if getattr(o, f) != v:
                    raise Violation('save-changed-value', f'{who}.{f}: {v!r} '
                                    f'became {getattr(o, f)!r}')
            if o.is_new != s['new']:
                raise Violation('save-changed-status', f'{who} is_new')
            want_rev = (s['rev'] or 0) + 1 if live else s['rev']
            want_copy = s['vals']['n'] if live else s['copy']
            want_forced = None if s['forced'] is None else s['forced'] + 1
            want_erev = s['erev'] + 1 if live and s['erev'] is not None \
                else s['erev']
            have = (o.rev, o.copy, getattr(o, 'forced', None),
                    getattr(o, 'erev', None))
            want = (want_rev, want_copy, want_forced, want_erev)
            was = (s['rev'], s['copy'], s['forced'], s['erev'])
            if ok and have != want:
                raise Violation('on-save-value', f'{who} (new={s["new"]}, '
                                f'modified={s["dirty"]}): rev, copy, forced, erev '
                                f'were {was}, are {have}, expected {want}')
            if not ok and any(h not in (w, b) for h, w, b in
                              zip(have, want, was)):
                raise Violation('on-save-value', f'{who} after a failed save:'
                                f' were {was}, are {have}')
            if not live and not s['dirty'] and o.is_modified:
                raise Violation('save-modified-clean-object',
                                f'{who} reports {o.modified_fields}')
        for o, links, rev in cur['others']:
            if self.links(o) != links or o.rev != rev:
                raise Violation('unreached-object-changed',
                                f"{cname(o)}#{W['uid'](o)}")
        if not ok:
            self.calls_once(calls)
            return
        # callbacks: exactly once, with the right values and owner
        want = {'onwrite': [], 'onwritel': [], 'onupdate': [], 'onsave': [], 'setter': []}
        for s in cur['snap']:
            o, cls = s['o'], s['cls']
            u = W['uid'](o)
            live = s['new'] or s['dirty'] or cls == 'Item'
            if not live:
                continue
            if s['new'] or 'w' in s['mod']:
                want['onwrite'].append((u, s['vals']['w']))
            for f in ('wl', 'wd') if cls == 'Box' else ():
                if s['new'] or f in s['mod']:
                    want['onwritel'].append((u, s['vals'][f]))
            if 'u' in s['prev']:
                want['onupdate'].append((u, s['vals']['u'], s['prev']['u']))
            if cls == 'Box':
                want['onsave'].append(('?', s['vals']['seen']))
            want['setter'].append((None, s['rev']))
            if s['erev'] is not None:
                want['setter'].append((None, s['erev']))
            if cls == 'Item':
                want['setter'].append((None, s['forced']))
        for kind, exp in want.items():
            got = [c[1:] for c in calls if c[0] == kind]
            if sorted(map(repr, got)) != sorted(map(repr, exp)):
                raise Violation('callbacks-' + kind, f'expected {exp}, '
                                f'got {got} (object, value, ...)')
        if not self.skip:
            want = {'check': [], 'compare': []}
            for s in cur['snap']:
                if s['cls'] == 'Inner':
                    continue
                u = W['uid'](s['o'])
                if (s['new'] or 'name' in s['mod']) and \
                        s['vals']['name'] is not None:
                    want['check'].append((u, s['vals']['name']))
                if 'c' in s['prev']:
                    want['compare'].append((u, s['vals']['c'],
                                            s['prev']['c']))
            for kind, exp in want.items():
                got = [c[1:] for c in calls if c[0] == kind]
                if sorted(map(repr, got)) != sorted(map(repr, exp)):
                    raise Violation('validation-' + kind, f'expected {exp}, '
                                    f'got {got} (object, value, ...)')
        bad = [s for s in cur['snap'] if s['vals'].get('pre') == 666
               and (s['new'] or s['dirty'] or s['cls'] == 'Item')]
        if bad:
            raise Violation('stored-although-refused', 'the check after an '
                            'on-save value refused, but the object was '
                            'written')
        if not self.skip and any(map(invalid, cur['snap'])):
            raise Violation('stored-although-invalid', 'a linked object is '
                            'invalid, but the object was written')
        self.shape(cur, 'ok')

    def calls_once(self, calls):
        seen = set()
        for c in calls:
            if c[0] in ('onwrite', 'onupdate', 'compare', 'check'):
                key = (c[0], c[1])
                if key in seen and c[1] != '?':
                    raise Violation('callback-twice', f'{c}')
                seen.add(key)

    def shape(self, cur, how):
        kinds = {}
        for s in cur['snap']:
            k = (s['cls'], s['new'], s['dirty'])
            kinds[k] = min(3, kinds.get(k, 0) + 1)
        edges = sum(len(v) if isinstance(v, (list, dict)) else v is not None
                    for s in cur['snap'] for v in s['links'].values())
        self.sim.state(sorted(map(repr, kinds.items())), edges, how)


def run(plan, sim):
    sim.clock = Clock(tick=0)
    w = sim.world = World(sim)
    w.skip = False
    w.cur = None

    def pick(k, cls=None):
        c = [o for o in w.objs if cls is None or cname(o) == cls]
        return c[k % len(c)] if c else None

    def add(cls, **kw):
        w.n += 1
        o = w.reg(W[cls](id=w.n, name=f'n{w.n}', **kw))
        w.objs.append(o)
        return o

    for op in plan['ops']:
        kind, x, y, z = op
        if kind == 'box':
            add('Box', n=z)
        elif kind == 'item':
            add('Item', n=z, need_id=500 + z)
        elif kind == 'tag':
            add('Tag2' if z % 4 == 1 else 'Tag', n=z)
        elif kind == 'attr':
            o = pick(x)
            setattr(o, ['n', 'w', 'u', 'c', 'n'][y % 5], z)
        elif kind == 'bad':
            o = pick(x)
            if z % 3 == 0:
                o.name = 'bad'
            elif z % 3 == 1:
                o.name = f'good{z}'
            elif cname(o) == 'Item' and z % 2:
                o.need_id = None if o.need_id is not None else 600
            else:
                o.name = None
        elif kind == 'pre':
            o = pick(x)
            if hasattr(type(o), 'cdef') and 'pre' in W['SCALARS'][cname(o)]:
                o.pre = 666 if z % 3 == 0 else z
        elif kind == 'link':
            link(w, pick, x, y, z)
        elif kind == 'unlink':
            unlink(pick, x, y, z)
        elif kind == 'key':
            # a link to an object that is not loaded
            o = pick(x)
            f = {'Box': ['next_id'], 'Item': ['box_id', 'tag_id', 'need_id'],
                 'Tag': ['must_id']}[cname(o)]
            setattr(o, f[y % len(f)], 700 + z)
        elif kind == 'inner':
            o = pick(x, 'Box')
            if o is not None:
                new = [w.reg(W['Inner2' if (y + z + i) % 5 == 0 else 'Inner'](
                    name='i', n=z + i, key=z // 2 if z % 2 else None))
                       for i in range(1 + z % 2)]
                if y % 6 == 0:
                    o.inner = new[0]
                elif y % 6 == 1:
                    o.inners = new
                elif y % 6 == 4:
                    o.mixed = new[0]
                elif y % 6 == 5:
                    o.mixed = o.inner if z % 2 else \
                        [None, 'text', 5][z // 2 % 3]
                elif y % 6 == 2:
                    o.innermap = {str(i): v for i, v in enumerate(new)}
                else:
                    o.inner = None
        elif kind == 'innerattr':
            o = pick(x, 'Box')
            i = o and (o.mixed if y % 2 else o.inner)
            if isinstance(i, W['Inner']):
                i.n = z
                if z % 2:
                    i.w = z
                elif z % 3 != 1:
                    i.pre = 666 if z % 4 == 0 else z
        elif kind == 'wlist':
            o = pick(x, 'Box')
            if o is not None:
                change_list(o, y, z)
        elif kind == 'validate':
            check_validate(w, pick(x), bool(y % 2))
        elif kind == 'save':
            do_save(w, sim, pick(x), z)
        sim.ev(kind, x, y, z)
    sim.ev('calls', [list(map(str, c)) for c in w.calls])
    sim.count('writes', w.done)


def change_list(o, y, z):
    if y % 4 == 0 or o.wl is None:
        o.wl = [z]
    elif y % 4 == 1:
        o.wl.append(z)
    elif y % 4 == 2 or o.wd is None:
        o.wd = {'a': [z], 'b': []}
    else:
        o.wd['ab'[z % 2]].append(z)


def put(o, f, t):
    if t is None:
        return
    cur = getattr(o, f)
    if cur is None:
        setattr(o, f, [t])
    elif all(t is not i for i in cur):
        cur.append(t)


def link(w, pick, x, y, z):
    o = pick(x)
    cls = cname(o)
    if cls == 'Box':
        k = y % 4
        if k == 0:
            put(o, 'items', pick(z, 'Item'))
        elif k == 1:
            o.next = pick(z, 'Box')
        elif k == 2:
            put(o, 'friends', pick(z, 'Tag'))
        else:
            put(o, 'prevs', pick(z, 'Box'))
    elif cls == 'Item':
        if y % 2:
            o.box = pick(z, 'Box')
        else:
            o.tag = pick(z, 'Tag')
    else:
        t = pick(z, 'Item')
        if t is not None:
            if y % 3 == 0:
                o.must = t
            elif y % 3 == 1:
                put(o, 'items', t)
            else:
                o.must = None


def unlink(pick, x, y, z):
    o = pick(x)
    cls = cname(o)
    if cls == 'Box':
        if y % 2 and o.items:
            o.items.pop(z % len(o.items))
        elif o.friends:
            o.friends.pop(z % len(o.friends))
        else:
            o.next = None
    elif cls == 'Item':
        if y % 2:
            o.box = None
        else:
            o.tag = None
    else:
        if o.friends:
            o.friends.pop()
        else:
            o.must = None


def check_validate(w, o, all_fields):
    from jsonclasses.excs import ValidationException
    w.begin(o)
    try:
        o.validate(all_fields=all_fields)
        good = True
    except ValidationException:
        good = False
    except InjectedFault:
        w.judge_unchanged()
        return
    snap = w.cur['snap']
    want = not any(map(invalid, snap))
    if good != want:
        raise Violation('validity', f'validate said {good}, but the linked '
                        f'objects are {"valid" if want else "not valid"}')
    w.judge_unchanged()
    w.calls_once(w.calls[w.cur['at']:])
    w.sim.count('validations')


def _unchanged(self):
    for s in self.cur['snap']:
        o = s['o']
        now = (o.rev, o.copy, getattr(o, 'forced', None),
               getattr(o, 'erev', None), self.links(o),
               o.is_modified, {m.split('.')[0] for m in o.modified_fields})
        was = (s['rev'], s['copy'], s['forced'], s['erev'], s['links'],
               s['dirty'],
               s['mod'])
        if now != was:
            raise Violation('validate-changed-object', f'{was} -> {now}')


World.judge_unchanged = _unchanged


def do_save(w, sim, o, z):
    from jsonclasses.excs import ValidationException
    w.skip = z % 7 == 3
    w.cur = None
    try:
        o.save(skip_validation=w.skip, validate_all_fields=bool(z % 2))
    except InjectedFault as e:
        sim.count('failed_saves')
        if e.point != 'store.write':
            w.judge(o, False)
        w.shape(w.cur, 'fault')
    except ValidationException:
        sim.count('refused_saves')
        snap = w.cur['snap']
        bad = any((not w.skip and invalid(s)) or
                  s['vals'].get('pre') == 666 for s in snap)
        if not bad:
            raise Violation('save-refused', 'every reached object is valid')
        w.judge(o, False)
        w.shape(w.cur, 'refused')
    else:
        # embedded objects are stored with their owner
        for r in w.reach(o):
            if cname(r) == 'Box':
                if not r.is_new and not r.is_modified:
                    for v in [r.inner, r.mixed] + list(r.inners or []) + \
                            list((r.innermap or {}).values()):
                        if isinstance(v, W['Inner']):
                            v._mark_unmodified()
    w.skip = False
