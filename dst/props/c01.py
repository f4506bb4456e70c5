"""C01: threads working on their own objects get what they would get one after
another."""
from __future__ import annotations
import json
import os
import struct
import sys
import traceback
from ..sim import (Violation, HarnessError, Clock, Scheduler, Sites,
                   gen_switches)
from ..seams import CUR, LIB_ROOT
from .. import c01hot

ID = 'C01'
QUICK = 5500
THOROUGH = 120000
BATCH = 20
AXES = ('sites', 'coldsweep.0', 'coldsweep.1', 'rounds', 'switches', 'progs.0', 'progs.1', 'progs.2', 'late',
        'rounds.0.switches', 'rounds.0.progs.0', 'rounds.0.progs.1',
        'rounds.0.progs.2')
STATE_RULE = ('distinct hashes of (thread preempted at which library step, '
              'which thread runs next) over all context switches, with the '
              'programs of the threads')
REAL = ['all library code, run by real threads', 'lazy resolution of types, '
        'references and names at first use', 'permission checks and operators',
        'transform, validate, tojson, save']
STUB = ['thread scheduler (one thread at a time, preempted where the plan '
        'says)', 'locks (scheduling points)', 'clock (frozen)',
        'storage (records what is written)']
ASSUMPTIONS = ['threads do not modify objects of another thread; shared '
               'objects are only read', 'preemption happens between lines '
               '(a share of the runs: between bytecodes) of library code']

FAMILIES = {}


class Op:
    def __init__(self, tid):
        self.tid = tid
        self._id = 9000 + tid


def log(tid, *what):
    sim = CUR.sim
    if sim is not None and getattr(sim, 'traces', None) is not None:
        sim.traces.setdefault(tid, []).append(list(what))


def define(g):
    from enum import Enum
    from jsonclasses import jsonclass, jsonenum, types

    @jsonenum(class_graph=g)
    class Role(Enum):
        ADMIN = 1
        WRITER = 2
        READER = 3

    def can(action):
        def check(obj, op):
            log(tid_of(obj.id), 'can', action, obj.id, op.tid)
            return op.tid == tid_of(obj.id)
        return check

    def cb(action):
        def run(obj, op):
            log(tid_of(obj.id), 'on', action, obj.id,
                None if op is None else op.tid)
        return run

    def mine(val, ctx):
        # the operator seen by a field is the operator of its own object
        log(tid_of(ctx.root.id), 'asop', ctx.operator.tid
            if ctx.operator else None)
        return True

    @jsonclass(class_graph=g, can_update=can('update'),
               on_create=cb('create'), on_update=[cb('update')])
    class Author:
        id: int = types.int.primary.required
        name: str = types.str.minlength(2).required
        role: Optional[Role]
        tags: Optional[dict[str, list[str]]]
        articles: list[Article] = types.listof('Article').linkedby('author')
        drafts: Annotated[list[Draft], linkedby('writer')]
        profile: Profile = types.objof('Profile').linkedby('author')
        groups: list[Group] = types.listof('Group').linkedthru('authors')
        address: Address = types.objof('Address')
        score: int = types.int.default(0).compare(lambda o, n: n >= o)
        label: str = types.str.getter(lambda o: f'{o.name}/{o.id}') \
            .setter(lambda v, o: setattr(o, 'name', v))

    @jsonclass(class_graph=g)
    class Article:
        id: int = types.int.primary.required
        title: str = types.str.trim.required
        author: Author = types.objof('Author').linkto
        comments: list[Comment] = types.nonnull.listof('Comment') \
            .linkedby('article')
        secret: str = types.str.writeonly

    @jsonclass(class_graph=g)
    class Draft:
        id: int = types.int.primary.required
        text: Optional[str]
        writer: Annotated[Author, linkto]

    @jsonclass(class_graph=g)
    class Comment:
        id: int = types.int.primary.required
        body: str = types.str.validate(mine).required
        article: Article = types.objof('Article').linkto

    @jsonclass(class_graph=g, strict_input=True)
    class Profile:
        id: int = types.int.primary.required
        bio: str = types.str.canr(lambda op, obj, val: True)
        author: Author = types.objof('Author').linkto
        links: list[Union[str, int]] = types.listof(
            types.union([types.str, types.int]))

    @jsonclass(class_graph=g, reset_all_fields=True)
    class Group:
        id: int = types.int.primary.required
        name: str
        authors: list[Author] = types.listof('Author').linkedthru('groups')
        members: list[Author] = types.listof('Author').linkto
        owner_role: Role
        meta: Optional[dict[str, Address]]
        matrix: Optional[list[list[int]]]

    @jsonclass(class_graph=g)
    class Address:
        line: str
        zip: int = types.int.range(1, 99999)

    cs = {c.__name__: c for c in (Author, Article, Draft, Comment, Profile,
                                  Group, Address)}

    def write(self):
        log(tid_of(self.id), 'write', type(self).__name__, self.id,
            sorted(self.persisted_modified_fields), self.is_new)
        self._mark_unmodified()

    def remove(self):
        log(tid_of(self.id), 'delete', type(self).__name__, self.id)
    for c in cs.values():
        c._database_write = write
        c._orm_delete = remove
    cs['Role'] = Role
    return cs


def tid_of(i):
    return (i // 1000) if i is not None else 0


def prepare():
    FAMILIES['cold'] = define('c01-cold')
    FAMILIES['warm'] = define('c01-warm')

    class S:
        traces = None
    c01hot.define()
    env = Env(FAMILIES['warm'], 0, None)
    for kind in KINDS:
        for a in range(3):
            env.step([kind, a, a + 1])


KINDS = ('author', 'article', 'nested', 'group', 'profile', 'set', 'badset',
         'update', 'refname', 'json', 'jsonopt', 'validate', 'save', 'link',
         'unlink', 'keypath', 'reset', 'badauthor', 'badkey', 'delete', 'op',
         'noop', 'calc', 'comment', 'draft', 'names', 'foreign', 'enum',
         'shared', 'sharedvalid', 'thru', 'meta', 'assignlist')


def gen_round(rng, opcodes=False):
    """Threads inside the same code, everything resolved already."""
    n = rng.choice([2, 2, 2, 3])
    kinds = c01hot.HOT_KINDS if rng.maybe(.3) else \
        rng.sample(c01hot.HOT_KINDS, 2)
    same = rng.maybe(.6)
    kind = rng.choice(kinds)
    progs = []
    for _ in range(n):
        k = rng.choice([1, 1, 1, 2])
        progs.append([[kind if same else rng.choice(kinds),
                       rng.randrange(256), rng.randrange(24)]
                      for _ in range(k)])
    switches = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        if rng.maybe(.3):
            switches.append(['seam', 1 + rng.randrange(6), rng.randrange(3)])
        elif rng.maybe(.8):
            switches.append(['frac', round(rng.random(), 3), rng.randrange(3)])
        else:
            switches.append(['frac', round(.08 * rng.random(), 3),
                             rng.randrange(3)])
    return {'n': n, 'progs': progs, 'cls': c01hot.class_for(rng, kind),
            'switches': switches,
            'order': [rng.randrange(n) for _ in range(n)],
            'start': [[rng.choice([0, 0, rng.randrange(256)]),
                       rng.choice([0, 0, rng.randrange(24)])]
                      for _ in range(n)],
            'opcodes': opcodes}


def gen_sweep(rng):
    """Two threads; one is preempted exactly once, at each of many library
    lines in turn, and the other runs to its end there."""
    hot = rng.maybe(.65)
    if hot:
        kinds, xs, ys = c01hot.HOT_KINDS, 256, 24
    else:
        kinds, xs, ys = [k for k in KINDS if not k.startswith('shared')], 4, 6
    a = [rng.choice(kinds), rng.randrange(xs), rng.randrange(ys)]
    b = [a[0] if rng.maybe(.75) else rng.choice(kinds), rng.randrange(xs),
         rng.randrange(ys)]
    if rng.maybe(.2):
        b[1:] = a[1:]

    n1, n2 = 16, 24
    off1, off2 = rng.random(), rng.random()

    def site(i):
        # spread over all lines, or (rare code first) over source files
        s = [[round((i + off1) / n1, 4)] if i < n1 else
             [round((i - n1 + off2) / n2, 4), round(rng.random(), 4)],
             rng.choice([0, 0, 0, 0, .5, 1, round(rng.random(), 2)])]
        if rng.maybe(.1):
            s += [[round(rng.random(), 4)], rng.choice([0, 0, .5])]
        return s
    return {'faults': [], 'sweep': c01hot.class_for(rng, a[0]) if hot else '',
            'progs': [[a], [b]],
            'start': [[rng.choice([0, 0, rng.randrange(xs)]),
                       rng.choice([0, 0, rng.randrange(ys)])]
                      for _ in range(2)],
            'sites': [site(i) for i in range(n1 + n2)]}


# where definitions are completed when they are used first
LAZY = ('fdef.py', 'fdef.py', 'cdef.py', 'jfield.py', 'rtypes.py', 'types.py',
        'cgraph.py', 'jconf.py', 'ctx.py')


def gen_coldsweep(rng):
    """Two threads use classes nobody has used before; one is preempted once,
    at each of many lines that completing the definitions runs."""
    kinds = [k for k in KINDS if not k.startswith('shared')]
    a = [rng.choice(kinds), rng.randrange(4), rng.randrange(6)]
    b = [a[0] if rng.maybe(.7) else rng.choice(kinds), rng.randrange(4),
         rng.randrange(6)]
    n = 28
    off = rng.random()
    return {'faults': [], 'fresh': True, 'coldsweep': [[a], [b]],
            'late': [[rng.choice(kinds), rng.randrange(4), rng.randrange(6)]]
            if rng.maybe(.4) else [],
            'sites': [[int(i % 4 == 3), round((i + off) / n, 4),
                       rng.choice([0, 0, .5, 1])] for i in range(n)]}


def gen(rng):
    if rng.maybe(.08):
        return gen_coldsweep(rng)
    if rng.maybe(.45):
        return gen_sweep(rng)
    if rng.maybe(.35):
        if rng.maybe(.06):
            # bytecode steps depend on what the interpreter has run before
            return {'faults': [], 'fresh': True, 'opcodes': True,
                    'rounds': [gen_round(rng, True) for _ in range(3)]}
        return {'faults': [], 'rounds': [gen_round(rng) for _ in range(6)]}
    n = rng.choice([2, 2, 2, 3])
    cold = rng.maybe(.75)
    pool = list(KINDS) if rng.maybe(.5) else rng.sample(KINDS, 6)
    same = rng.maybe(.45)

    def prog():
        k = rng.choice([1, 1, 1, 2, 2, 4])
        return [[rng.choice(pool), rng.randrange(4), rng.randrange(6)]
                for _ in range(k)]
    first = prog()
    progs = [first] + [list(first) if same else prog() for _ in range(n - 1)]
    return {'n': n, 'family': 'cold' if cold else 'warm', 'progs': progs,
            'late': prog() if rng.maybe(.7) else [],
            'order': [rng.randrange(n) for _ in range(n)],
            'opcodes': rng.maybe(.06), 'ops_set': [rng.randrange(3)
                                                   for _ in range(n)],
            'shared': any(o[0].startswith('shared') for p in progs
                          for o in p),
            'fresh': True,
            'switches': gen_switches(rng, n, files=LAZY, span=160, how='r:',
                                     share=.4)}


def norm(v, depth=0):
    if depth > 8:
        return '...'
    if isinstance(v, dict):
        return {str(k): norm(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(str(x) for x in v)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if hasattr(v, '__is_jsonclass__') and not isinstance(v, type):
        return [type(v).__name__, getattr(v, 'id', None)]
    if isinstance(v, type):
        return v.__name__
    return repr(v)[:60]


class Env:
    """The objects and operations of one thread."""

    def __init__(self, c, tid, shared, operator=True):
        self.c = c
        self.tid = tid
        self.shared = shared
        self.next = tid * 1000
        self.a = None
        self.objs = []
        self.op = Op(tid) if operator else None

    def id(self):
        self.next += 1
        return self.next

    def author(self):
        if self.a is None:
            self.a = self.c['Author'](id=self.id(), name='au').opby(self.op)
            self.objs.append(self.a)
        return self.a

    def pick(self, k):
        self.author()
        return self.objs[k % len(self.objs)]

    def step(self, op):
        kind, x, y = op
        try:
            r = getattr(self, 'do_' + kind)(x, y)
            out = ['ok', norm(r)]
        except RecursionError:
            out = ['exc', 'RecursionError']
        except Exception as e:  # the outcome of the operation
            msgs = getattr(e, 'keypath_messages', None)
            out = ['exc', type(e).__name__, norm(msgs) if msgs
                   else str(e)[:200]]
        log(self.tid, kind, x, y, out)
        return out

    def add(self, o):
        self.objs.append(o.opby(self.op))
        return o

    def do_author(self, x, y):
        self.a = self.add(self.c['Author'](
            id=self.id(), name=['ab', 'cd', 'ef', 'x'][x % 4],
            role=['ADMIN', 'READER', 'NOPE', 'WRITER'][y % 4], tags={'k': ['a', 'b']},
            address={'line': 'l', 'zip': 1 + y}))
        return self.a.tojson()

    def do_badauthor(self, x, y):
        a = self.c['Author'](id=self.id(), name='a', role='ADMIN')
        return a.validate(all_fields=bool(x % 2))

    def do_article(self, x, y):
        o = self.add(self.c['Article'](id=self.id(), title=' t ',
                                       secret='s', author=self.author()))
        return [o.tojson(), o.tojson(ignore_writeonly=True),
                norm(self.author().articles)]

    def do_nested(self, x, y):
        o = self.add(self.c['Author'](
            id=self.id(), name='nested', articles=[
                {'id': self.id(), 'title': 'a',
                 'comments': [{'id': self.id(), 'body': 'c'}]},
                {'id': self.id(), 'title': 'b'}][:1 + x % 2],
            profile={'id': self.id(), 'bio': 'b', 'links': ['x', 1]},
            drafts=[{'id': self.id(), 'text': 'd'}],
            groups=[{'id': self.id(), 'name': 'g'}][:y % 2]))
        return [o.tojson(), o.tojson(reverse_relationship=True),
                [p.author_id for p in o.articles],
                [c.article_id for p in o.articles for c in p.comments]]

    def do_group(self, x, y):
        g = self.add(self.c['Group'](
            id=self.id(), name='g', owner_role='WRITER',
            meta={'a': {'line': 'x', 'zip': 4}}, matrix=[[1], [2, 3]],
            members=[self.author()] if y % 2 else []))
        return [g.tojson(), norm(g.member_ids)]

    def do_meta(self, x, y):
        g = self.add(self.c['Group'](id=self.id(), name='g',
                                     owner_role='NOPE' if y % 2 else 'ADMIN',
                                     matrix=[[1, 'x']] if x % 2 else [[1]]))
        g.validate()
        return g.tojson()

    def do_profile(self, x, y):
        p = self.add(self.c['Profile'](id=self.id(), bio='hello',
                                       author=self.author(),
                                       links=['a', 2]))
        return [p.tojson(), self.author().profile is p, p.author_id]

    def do_set(self, x, y):
        o = self.author()
        o.set(name=['new', ' n2', 'n3', 'x'][x % 4], score=y,
              tags={'z': [str(y)]})
        return [o.tojson(), sorted(o.modified_fields)]

    def do_badset(self, x, y):
        return self.author().set(tags=5, role='NOPE').tojson()

    def do_badkey(self, x, y):
        return self.c['Profile'](id=self.id(), nope=1)

    def do_update(self, x, y):
        o = self.pick(x)
        if type(o).__name__ == 'Article':
            o.update(title='u', author_id=self.author().id)
        else:
            o.update(id=o.id, bogus=1)
        return [sorted(o.modified_fields), o.tojson()]

    def do_refname(self, x, y):
        a = self.author()
        o = self.add(self.c['Article'](id=self.id(), title='r',
                                       **{['author_id', 'authorId'][y % 2]:
                                          a.id}))
        return [o.author_id, o.tojson()]

    def do_json(self, x, y):
        return self.pick(x).tojson()

    def do_jsonopt(self, x, y):
        return self.pick(x).tojson(reverse_relationship=bool(y % 2),
                                   output_null=bool(y // 2 % 2))

    def do_validate(self, x, y):
        o = self.pick(x)
        return [o.is_valid, norm(o.validate(all_fields=True))]

    def do_save(self, x, y):
        o = self.pick(x)
        o.save()
        return [o.is_new, o.is_modified]

    def do_link(self, x, y):
        a = self.author()
        o = self.add(self.c['Article'](id=self.id(), title='l'))
        if a.articles is None:
            a.articles = [o]
        else:
            a.articles.append(o)
        return [norm(a.articles), norm(o.author), o.author_id,
                sorted(a.modified_fields)]

    def do_assignlist(self, x, y):
        a = self.author()
        a.articles = [self.add(self.c['Article'](id=self.id(), title='q'))
                      for _ in range(x % 3)]
        return [norm(a.articles), [norm(o.author) for o in a.articles]]

    def do_unlink(self, x, y):
        a = self.author()
        if a.articles:
            o = a.articles.pop()
            return [norm(o.author), o.author_id, norm(a.articles)]

    def do_thru(self, x, y):
        a = self.author()
        g = self.add(self.c['Group'](id=self.id(), name='t',
                                     owner_role='ADMIN'))
        a.groups = [g]
        return [norm(g.authors), norm(a.groups), a.tojson()]

    def do_keypath(self, x, y):
        a = self.author()
        if a.tags is None or y % 3:
            a.tags = {'k': ['q']}
        a.set(**{'tags.k.0': 'zz'})
        return [norm(a.tags), sorted(a.modified_fields)]

    def do_reset(self, x, y):
        g = self.add(self.c['Group'](id=self.id(), name='g',
                                     owner_role='ADMIN', matrix=[[1]]))
        g.save()
        g.name = 'h'
        g.matrix[0].append(5)
        g.reset()
        return [g.name, norm(g.matrix), g.is_modified]

    def do_delete(self, x, y):
        self.pick(x).delete()

    def do_op(self, x, y):
        a = self.author()
        a.opby(Op(self.tid if y % 3 else 99))
        a.save()
        return a.is_new

    def do_noop(self, x, y):
        a = self.author()
        a.opby(None)
        a.save()
        return a.is_new

    def do_calc(self, x, y):
        a = self.author()
        a.label = f'calc{y}'
        return [a.label, a.name]

    def do_comment(self, x, y):
        ar = self.add(self.c['Article'](id=self.id(), title='c'))
        c = self.add(self.c['Comment'](id=self.id(), body='x', article=ar))
        c.validate()
        c.save()
        return [c.tojson(), norm(ar.comments)]

    def do_draft(self, x, y):
        d = self.add(self.c['Draft'](id=self.id(), text='x',
                                     writer=self.author()))
        return [d.tojson(), d.writer_id, norm(self.author().drafts)]

    def do_names(self, x, y):
        cd = self.c[['Article', 'Group', 'Author'][x % 3]].cdef
        return [cd.available_names, cd.update_names, cd.reference_names,
                cd.list_reference_names, cd.virtual_reference_names,
                cd.camelized_reference_names,
                [f.name for f in cd.fields]]

    def do_foreign(self, x, y):
        cd = self.c[['Article', 'Group', 'Author', 'Profile'][x % 4]].cdef
        return [[f.name, f.foreign_class, f.foreign_field.name
                 if f.foreign_field else None, f.foreign_fname,
                 f.foreign_cdef.name if f.foreign_cdef else None,
                 f.fdef.is_ref, f.fdef.is_inst, f.fdef.has_linked]
                for f in cd.fields]

    def do_enum(self, x, y):
        a = self.c['Author'](id=self.id(), name='enum',
                             role=['reader', 'READER', 'WRITER'][y % 3])
        return [repr(a.role), a.tojson()]

    def do_shared(self, x, y):
        if self.shared is None:
            return None
        return [self.shared.tojson(), self.shared.tojson(
            reverse_relationship=True), norm(self.shared.articles)]

    def do_sharedvalid(self, x, y):
        if self.shared is None:
            return None
        return [self.shared.is_valid, self.shared.is_modified]


def make_shared(c):
    return c['Author'](id=1, name='shared', role='ADMIN',
                       articles=[{'id': 2, 'title': 'a', 'comments': [
                           {'id': 4, 'body': 'b'}]},
                           {'id': 3, 'title': 'b'}],
                       profile={'id': 5, 'bio': 'b'},
                       groups=[{'id': 6, 'name': 'g',
                                'ownerRole': 'ADMIN'}]).opby(Op(1))


def program(plan, c, tid, prog, shared, operator=True):
    env = Env(c, tid, shared, operator)
    for op in prog:
        env.step(op)


def in_fork(fn):
    """Run fn in a forked copy of this process; returns its (plain) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            data = json.dumps(fn()).encode()
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('<I', len(data)) + data)
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or len(data) < 4:
        raise HarnessError(f'solo run failed: {status}')
    return json.loads(data[4:])


class Lines:
    """Counts executed library lines."""

    def __init__(self):
        self.n = 0

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB_ROOT):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
        return self.local


def run_round(r, sim):
    n = r['n']
    tids = list(range(1, n + 1))

    def envs():
        sim.traces = {}
        es = [c01hot.HotEnv(t, r['cls'], *r['start'][t - 1])
              for t in tids]
        sim.traces = {t: [] for t in [0] + tids}
        return es
    es = envs()
    lengths = []
    for e, prog in zip(es, r['progs']):
        lines = Lines()
        sys.settrace(lines.glob)
        try:
            for op in prog:
                e.step(op)
        finally:
            sys.settrace(None)
        lengths.append(lines.n)
    expect = json.loads(json.dumps(sim.traces))
    es = envs()
    mean = max(1, sum(lengths) // n)
    first = (r['order'][0] if r['order'] else 0) % n
    switches = []
    for i, (mode, gap, target) in enumerate(r['switches']):
        if mode == 'frac':
            gap = 1 + int(gap * (lengths[first] if i == 0 else mean)
                          * (8 if r['opcodes'] else 1))
            mode = 'line'
        switches.append([mode, gap, target])
    sched = Scheduler(sim, n, switches, r['order'], opcodes=r['opcodes'])

    def prog(e, ops):
        for op in ops:
            e.step(op)
    _, errors = sched.run([lambda e=e, p=p: prog(e, p)
                           for e, p in zip(es, r['progs'])])
    for e in errors:
        if e is not None:
            raise e
    got = json.loads(json.dumps(sim.traces))
    for (step, a, b) in sched.trace_points:
        sim.state('hot', step, a, b, r['progs'][a])
    for t in tids:
        if got[str(t)] != expect[str(t)]:
            raise Violation('interference', diff(t, expect[str(t)],
                                                 got[str(t)]))
    if len(got['0']) != len(expect['0']):
        raise Violation('interference', f'callbacks: {len(expect["0"])} one '
                        f'after another, {len(got["0"])} together')
    sim.count('threads', n)
    sim.ev('round', got)


SITES = None


def run_sweep(plan, sim):
    global SITES
    if SITES is None:
        SITES = Sites()
    cls = plan['sweep']
    if not all(plan['progs']):
        return
    tids = (1, 2)

    def envs():
        sim.traces = {t: [] for t in (0, 1, 2)}
        if cls:
            es = [c01hot.HotEnv(t, cls, *plan['start'][t - 1],
                                empty=p[0][0].startswith('create'))
                  for t, p in zip(tids, plan['progs'])]
        else:
            es = [Env(FAMILIES['warm'], t, None, bool(plan['start'][t - 1][0]
                                                      % 3)) for t in tids]
            for e, (x, y) in zip(es, plan['start']):
                e.step(['nested' if y % 4 == 3 else 'author', x, y])
        sim.traces = {t: [] for t in (0, 1, 2)}
        return es

    def prog(e, ops):
        for op in ops:
            e.step(op)
    es = envs()
    lines = []
    for e, ops in zip(es, plan['progs']):
        lines.append(SITES.collect(lambda: prog(e, ops)))
    expect = sim.traces
    if not lines[0]:
        return

    def target(thread, frac, occ):
        ls = lines[thread]
        if len(frac) > 1:
            files = sorted({k[0].co_filename for k, _ in ls})
            f = files[min(len(files) - 1, int(frac[0] * len(files)))]
            ls = [x for x in ls if x[0][0].co_filename == f]
        frac = frac[-1]
        (code, line), times = ls[min(len(ls) - 1, int(frac * len(ls)))]
        return (code, line, 1 + int(occ * (times - 1)), thread)
    keep = cls and all(p[0][0] in c01hot.PURE for p in plan['progs'])
    if keep:
        es = envs()
    for site in plan['sites']:
        targets = [target(0, site[0], site[1])]
        if len(site) > 2 and lines[1]:
            targets.append(target(1, site[2], site[3]))
        if keep:
            sim.traces = {t: [] for t in (0, 1, 2)}
        else:
            es = envs()
        sched = Scheduler(sim, 2, [], [0, 1], traced=False)
        _, errors = SITES.run(sched, targets,
                              [lambda e=e, p=p: prog(e, p)
                               for e, p in zip(es, plan['progs'])])
        for e in errors:
            if e is not None:
                raise e
        where = [f'{os.path.basename(t[0].co_filename)}:{t[1]} '
                 f'({t[0].co_name}) time {t[2]}' for t in targets]
        for t in targets[:len(sched.trace_points)]:
            sim.state('site', os.path.basename(t[0].co_filename),
                      t[0].co_qualname, t[1] - t[0].co_firstlineno,
                      min(t[2], 3), plan['progs'][0][0][0],
                      plan['progs'][1][0][0])
        if not sched.trace_points:
            sim.count('site_not_reached')
        got = sim.traces
        for t in tids:
            if got[t] != expect[t]:
                raise Violation('interference', diff(t, expect[t], got[t]) +
                                f'; thread 1 preempted at {where[0]}'
                                + (f', thread 2 at {where[1]}'
                                   if len(where) > 1 else ''))
        if len(got[0]) != len(expect[0]):
            raise Violation('interference', f'callbacks: {len(expect[0])} one '
                            f'after another, {len(got[0])} together; '
                            f'preempted at {where}')
        sim.count('preemption_sites')
        sim.ev('site', [[x[0], len(x[1])] for x in got.items()])


def run_coldsweep(plan, sim):
    c = FAMILIES['cold']
    progs = plan['coldsweep']
    if not all(progs):
        return

    def later():
        if plan['late']:
            program(plan, c, 9, plan['late'], None)
        return {str(t): v for t, v in sim.traces.items()}

    def alone():
        sim.traces = {t: [] for t in (0, 1, 2, 9)}
        out = {}
        for t in (1, 2):
            work = Sites().collect if t == 1 else (lambda fn: fn())
            got = work(lambda: program(plan, c, t, progs[t - 1], None))
            if t == 1:
                out['lines'] = [[k[0].co_filename, k[1], k[0].co_qualname, n]
                                for k, n in got if n <= 6]
        out['traces'] = later()
        return out
    ref = in_fork(alone)
    lazy = [x for x in ref['lines'] if os.path.basename(x[0]) in LAZY]
    for some, frac, occ in plan['sites']:
        ls = ref['lines'] if some else lazy
        if not ls:
            continue
        file, line, name, times = ls[min(len(ls) - 1, int(frac * len(ls)))]
        target = (file, line, 1 + int(occ * (times - 1)), 0)

        def together():
            sim.traces = {t: [] for t in (0, 1, 2, 9)}
            sched = Scheduler(sim, 2, [], [0, 1], traced=False)
            try:
                _, errors = Sites().run_here(sched, [target], [
                    lambda t=t: program(plan, c, t, progs[t - 1], None)
                    for t in (1, 2)])
            except Violation as e:
                return {'deadlock': str(e)}
            for e in errors:
                if e is not None:
                    raise e
            return {'traces': later(), 'hit': len(sched.trace_points)}
        got = in_fork(together)
        where = f'{os.path.basename(file)}:{line} ({name}) time {target[2]}'
        if 'deadlock' in got:
            raise Violation('stuck', got['deadlock'] + f'; thread 1 '
                            f'preempted at {where}')
        sim.state('cold', os.path.basename(file), name, line,
                  progs[0][0][0], progs[1][0][0])
        for t in ('1', '2', '9'):
            if got['traces'][t] != ref['traces'][t]:
                raise Violation('interference', diff(
                    t, ref['traces'][t], got['traces'][t]) +
                    f'; first use, thread 1 preempted at {where}')
        sim.count('cold_sites' if got['hit'] else 'site_not_reached')
    sim.ev('cold', [[t, len(v)] for t, v in ref['traces'].items()])


def run(plan, sim):
    sim.clock = Clock(tick=0)
    if 'coldsweep' in plan:
        return run_coldsweep(plan, sim)
    if 'sweep' in plan:
        return run_sweep(plan, sim)
    if 'rounds' in plan:
        for r in plan['rounds']:
            run_round(r, sim)
        return
    n = plan['n']
    c = FAMILIES[plan['family']]
    tids = list(range(1, n + 1))

    todo = list(zip(tids, plan['progs']))
    if plan['late']:
        todo.append((9, plan['late']))

    def one_after_another():
        sim.traces = {t: [] for t in tids + [9]}
        shared = make_shared(c) if plan['shared'] else None
        for t in sim.traces:
            sim.traces[t].clear()
        for t, prog in todo:
            program(plan, c, t, prog, shared, bool(plan['ops_set'][
                (t - 1) % n]))
        return {str(t): v for t, v in sim.traces.items()}
    expect = in_fork(one_after_another)
    sim.traces = {t: [] for t in tids + [9]}
    shared = make_shared(c) if plan['shared'] else None
    for t in sim.traces:
        sim.traces[t].clear()
    sched = Scheduler(sim, n, plan['switches'], plan['order'],
                      opcodes=plan['opcodes'])
    fns = [lambda t=t, p=p: program(plan, c, t, p, shared,
                                    bool(plan['ops_set'][t - 1]))
           for t, p in zip(tids, plan['progs'])]
    _, errors = sched.run(fns)
    for t, e in zip(tids, errors):
        if e is not None:
            raise e
    got = json.loads(json.dumps(sim.traces))
    for (step, a, b) in sched.trace_points:
        sim.state(step, a, b, plan['progs'][a])
    for t in tids:
        if got[str(t)] != expect[str(t)]:
            raise Violation('interference', diff(t, expect[str(t)],
                                                 got[str(t)]))
    sim.count('threads', n)
    if plan['late']:
        sim.traces = {t: [] for t in tids + [9]}
        program(plan, c, 9, plan['late'], shared,
                bool(plan['ops_set'][8 % n]))
        g = json.loads(json.dumps(sim.traces))['9']
        if g != expect['9']:
            raise Violation('interference-later',
                            diff('later', expect['9'], g))
        sim.count('late')
    sim.ev('traces', got)


def diff(who, want, got):
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return (f'thread {who} step {i}: one after another {json.dumps(a)[:500]} '
                    f'with others {json.dumps(b)[:500]}')
    return f'thread {who}: one after another {len(want)} events, with others {len(got)}'
