"""C07: both sides of a relationship and its keys always agree."""
from __future__ import annotations
from ..sim import Violation, Clock, InjectedFault
from ..store import SimStore
from .. import relworld
from ..relworld import RelWorld, gen_op, REL

ID = 'C07'
QUICK = 15000
THOROUGH = 500000
BATCH = 16
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (all links of all relations, keys held '
              'without an object) observed after an operation')
REAL = ['object attribute protocol', 'relationship linking and unlinking',
        'tracked lists', 'local keys', 'object graphs', 'input transform of '
        'nested objects']
STUB = ['the application issuing the operations']
ASSUMPTIONS = ['objects have distinct primary keys or none, and are not '
               'placed twice in one list', 'one thread']


def prepare():
    relworld.prepare('c07')


def gen(rng):
    ops = []
    k = rng.choice([4, 8, 12, 20])
    focus = rng.maybe(.4)
    # objects without keys, which are all alike
    nokey = rng.choice([1, 2]) if rng.maybe(.25) else 0
    rels = rng.sample(sorted(set(REL) - ({'ups'} if nokey else set())), 2)
    while len(ops) < k:
        op = gen_op(rng)
        if focus:
            f = op[3] if op[0] != 'keys' else 'ups'
            if relworld_rel(op, f) not in rels:
                continue
        if nokey and (op[0] == 'keys' or relworld_rel(op, op[3]) == 'ups'):
            continue    # a list of keys needs keys
        ops.append(op)
        if rng.maybe(.08) and not nokey:
            ops.append(['save', rng.choice('UPF'), rng.randrange(4)])
        if rng.maybe(.05):
            ops.append(['nest', rng.randrange(0, 3), rng.randrange(0, 3),
                        rng.maybe(.5), rng.randrange(0, 3),
                        rng.randrange(0, 2)])
        if rng.maybe(.05):
            ops.append(['read', rng.choice('UPF'), rng.randrange(4)])
    cold = rng.maybe(.1)
    return {'ops': ops, 'nokey': nokey, 'reset_all': rng.maybe(.3), 'fresh': cold,
            'temp': 'cold' if cold else 'warm', 'n': rng.choice([2, 3, 3, 4]), 'base': rng.choice([1, 1, 0]),
            'faults': [{'point': 'store.write', 'n': rng.randrange(4),
                        'kind': rng.choice(['error', 'ack_lost'])}]
            if rng.maybe(.3) else [],
            'saved': rng.choice([0, 1, 2])}


def relworld_rel(op, f):
    if op[0] == 'keys':
        return 'ups'
    return relworld.FIELDS[(op[1], f)][1]


def run(plan, sim):
    sim.clock = Clock()
    w = RelWorld(sim, relworld.CLASSES[(plan['reset_all'], plan['temp'])],
                 plan['n'])
    base = plan.get('base', 1)
    for i in range(base, plan['n'] + base):
        for c in 'UPF':
            no = plan.get('nokey', 0)
            o = w.new_keyless(c, i) if no == 1 or no == 2 and i % 2 else \
                w.new(c, i)
            if plan['saved'] == 1 or (plan['saved'] == 2 and i % 2):
                o._mark_unmodified()
    store = SimStore(sim)
    for c, cls in w.c.items():
        store.attach(cls, ('id',) + relworld.SCALARS[c])
    nid = 50
    for op in plan['ops']:
        if op[0] == 'save':
            try:
                w.get(op[1], op[2]).save()
            except InjectedFault:
                pass
        elif op[0] == 'read':
            o = w.get(op[1], op[2])
            o.tojson()
            o.is_valid
            o.tojson(reverse_relationship=True)
        elif op[0] == 'nest':
            nid = nest(w, op, nid)
        elif not w.apply(op):
            continue
        what = op[0] if op[0] in ('save', 'read', 'nest') else \
            '/'.join(str(x) for x in op[:5])
        w.check(what)
        sim.count(op[0] + ('.' + op[4] if op[0] == 'list' else ''))
        sim.state(sorted((r, sorted(s)) for r, s in w.rel.items()),
                  sorted((r, sorted((k, sorted(v)) for k, v in d.items() if v))
                         for r, d in w.loose.items()))
    sim.ev('final', sorted((r, sorted(s)) for r, s in w.rel.items()))


def nest(w, op, nid):
    """Build a linked tree from plain nested input."""
    _, posts, ups, prof, reports, form = op
    ids = iter(range(nid, nid + 20))
    uid = next(ids)
    kw = {}
    link = []
    made = []

    def mk(c, rel, pair):
        i = next(ids)
        made.append((c, i))
        link.append((rel, pair(i)))
        return {'id': i}
    if posts:
        kw['posts'] = [mk('P', 'author', lambda i: (i, uid))
                       for _ in range(posts)]
    if ups:
        kw['ups'] = [mk('P', 'ups', lambda i: (uid, i)) for _ in range(ups)]
    if prof:
        kw['profile'] = mk('F', 'user', lambda i: (i, uid))
    if reports:
        kw['reports'] = [mk('U', 'boss', lambda i: (i, uid))
                         for _ in range(reports)]
    if form:
        u = w.c['U'](id=uid)
        u.set(**kw)
    else:
        u = w.c['U'](id=uid, **kw)
    w.objs['U'][uid] = u
    found = list(u.posts or []) + list(u.ups or []) + \
        ([u.profile] if u.profile else []) + list(u.reports or [])
    by = {(type(o).__name__, o.id): o for o in found}
    for c, i in made:
        o = by.get((relworld.LETTER[c], i))
        if o is None:
            raise Violation('one-sided', f'nested {relworld.LETTER[c]} {i} '
                            'was not linked')
        w.objs[c][i] = o
    for rel, (a, b) in link:
        w.link(rel, a, b)
    return nid + 20
