"""C02: the registry of classes and enums under concurrent definition."""
from __future__ import annotations
from ..c02defs import (f_node, f_leaf, f_plain, f_typed, f_nosource, f_kind,
                       f_color, f_plain_enum)
from ..sim import Violation, Clock, Scheduler, gen_switches

ID = 'C02'
QUICK = 9000
THOROUGH = 300000
BATCH = 1
AXES = ('kills', 'switches', 'progs.0', 'progs.1', 'progs.2', 'before')
STATE_RULE = ('distinct hashes of (thread preempted at which library step, '
              'which thread runs next, the operations involved) over all '
              'context switches, and of the outcome pattern per name')
REAL = ['class and enum decorators', 'class graphs and their default '
        'configuration', 'class, enum and reference lookup by name',
        'redefinition errors']
STUB = ['thread scheduler (one thread at a time, preempted where the plan '
        'says)', 'locks (scheduling points)']
ASSUMPTIONS = ['a definition interrupted half way may or may not have taken '
               'effect']

DEFS = {'node': (f_node, 'class', 'Node'), 'leaf': (f_leaf, 'class', 'Leaf'),
        'plain': (f_plain, 'class', 'Plain'),
        'typed': (f_typed, 'class', 'Typed'),
        'nosource': (f_nosource, 'class', 'NoSource'),
        'kind': (f_kind, 'enum', 'Kind'), 'color': (f_color, 'enum', 'Color'),
        'plainenum': (f_plain_enum, 'enum', 'Plain')}
NAMES = sorted({(k, n) for _, k, n in DEFS.values()})


def prepare():
    # warm the interpreter's own caches
    import inspect
    from .. import c02defs
    inspect.getsourcelines(f_node)
    inspect.getmodule(c02defs.NOFILE)


def gen(rng):
    n = rng.choice([2, 2, 3])
    graphs = ['g1'] if rng.maybe(.6) else ['g1', 'g2']
    defs = rng.sample(sorted(DEFS), rng.choice([1, 2, 3, 5, 8]))
    p_def = rng.choice([.4, .6, .9])

    def op():
        g = rng.choice(graphs)
        if rng.maybe(p_def):
            return ['def', g, rng.choice(defs), rng.randrange(100)]
        k = rng.choice(['fetch', 'fetch', 'has', 'graph', 'config', 'use'])
        return [k, g, rng.choice(defs), rng.randrange(100)]
    progs = [[op() for _ in range(rng.choice([1, 1, 2, 3, 5]))]
             for _ in range(n)]
    before = [op() for _ in range(rng.choice([0, 0, 0, 1, 3]))]
    kills = [[rng.randrange(n), 1 + int(2 ** (rng.random() * 7))]] \
        if rng.maybe(.2) else []
    return {'n': n, 'progs': progs, 'before': before, 'fresh': True,
            'order': [rng.randrange(n) for _ in range(n)],
            # (opcode tracing and interrupts together crash CPython 3.12)
            'opcodes': not kills and rng.maybe(.1), 'kills': kills,
            'switches': gen_switches(rng, n, files=['cgraph.py'])}


def gname(g):
    # the graph of classes that name none is a graph like any other
    return 'default' if g == 'g2' else 'c02-' + g


class Rec:
    def __init__(self, op, tid, inv):
        self.op = op
        self.tid = tid
        self.inv = inv
        self.resp = None        # None: never answered (interrupted)
        self.out = 'pending'
        self.val = None
        self.made = None


def run(plan, sim):
    import jsonclasses.excs as excs
    from jsonclasses.cgraph import CGraph
    sim.clock = Clock(tick=0)
    hist = []
    seq = [0]
    made = {}      # class object -> record that made it
    graphs = {}

    def tick():
        seq[0] += 1
        return seq[0]

    dup_excs = {'class': excs.JSONClassRedefinitionException,
                'enum': excs.JSONClassTypedDictRedefinitionException}
    nf_excs = {'class': excs.JSONClassNotFoundException,
               'enum': excs.JSONClassTypedDictNotFoundException}

    def do(op, tid):
        what, g, d, v = op
        rec = Rec(op, tid, tick())
        hist.append(rec)
        f, kind, name = DEFS[d]
        rec.key = (g, kind, name)
        try:
            if what == 'def':
                try:
                    rec.val = f(gname(g), v)
                    rec.out = 'won'
                except dup_excs[kind] as e:
                    rec.out = 'dup'
                    if name not in str(e):
                        raise Violation('redefinition-message', f'{e}')
                except Exception as e:
                    rec.out = 'error'
                    rec.val = f'{type(e).__name__}: {e}'
            elif what == 'fetch':
                graph = CGraph(gname(g))
                try:
                    if kind == 'class':
                        rec.val = graph.fetch(name).cls
                    else:
                        rec.val = graph.fetch_enum(name)
                    rec.out = 'found'
                except nf_excs[kind]:
                    rec.out = 'missing'
            elif what == 'has':
                graph = CGraph(gname(g))
                r = graph.has(name) if kind == 'class' else \
                    graph.has_enum(name)
                rec.out = 'found' if r else 'missing'
                rec.val = None
            elif what == 'graph':
                rec.val = CGraph(gname(g))
                rec.out = 'graph'
                graphs.setdefault(g, []).append(rec.val)
                if rec.val.name != gname(g):
                    raise Violation('wrong-graph', f'{rec.val.name}')
            elif what == 'config':
                check_config(CGraph(gname(g)), gname(g))
                rec.out = 'config'
            elif what == 'use':
                mine = [h for h in hist if h.tid == tid and h.out == 'won'
                        and h.key[1] == 'class' and h.key[0] == g]
                if mine:
                    use(mine[-1])
                rec.out = 'used'
        except KeyboardInterrupt:
            # the answer never arrived
            rec.out = 'pending'
            sched.resume_tracing()
            return
        rec.resp = tick()

    def use(rec):
        cls = rec.val
        if cls.__name__ == 'Plain':
            o = cls(id=4, myName='x')
            if o.tojson() != {'id': 4, 'myName': 'x', 'mark': rec.op[3]}:
                raise Violation('class-misbehaves', f'{o.tojson()}')
        elif cls.__name__ == 'NoSource':
            o = cls(id=4)
            if o.tojson() != {'id': 4, 'mark': rec.op[3]}:
                raise Violation('class-misbehaves', f'{o.tojson()}')
        else:
            pass    # needs the other classes: checked at the end
        if cls.cdef.jconf.cgraph.name != gname(rec.op[1]):
            raise Violation('wrong-graph', cls.cdef.jconf.cgraph.name)

    for op in plan['before']:
        do(op, -1)
    sched = Scheduler(sim, plan['n'], plan['switches'], plan['order'],
                      opcodes=plan['opcodes'],
                      kills={t % plan['n']: at for t, at in plan['kills']})
    fns = [lambda t=t: [do(op, t) for op in plan['progs'][t]]
           for t in range(plan['n'])]
    _, errors = sched.run(fns)
    for e in errors:
        if isinstance(e, KeyboardInterrupt):
            continue
        if e is not None:
            raise e
    for (step, a, b) in sched.trace_points:
        sim.state(step, a, b, [o[:3] for o in plan['progs'][a]])
    # afterwards, alone
    used_graphs = sorted({h.op[1] for h in hist}) or ['g1']
    for g in used_graphs:
        do(['graph', g, 'plain', 0], -1)
        do(['config', g, 'plain', 0], -1)
        for d in sorted(DEFS):
            do(['fetch', g, d, 0], -1)
            do(['has', g, d, 0], -1)
    winners = judge(hist, sim)
    for g, seen in graphs.items():
        if any(x is not seen[0] for x in seen):
            raise Violation('graph-not-unique',
                            f'graph {g} is more than one object')
    for g in used_graphs:
        together(winners, g)
        across(winners, g)
    # a name refused once is refused again, and a free one can be taken
    for h in list(hist):
        if h.op[0] != 'def' or h.tid == -1:
            continue
        do(['def', h.op[1], h.op[2], 7], -1)
    judge(hist, sim)
    sim.ev('hist', [[h.tid, h.op, h.inv, h.resp, h.out] for h in hist])
    sim.count('definitions', sum(h.op[0] == 'def' for h in hist))
    sim.count('duplicates', sum(h.out == 'dup' for h in hist))
    sim.count('interrupted', sum(h.out == 'pending' for h in hist))


def check_config(graph, name):
    from jsonclasses.keypath import (camelize_key, underscore_key,
                                     reference_key)
    c = graph.default_config
    got = [c.output_key_strategy, c.input_key_strategy, c.strict_input,
           c.ref_name_strategy, c.validate_all_fields, c.abstract,
           c.reset_all_fields, c.output_null, c.on_create, c.on_update,
           c.on_delete, c.can_create, c.can_update, c.can_delete, c.can_read]
    want = [camelize_key, underscore_key, True, reference_key, False, False,
            False, False] + [[]] * 7
    if got != want:
        raise Violation('default-config', f'{got}')
    if c.cgraph is not graph:
        raise Violation('default-config', 'belongs to another graph')


INF = 1 << 60


def judge(hist, sim):
    winners = {}
    keys = {}
    for h in hist:
        if h.out == 'error':
            raise Violation('wrong-error', f'{h.op}: {h.val}')
        if h.op[0] in ('def', 'fetch', 'has'):
            keys.setdefault(h.key, []).append(h)
    for key, ops in keys.items():
        won = [h for h in ops if h.op[0] == 'def' and h.out == 'won']
        pend = [h for h in ops if h.op[0] == 'def' and h.out == 'pending']
        pos = [h for h in ops if h.out in ('found', 'dup')]
        neg = [h for h in ops if h.out == 'missing']
        sim.state('outcome', len(won), len(pend), len(pos) > 0, len(neg) > 0,
                  sorted(h.out for h in ops if h.op[0] == 'def'))
        if len(won) > 1:
            raise Violation('two-winners', f'{key} was defined twice without '
                            f'an error: {[h.op for h in won]}')
        vals = {id(h.val): h.val for h in ops
                if h.out == 'found' and h.val is not None}
        if len(vals) > 1:
            raise Violation('two-classes', f'{key} is two classes over time')
        if won:
            w = won[0]
            if vals and list(vals.values())[0] is not w.val:
                raise Violation('wrong-class', f'{key} gives another class '
                                'than the one whose definition succeeded')
            winners[key] = w
            inv, resp = w.inv, w.resp
        elif pend:
            inv, resp = min(h.inv for h in pend), INF
        else:
            if pos:
                raise Violation('from-nowhere', f'{key}: {pos[0].op} '
                                f'{pos[0].out}, but nobody defined it')
            continue
        # write-once register: is there one instant that explains it all?
        lo = max([inv] + [h.inv for h in neg])
        hi = min([resp] + [h.resp for h in pos if h.resp is not None])
        if lo > hi:
            raise Violation('definition-lost', f'{key}: not found (or too '
                            'early found) although its definition was '
                            f'{"answered" if won else "pending"}: '
                            f'{[(h.op, h.inv, h.resp, h.out) for h in ops]}')
    return winners


def together(winners, g):
    """The registered classes work together, by name."""
    def get(kind, name):
        w = winners.get((g, kind, name))
        return None if w is None else w.val
    node, leaf = get('class', 'Node'), get('class', 'Leaf')
    plain, kind = get('class', 'Plain'), get('enum', 'Kind')
    typed = get('class', 'Typed')
    if node and leaf:
        n = node(id=1, leaves=[{'id': 2}])
        if type(n.leaves[0]) is not leaf or n.leaves[0].node is not n or \
                n.leaves[0].node_id != 1:
            raise Violation('classes-do-not-meet', 'Node/Leaf')
    if plain and kind:
        p = plain(id=1, kind='B')
        if p.kind is not kind.B:
            raise Violation('classes-do-not-meet', 'Plain/Kind')
    if typed and plain and kind:
        t = typed(id=1, myName='n', plain={'id': 5}, kind='A')
        if type(t.plain) is not plain or t.kind is not kind.A:
            raise Violation('classes-do-not-meet', 'Typed')


def across(winners, g):
    """A class or enum given itself is used, also from another graph and
    whatever that graph calls by the same name."""
    from jsonclasses import jsonclass, types
    plain = winners.get((g, 'class', 'Plain'))
    kind = winners.get((g, 'enum', 'Kind'))
    if plain is None:
        return
    plain = plain.val
    for other in ('g1', 'g2', 'g3'):
        ns = {'one': types.objof(plain), 'many': types.listof(plain),
              'keyed': types.dictof(types.objof(plain))}
        if kind is not None:
            ns['kind'] = types.enum(kind.val)
        name = f'Across{g}'
        cls = jsonclass(class_graph=gname(other))(type(name, (), {
            '__module__': __name__, '__annotations__': {
                k: 'str' for k in ns}, **ns}))
        args = {'one': {'id': 3, 'myName': 'x'},
                'many': [{'id': 4, 'myName': 'y'}], 'keyed': {'k': {
                    'id': 5, 'myName': 'z'}}}
        if kind is not None:
            args['kind'] = 'A'
        o = cls(**args)
        if not (type(o.one) is type(o.many[0]) is type(o.keyed['k'])
                is plain) or not o.is_valid:
            raise Violation('names-of-graphs-mix', f'a class of {g} used in '
                            f'{other} is another class there')
        if kind is not None and o.kind is not kind.val.A:
            raise Violation('names-of-graphs-mix', f'an enum of {g} used in '
                            f'{other} is another enum there')
