"""C03: nothing reaches the storage (or the reader) before every permission
check, callback and validation agreed; every stage once, in order."""
from __future__ import annotations
from ..sim import (Violation, SimCrash, InjectedFault, LineTracer, Clock, Rng,
                   Entropy)
from ..seams import CUR
from ..store import SimStore, plain
from . import c04

ID = 'C03'
QUICK = 26000
THOROUGH = 600000
BATCH = 12
AXES = ('faults', 'acts', 'ops')
STATE_RULE = ('distinct hashes of (action, object new, operator present, '
              'sequence of stage events with their outcomes, result)')
REAL = ['save/delete/read sequencing', 'class level permission checks '
        '(callables and pipelines)', 'class level callbacks', 'field level '
        'permission checks', 'validation', 'on-save pass', 'operators']
STUB = ['durable storage (in-memory table behind the persistence hooks)',
        'the application: permission checks, callbacks and validators whose '
        'answers the plan decides', 'process crash (object graph dropped)']
ASSUMPTIONS = ['one thread (threads are C01); crashes are fail-stop']
FIELDS = ('id', 'n', 's', 'p', 'w', 'o', 'x', 'g', 'h', 'u')
ACTIONS = ('create', 'update', 'delete', 'read')

SPECS = []
CLASSES = []


class Op:
    def __init__(self, i):
        self.i = i


OPS = [Op(i) for i in range(3)]


def answer(f, point):
    """Turn a planned fault into the answer of an application callback."""
    if f is None:
        return True
    k = f['kind']
    if k == 'false':
        return False
    if k == 'str':
        return 'no way'
    if k == 'none':
        return None
    if k == 'zero':
        return 0
    if k == 'empty':
        return ''
    if k == 'blank':
        return []
    if k == 'crash':
        raise SimCrash()
    raise ERRORS.get(k, InjectedFault)(point, f['n'], k)


class InjectedAttribute(InjectedFault, AttributeError):
    pass


class InjectedKey(InjectedFault, KeyError):
    pass


class InjectedValue(InjectedFault, ValueError):
    pass


class InjectedType(InjectedFault, TypeError):
    pass


ERRORS = {'error-attr': InjectedAttribute, 'error-key': InjectedKey,
          'error-value': InjectedValue, 'error-type': InjectedType}
# answers that are not a yes; a check given as a callable that answers neither
# yes nor nothing has not agreed
NO = ('false', 'str', 'empty', 'zero', 'blank')


def raising(rng):
    return rng.choice(['error', 'error', *ERRORS])


def log(*e):
    sim = CUR.sim
    att = sim.attempts[-1] if sim.attempts else None
    if att is not None:
        att['log'].append(e)
    sim.ev(*e)


def gate(action, i, kind):
    from jsonclasses import types

    def ask(obj, operator):
        if CUR.sim is None:
            return True
        point = f'gate.{action}'
        f = CUR.sim.hit(point)
        att = CUR.sim.attempts[-1]
        log('gate', action, i, f['kind'] if f else 'true')
        if obj is not None and obj is not att['obj']:
            raise Violation('wrong-subject', f'the {action} check was asked '
                            'about another object')
        if operator is not Ellipsis and operator is not att['op']:
            raise Violation('wrong-operator', f'the {action} check was given '
                            'another operator')
        return answer(f, point)
    if kind == 'call':
        return lambda obj, operator: ask(obj, operator)
    ask0 = ask

    def ask(obj, operator):
        # what a validator answers with 0 or [] is not laid down
        v = ask0(obj, operator)
        return False if v == 0 or v == [] else v
    if kind == 'types':
        return types.validate(lambda v, ctx: ask(v, ctx.operator))
    return types.getop.validate(lambda op: ask(None, op))


def callback(action, i, nparams):
    def run(obj, operator):
        sim = CUR.sim
        if sim is None:
            return
        point = f'cb.{action}'
        f = sim.hit(point)
        att = sim.attempts[-1]
        log('cb', action, i, f['kind'] if f else 'ok')
        if obj is not att['obj']:
            raise Violation('wrong-subject', f'the {action} callback got '
                            'another object')
        if operator is not Ellipsis and operator is not att['op']:
            raise Violation('wrong-operator', f'the {action} callback was '
                            'given another operator')
        if f is not None:
            answer(f, point)
        act = sim.acts.get((action, i))
        if act is not None:
            sim.world.act(obj, act)
    if nparams == 1:
        return lambda obj: run(obj, Ellipsis)
    return lambda obj, operator: run(obj, operator)


def define(spec, graph):
    from jsonclasses import jsonclass, types

    def val(name):
        def v(value):
            sim = CUR.sim
            if sim is None:
                return True
            f = sim.hit(f'val.{name}')
            log('val', name, f['kind'] if f else 'true', value)
            return answer(f, f'val.{name}')
        return v

    def fgate(name, n):
        def ask(op, owner, value):
            sim = CUR.sim
            if sim is None:
                return True
            f = sim.hit(f'fgate.{name}')
            log('fgate', name, f['kind'] if f else 'true')
            att = sim.attempts[-1]
            if op is not att['op']:
                raise Violation('wrong-operator', f'the check of field {name} '
                                'was given another operator')
            if owner is not Ellipsis and owner is not att['obj']:
                raise Violation('wrong-subject', f'the check of field {name} '
                                'was given another object')
            return answer(f, f'fgate.{name}')
        if n == 1:
            return lambda op: ask(op, Ellipsis, None)
        if n == 2:
            return lambda op, owner: ask(op, owner, None)
        if n == 3:
            return lambda op, owner, v: ask(op, owner, v)
        if n == 4:
            return lambda op, owner, v, ctx: ask(op, owner, v)
        return types.getop.validate(lambda op: ask(op, Ellipsis, None))

    def note(kind, name, n):
        def cb(v=Ellipsis, ctx=None):
            sim = CUR.sim
            if sim is None:
                return
            f = sim.hit(f'{kind}.{name}')
            log(kind, name, f['kind'] if f else 'ok', repr(v))
            att = sim.attempts[-1]
            if v is not Ellipsis and v != sim.world.models[att['i']][name]:
                raise Violation('on-save', f'{name} was handed on as {v!r}')
            if ctx is not None and ctx.operator is not att['op']:
                raise Violation('wrong-operator', f'the {kind} callback was '
                                'given another operator')
            if f is not None:
                answer(f, f'{kind}.{name}')
        if n == 0:
            return lambda: cb()
        if n == 1:
            return lambda v: cb(v)
        return lambda v, ctx: cb(v, ctx)

    def setter():
        sim = CUR.sim
        if sim is None:
            return 'p'
        f = sim.hit('setonsave.p')
        sim.set_n += 1
        v = f'p{sim.set_n}'
        log('setonsave', 'p', f['kind'] if f else 'ok', v)
        if f is not None:
            answer(f, 'setonsave.p')
        return v

    opts = {}
    for a in ACTIONS:
        gs = [gate(a, i, k) for i, k in enumerate(spec['gates'][a])]
        if gs:
            opts[f'can_{a}'] = gs[0] if len(gs) == 1 and spec['bare'] else gs
    for a in ACTIONS[:3]:
        cs = [callback(a, i, k) for i, k in enumerate(spec['cbs'][a])]
        if cs:
            opts[f'on_{a}'] = cs[0] if len(cs) == 1 and spec['bare'] else cs
    if spec['all_fields']:
        opts['validate_all_fields'] = True

    @jsonclass(class_graph=graph, **opts)
    class Acct:
        id: int = types.int.primary.required
        n: int = types.int.validate(val('n'))
        s: str = types.str.validate(val('s'))
        p: str = types.str.setonsave(setter).validate(val('p'))
        w: str = types.str.onwrite(note('onwrite', 'w', spec['nw']))
        o: str = types.str.onsave(note('onsave', 'o', spec['no']))
        x: int = types.int
        g: int = (types.int.canw(fgate('g', spec['fgates'][0]))
                  if spec['guarded'] else types.int)
        h: int = (types.int.canc(fgate('h', spec['fgates'][1]))
                  if spec['guarded'] else types.int)
        u: int = (types.int.canu(fgate('u', spec['fgates'][2]))
                  if spec['guarded'] else types.int)
    return Acct


def prepare():
    c04.prepare()
    rng = Rng(20260303)
    for i in range(16):
        spec = {
            'gates': {a: [rng.choice(['call', 'call', 'types', 'getop'])
                          for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                      for a in ACTIONS},
            'cbs': {a: [rng.choice([1, 2])
                        for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                    for a in ACTIONS[:3]},
            'bare': rng.maybe(.5), 'guarded': i % 3 == 2,
            'fgates': [rng.choice([1, 2, 3, 4, 5]) for _ in range(3)],
            'all_fields': i % 5 == 4, 'nw': (1, 2, 0)[i % 3], 'no': i // 3 % 2,
        }
        if i in (0, 14, 15):
            # nothing here needs an operator; the callbacks take one anyway
            spec['gates'] = {a: [] for a in ACTIONS}
            if i:
                spec['cbs'] = {a: [2, 1, 2][:i - 13] for a in ACTIONS[:3]}
            spec['guarded'] = False
        SPECS.append(spec)
        CLASSES.append(define(spec, f'c03-{i}'))


def gen_value(rng, f):
    if f in ('s', 'w', 'o', 'p'):
        return rng.choice(['a', 'b', 'c', 'dd', None])
    return rng.choice([0, 1, 2, 3, 4, None])


SETTABLE = ('n', 's', 'w', 'o', 'x', 'g', 'h', 'u')


def gen(rng):
    if rng.maybe(.03):
        # objects saved because they were unlinked are judged as well
        plan = c04.gen(rng)
        plan['fresh'] = False
        plan['temp'] = 'warm'
        plan['rel'] = True
        plan['acts'] = []
        return plan
    ops = []
    n = rng.randint(1, 3)
    noop = rng.maybe(.15)
    for i in range(n):
        fs = rng.sample(SETTABLE, rng.randint(1, len(SETTABLE)))
        ops.append(['new', i, {f: gen_value(rng, f) for f in fs},
                    None if noop or rng.maybe(.1) else rng.randrange(3)])
    for _ in range(rng.randint(2, 10)):
        i = rng.randrange(n)
        x = rng.random()
        if x < .45:
            ops.append(['save', i, rng.maybe(.15), rng.maybe(.3)])
        elif x < .72:
            f = rng.choice(SETTABLE)
            ops.append(['set', i, f, gen_value(rng, f)])
            if rng.maybe(.5):
                ops.append(['save', i, rng.maybe(.1), rng.maybe(.3)])
        elif x < .80:
            ops.append(['delete', i])
        elif x < .90:
            ops.append(['read', i])
        else:
            ops.append(['opby', i, rng.choice([None, 0, 1, 2])])
    faults = []
    if rng.maybe(.85):
        points = ['gate.create', 'gate.update', 'gate.delete', 'gate.read',
                  'cb.create', 'cb.update', 'cb.delete', 'val.n', 'val.s',
                  'val.p', 'onsave.o', 'onwrite.w', 'setonsave.p', 'fgate.g',
                  'fgate.h', 'fgate.u', 'fgate.u', 'store.write',
                  'store.delete', 'val.n', 'val.s', 'val.n', 'val.s']
        for _ in range(rng.randint(1, 6)):
            p = rng.choice(points)
            if p.startswith('store'):
                k = rng.choice(['error', 'ack_lost', 'crash_before',
                                'crash_after'])
            elif p.startswith(('gate', 'val', 'fgate')):
                k = rng.weighted([('false', 5), ('str', 3), ('none', 2),
                                  ('empty', 1), (raising(rng), 3),
                                  ('crash', 1)])
                if p.startswith('gate') and rng.maybe(.15):
                    k = rng.choice(['zero', 'blank'])
            else:
                k = rng.weighted([(raising(rng), 4), ('crash', 1)])
            faults.append({'point': p, 'n': rng.randrange(4), 'kind': k})
    acts = []
    if rng.maybe(.4):
        for _ in range(rng.randint(1, 2)):
            f = rng.choice(('n', 's', 'x', 'w', 'o'))
            v = ['set', f, gen_value(rng, f)] if rng.maybe(.7) else \
                ['save', rng.randrange(3)]
            acts.append([rng.choice(['create', 'update', 'delete']),
                         rng.randrange(2), v])
    return {'cls': rng.randrange(len(SPECS)), 'ops': ops, 'faults': faults,
            'acts': acts,
            'crash_line': 1 + int(2 ** (rng.random() * 12))
            if rng.maybe(.08) else 0}


class World:

    def __init__(self, sim, spec, cls):
        self.sim = sim
        self.spec = spec
        self.cls = cls
        self.store = Store(sim, self)
        self.store.attach(cls, FIELDS)
        self.objs = {}
        self.models = {}
        self.ops = {}

    def act(self, obj, act):
        if act[0] == 'set':
            i = self.index(obj)
            setattr(obj, act[1], act[2])
            if self.models[i][act[1]] != act[2]:
                self.models[i][act[1]] = act[2]
                self.touch(i, act[1])
        elif len(self.sim.attempts) < 2:
            j = act[1] % 3
            if j in self.objs and self.objs[j] is not obj:
                self.save(j, False, False)

    def touch(self, i, f):
        if not self.objs[i].is_new:
            self.pending[i].add(f)

    pending = None

    def index(self, obj):
        for i, o in self.objs.items():
            if o is obj:
                return i
        raise Violation('wrong-subject', 'a callback was handed an unknown '
                        'object')

    # -- attempts

    def attempt(self, action, i, call, skip=False, all_fields=False):
        sim = self.sim
        obj = self.objs[i]
        att = {'action': action, 'obj': obj, 'op': self.ops[i], 'log': [],
               'i': i, 'skip': skip, 'all': all_fields or False,
               'new': obj.is_new}
        sim.attempts.append(att)
        rows = plain(self.store.rows)
        writes = att['writes'] = []
        self.last = att
        result = None
        exc = None
        try:
            result = call(obj)
            outcome = 'ok'
        except InjectedFault as e:
            outcome = 'fault'
            exc = e
        except Exception as e:
            name = type(e).__name__
            if name == 'UnauthorizedActionException':
                outcome = 'unauthorized'
            elif name == 'ValidationException':
                outcome = 'invalid'
            else:
                raise
            exc = e
        finally:
            sim.attempts.pop()
        self.judge(att, outcome, exc, result)
        if outcome != 'ok' and any(e[0] == 'setonsave' for e in att['log']):
            # a save that failed later may keep the value it set
            v = [e[3] for e in att['log'] if e[0] == 'setonsave'][0]
            if obj.p == v:
                self.models[i]['p'] = v
                self.touch(i, 'p')
        if outcome != 'ok' and not att['writes'] and not att['nested']:
            if self.store.rows != rows:
                raise Violation('storage-touched', f'a refused {action} '
                                'changed the storage')
        sim.count(f'{action}.{outcome}')
        sim.state(action, att['new'], att['op'] is not None,
                  [e[:4] if e[0] != 'val' else e[:3] for e in att['log']],
                  outcome)
        return outcome

    def save(self, i, skip, all_fields):
        obj = self.objs[i]
        action = 'create' if obj.is_new else 'update'
        kw = {}
        if skip:
            kw['skip_validation'] = True
        if all_fields:
            kw['validate_all_fields'] = True
        new = obj.is_new
        rep = {x.split('.')[0] for x in obj.modified_fields}
        before = set(self.pending[i])
        out = self.attempt(action, i, lambda o: o.save(**kw), skip,
                           all_fields)
        row = self.store.rows.get(('Acct', i + 1))
        if out == 'ok':
            self.pending[i] = set()
            if row != self.models[i]:
                diff = {k: (row and row.get(k), self.models[i][k])
                        for k in FIELDS
                        if not row or row.get(k) != self.models[i][k]}
                raise Violation('stored-wrong', 'after an acknowledged save '
                                f'(stored, memory) = {diff}')
        else:
            if obj.is_new != new:
                raise Violation('forgotten-change', 'a failed save made a '
                                'new object old')
            now = {x.split('.')[0] for x in obj.modified_fields}
            if not new and not (before | rep) <= now:
                raise Violation('forgotten-change', f'a failed save dropped '
                                f'{sorted((before | rep) - now)} from the '
                                'report')

    def judge(self, att, outcome, exc, result, at_write=False):
        """Compare what happened in one save/delete/read with what the class
        declares.  `at_write`: the storage is about to be touched."""
        spec, action, log = self.spec, att['action'], att['log']
        att.setdefault('nested', False)
        stage = {'gate': 0, 'cb': 1, 'fgate': 2, 'val': 2, 'onsave': 3,
                 'onwrite': 3, 'setonsave': 3, 'write': 4, 'remove': 4}
        order = [3 if e[0] == 'val' and e[1] == 'p' else stage[e[0]]
                 for e in log]
        if order != sorted(order):
            raise Violation('order', f'{action}: stages out of order {log}')
        gates = [e for e in log if e[0] == 'gate']
        want = len(spec['gates'][action])
        for k, e in enumerate(gates):
            if e[1] != action or e[2] != k:
                raise Violation('gate', f'{action}: permission checks ran as '
                                f'{[g[1:3] for g in gates]}')
        deny = [e for e in gates if e[3] in NO]
        raised = [e for e in log if any(
            isinstance(k, str) and k.startswith('error') for k in e[1:4])]
        if want and att['op'] is None:
            if log or outcome != 'unauthorized':
                raise Violation('gate', f'{action} without an operator went '
                                f'on: {log} -> {outcome}')
            return
        if deny:
            if log[-1] is not deny[0] or outcome != 'unauthorized':
                raise Violation('gate', f'{action} was denied and went on: '
                                f'{log} -> {outcome}')
            if deny[0][3] == 'str' and \
                    spec['gates'][action][deny[0][2]] == 'call' and \
                    'no way' not in str(exc):
                raise Violation('gate', 'the message of the check was lost')
            return
        if raised and not at_write:
            if log[-1] is not raised[0] or outcome != 'fault':
                raise Violation('error-swallowed', f'{action}: {log} -> '
                                f'{outcome}')
            return
        if len(gates) != want:
            raise Violation('gate', f'{action}: {len(gates)} of {want} '
                            'permission checks ran')
        if outcome == 'unauthorized':
            raise Violation('gate', f'{action} was refused although every '
                            'check agreed')
        if action == 'read':
            if outcome == 'ok':
                return
            raise Violation('read-failed', f'{log} -> {outcome}')
        cbs = [e for e in log if e[0] == 'cb']
        nc = len(spec['cbs'][action])
        if [e[1:3] for e in cbs] != [(action, k) for k in range(nc)]:
            raise Violation('callback', f'{action} callbacks ran as '
                            f'{[e[1:3] for e in cbs]}, declared {nc}')
        if action == 'delete':
            rest = [e for e in log if e[0] not in ('gate', 'cb')]
            if rest != ([] if at_write else [('remove',)]):
                raise Violation('callback', f'delete did {rest}')
            return
        i = att['i']
        m = self.models[i]
        vals = [e for e in log if e[0] in ('val', 'fgate')
                and e[1] != 'p']
        names = [e[1] for e in vals]
        if len(set(names)) != len(names):
            raise Violation('validation', f'{action}: fields validated as '
                            f'{names}')
        new = att['new']
        touched = set(FIELDS) if new else att.setdefault(
            'touched', set(self.pending[i]))
        expect = set()
        noop_reject = False
        if not att['skip']:
            for f in ('n', 's'):
                if f in touched and m[f] is not None:
                    expect.add(f)
            if spec['guarded']:
                for f, when in (('g', True), ('h', new), ('u', not new)):
                    if f in touched and when:
                        expect.add(f)
        if spec['guarded'] and att['op'] is None and expect & set('ghu'):
            noop_reject = True
            expect -= set('ghu')
        if not set(names) <= expect:
            raise Violation('validation', f'{action} -> {outcome} {exc}: validated {names}, '
                            f'expected {sorted(expect)}')
        for e in vals:
            if e[0] == 'val' and e[3] != m[e[1]]:
                raise Violation('validation', f'{e[1]} was validated as '
                                f'{e[3]!r}, it is {m[e[1]]!r}')
        bad = [e for e in vals if e[2] in NO]
        pbad = [e for e in log if e[0] == 'val' and e[1] == 'p'
                and e[2] in NO]
        if bad or noop_reject:
            if outcome != 'invalid' or order and max(order) > 2:
                raise Violation('validation', f'{action} of an invalid object '
                                f'went on: {log} -> {outcome}')
            msgs = getattr(exc, 'keypath_messages', {})
            if not {e[1] for e in bad} <= set(msgs):
                raise Violation('validation', f'{[e[1] for e in bad]} '
                                f'rejected, reported {sorted(msgs)}')
            if att['all'] and set(names) != expect:
                raise Violation('validation', f'all fields wanted, validated '
                                f'{names} of {sorted(expect)}')
            return
        if set(names) != expect:
            raise Violation('validation', f'{action} -> {outcome} {exc}: validated {names}, '
                            f'expected {sorted(expect)}')
        dirty = new or bool(touched)
        save = [(e[0], e[1]) for e in log if e[0] in
                ('onsave', 'onwrite', 'setonsave') or
                (e[0] == 'val' and e[1] == 'p')]
        es = []
        if dirty:
            es = [('setonsave', 'p'), ('val', 'p'), ('onsave', 'o')]
            if 'w' in touched:
                es.append(('onwrite', 'w'))
        if pbad:
            if outcome != 'invalid' or log[-1] is not pbad[0]:
                raise Violation('validation', f'{action}: the value set on '
                                f'save is invalid, went on: {log} -> '
                                f'{outcome}')
            return
        if sorted(save) != sorted(es):
            raise Violation('on-save', f'{action}: on-save work {save}, '
                            f'expected {es}')
        if at_write:
            return
        n = sum(1 for e in log if e[0] == 'write')
        if n != 1:
            raise Violation('write', f'{action} wrote {n} times')
        if outcome == 'invalid':
            raise Violation('validation', f'{action} rejected: {exc}')
        if outcome == 'ok' and result is not att['obj']:
            raise Violation('write', 'save did not return the object')


class Store(SimStore):

    def __init__(self, sim, world):
        super().__init__(sim)
        self.world = world

    def write(self, obj):
        sim, w = self.sim, self.world
        att = sim.attempts[-1] if sim.attempts else None
        if att is None or att['obj'] is not obj:
            raise Violation('write', 'an object was written outside its own '
                            'save')
        w.judge(att, None, None, None, at_write=True)
        for e in att['log']:
            if e[0] == 'setonsave':
                w.models[att['i']]['p'] = e[3]
                w.touch(att['i'], 'p')
        log('write')
        for a in sim.attempts[:-1]:
            a['nested'] = True
        before = len(self.log)
        try:
            super().write(obj)
        except InjectedFault:
            att['log'].append(('write', 'error'))
            att['log'][-2:] = [('write', 'error')]
            raise
        finally:
            if len(self.log) != before:
                att['writes'].append(1)

    def delete(self, obj):
        att = self.sim.attempts[-1] if self.sim.attempts else None
        if att is None or att['obj'] is not obj or att['action'] != 'delete':
            raise Violation('write', 'an object was removed outside its own '
                            'delete')
        self.world.judge(att, None, None, None, at_write=True)
        log('remove')
        for a in self.sim.attempts[:-1]:
            a['nested'] = True
        before = len(self.log)
        try:
            super().delete(obj)
        except InjectedFault:
            att['log'][-1:] = [('remove', 'error')]
            raise
        finally:
            if len(self.log) != before:
                att['writes'].append(1)


def body(sim, w, plan):
    for op in plan['ops']:
        kind, i = op[0], op[1]
        if kind == 'new':
            o = w.cls(id=i + 1)
            m = {f: None for f in FIELDS}
            m['id'] = i + 1
            w.pending[i] = set()
            for k, v in op[2].items():
                setattr(o, k, v)
                m[k] = v
            w.objs[i], w.models[i] = o, m
            w.ops[i] = None if op[3] is None else OPS[op[3]]
            if o.opby(w.ops[i]) is not o:
                raise Violation('wrong-operator', 'opby returned another '
                                'object')
            continue
        if i not in w.objs:
            continue
        o = w.objs[i]
        if kind == 'set':
            setattr(o, op[2], op[3])
            if w.models[i][op[2]] != op[3]:
                w.models[i][op[2]] = op[3]
                w.touch(i, op[2])
        elif kind == 'opby':
            w.ops[i] = None if op[2] is None else OPS[op[2]]
            o.opby(w.ops[i])
        elif kind == 'save':
            w.save(i, op[2], op[3])
        elif kind == 'delete':
            w.attempt('delete', i, lambda o: o.delete())
            if not o.is_new and ('Acct', i + 1) not in w.store.rows:
                del w.objs[i]
        elif kind == 'read':
            def read(o):
                r = o.tojson()
                want = {k: v for k, v in w.models[i].items() if v is not None}
                if r != want:
                    raise Violation('read-failed', f'output {r}, object '
                                    f'{want}')
                return o
            w.attempt('read', i, read)


def run(plan, sim):
    if plan.get('rel'):
        try:
            return c04.run(plan, sim)
        except Violation as v:
            if v.kind == 'stored-invalid':
                raise
            return      # C04's own concern
    sim.clock = Clock()
    sim.entropy = Entropy(7)
    sim.attempts = []
    sim.set_n = 0
    sim.acts = {(a[0], a[1]): a[2] for a in plan['acts']}
    w = World(sim, SPECS[plan['cls']], CLASSES[plan['cls']])
    w.pending = {}
    sim.world = w
    try:
        if plan['crash_line']:
            with LineTracer(sim, plan['crash_line'], 'crash'):
                body(sim, w, plan)
        else:
            body(sim, w, plan)
    except SimCrash:
        sim.count('crashes')
        sim.attempts = []
        w.objs.clear()
        for (_, pk), row in list(w.store.rows.items()):
            o = w.cls()
            for k, v in row.items():
                setattr(o, k, v)
            o._mark_unmodified()
            i = pk - 1
            w.objs[i] = o
            w.models[i] = {f: row.get(f) for f in FIELDS}
            w.pending[i] = set()
            w.ops[i] = OPS[0]
            o.opby(OPS[0])
    # the faults are over: everything must go through
    sim._faults.clear()
    sim.acts = {}
    for i in sorted(w.objs):
        w.ops[i] = OPS[1]
        w.objs[i].opby(OPS[1])
        w.save(i, False, False)
    sim.ev('final', sorted((k[1], v) for k, v in w.store.rows.items()))
