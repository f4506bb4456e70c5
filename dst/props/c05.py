"""C05: what an object reports as changed is complete."""
from __future__ import annotations
from ..sim import Violation, SimCrash, InjectedFault, LineTracer, Clock
from .. import docworld
from ..docworld import (DocWorld, gen_mut, gen_value, ALLF, FIELDS, snap,
                        exact)
from ..store import plain

ID = 'C05'
QUICK = 24000
THOROUGH = 600000
BATCH = 12
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (set of reported changed names, set of names '
              'whose value differs from the stored row, object is new, last '
              'operation kind) observed after an operation')
REAL = ['object attribute protocol', 'tracked list and dict containers',
        'batch set/update', 'keypath set', 'validation', 'on-save pass',
        'save/delete sequencing', 'modified/new bookkeeping']
STUB = ['durable storage (in-memory table fed through the persistence hooks)',
        'process crash/restart (object graph dropped, reloaded from the table)']
ASSUMPTIONS = [
    'a persistence package writes new objects whole and other objects only at '
    'the names they report as modified, then marks them unmodified',
    'one thread; crashes are fail-stop',
]


def prepare():
    docworld.prepare('c05')


def gen(rng):
    n_docs = rng.randint(1, 3)
    init = []
    for _ in range(n_docs):
        fs = rng.sample(ALLF, rng.randint(2, len(ALLF)))
        init.append({f: gen_value(rng, f) for f in fs})
    ops = []
    for _ in range(rng.randint(3, 14)):
        i = rng.randrange(3)
        x = rng.random()
        if x < .72:
            ops.append(['m', i, gen_mut(rng)])
        elif x < .93:
            ops.append(['save', i])
        elif x < .97:
            ops.append(['reload', i])
        else:
            ops.append(['touch', i])
    faults = []
    if rng.maybe(.55):
        for _ in range(rng.randint(1, 3)):
            point = rng.weighted([('store.write', 4), ('validate', 2),
                                  ('onsave', 2), ('compare', 1),
                                  ('onupdate', 1)])
            if point == 'store.write':
                kind = rng.choice(['error', 'error', 'ack_lost',
                                   'crash_before', 'crash_after'])
            elif point in ('validate', 'compare'):
                kind = rng.choice(['reject', 'error'])
            else:
                kind = 'error'
            faults.append({'point': point, 'n': rng.randrange(5),
                           'kind': kind})
    crash_line = 0
    if rng.maybe(.12):
        crash_line = 1 + int(2 ** (rng.random() * 13))
    cold = rng.maybe(.12)
    return {'reset_all': rng.maybe(.4), 'fresh': cold,
            'temp': 'cold' if cold else 'warm', 'init': init, 'ops': ops,
            'saved': [rng.maybe(.8) for _ in range(3)],
            'faults': faults, 'crash_line': crash_line}


def write_at(row, doc, path):
    """Write into the row what the object holds at the key path."""
    names = path.split('.')
    src, dst = doc, row
    for k, name in enumerate(names):
        last = k == len(names) - 1
        if k == 0:
            if last:
                dst[name] = plain(src[name])
                return
            src, dst = src[name], dst.get(name)
        elif isinstance(src, dict) and isinstance(dst, dict):
            if name not in src:
                return
            if last:
                dst[name] = plain(src[name])
                return
            src, dst = src[name], dst.get(name)
        elif isinstance(src, list) and isinstance(dst, list) and \
                name.lstrip('-').isdigit():
            n = int(name)
            if not (0 <= n < len(src) and n < len(dst)):
                return
            if last:
                dst[n] = plain(src[n])
                return
            src, dst = src[n], dst[n]
        else:
            return


def check_paths(row, doc, model, what):
    """A storage which writes at the reported key paths only."""
    new = plain(row)
    paths = sorted(doc.persisted_modified_fields, key=lambda p: p.count('.'))
    for path in paths:
        write_at(new, model, path)
    lost = {f: (new.get(f), model[f]) for f in FIELDS
            if not exact(new.get(f), model[f])}
    if lost:
        raise Violation('lost-at-path', f'after {what}: writing at the '
                        f'reported key paths {paths} gives (stored, object) '
                        f'{lost}')


def check_report(sim, w, i, what):
    doc, model = w.docs[i], w.models[i]
    row = w.store.rows.get(('Doc', model['id']))
    reported = {n.split('.')[0] for n in doc.modified_fields}
    persisted = {n.split('.')[0] for n in doc.persisted_modified_fields}
    if doc.is_new:
        return
    differ = {f for f in FIELDS if not exact(row.get(f), model[f])}
    if differ - reported:
        raise Violation('unreported-change',
                        f'after {what}: fields {sorted(differ - reported)} '
                        f'differ from the stored row, reported '
                        f'{sorted(reported)}')
    if differ - persisted:
        raise Violation('unreported-change',
                        f'after {what}: fields {sorted(differ - persisted)} '
                        f'missing from the persisted report')
    check_paths(row, doc, model, what)
    if persisted & {'t', 'tl', 'td'}:
        raise Violation('temp-reported', f'after {what}: a temporary field '
                        'is reported for persisting')
    if differ and not doc.is_modified:
        raise Violation('unreported-change',
                        f'after {what}: {sorted(differ)} changed but the '
                        'object says it is not modified')
    if reported and not doc.is_modified:
        raise Violation('inconsistent-report',
                        f'after {what}: {sorted(reported)} reported but the '
                        'object says it is not modified')
    if doc.is_modified and not reported:
        raise Violation('inconsistent-report',
                        f'after {what}: modified but nothing reported')
    sim.state(sorted(reported), sorted(differ), what)


def do_save(sim, w, i):
    doc = w.docs[i]
    before = (doc.is_new, {n.split('.')[0] for n in doc.modified_fields})
    try:
        doc.save()
    except InjectedFault as e:
        ok = False
        sim.count('save.failed')
        err = e.kind
    except Exception as e:
        if type(e).__name__ != 'ValidationException':
            raise
        ok = False
        sim.count('save.rejected')
        err = 'reject'
    else:
        ok = True
        sim.count('save.ok')
    w.same(i, 'save')
    if ok:
        row = w.store.rows.get(('Doc', doc.id))
        if row is None or not exact(row, w.models[i]):
            diff = {k: (row.get(k) if row else None, w.models[i][k])
                    for k in FIELDS
                    if row is None or not exact(row.get(k), w.models[i][k])}
            raise Violation('lost-update', f'after an acknowledged save the '
                            f'(stored, memory) values are {diff}')
        if doc.is_new or doc.is_modified or doc.modified_fields:
            raise Violation('inconsistent-report',
                            'a saved object still reports changes')
    else:
        after = (doc.is_new, {n.split('.')[0] for n in doc.modified_fields})
        if after[0] != before[0] or not before[1] <= after[1]:
            raise Violation('forgotten-change',
                            f'a failed save ({err}) changed the pending '
                            f'report from {before} to {after}')
        if not doc.is_new:
            check_report(sim, w, i, 'failed save')
    return ok


def body(sim, w, plan):
    for i, values in enumerate(plan['init']):
        w.create(i + 1, values)
        if plan['saved'][i]:
            do_save(sim, w, i)
    for op in plan['ops']:
        i = op[1] % len(w.docs)
        if op[0] == 'm':
            w.mutate(i, op[2])
            w.same(i, op[2][:2] if op[2][0] != 'mut' else
                   [op[2][1], op[2][4], op[2][5]])
            check_report(sim, w, i, '/'.join(
                str(x) for x in ([op[2][0]] + ([op[2][4], op[2][5]]
                                 if op[2][0] == 'mut' else []))))
            for j in range(len(w.docs)):
                if j != i:
                    w.same(j, 'a change to another object')
        elif op[0] == 'save':
            do_save(sim, w, i)
        elif op[0] == 'reload':
            w.reload(i)
            sim.count('reload')
        elif op[0] == 'touch':
            was = (w.docs[i].is_modified, sorted(w.docs[i].modified_fields))
            w.docs[i].tojson()
            try:
                w.docs[i].is_valid
            except InjectedFault:
                pass
            now = (w.docs[i].is_modified, sorted(w.docs[i].modified_fields))
            if was != now:
                raise Violation('read-changes-report',
                                f'reading changed {was} to {now}')
        sim.ev('op', op[0], i, sorted(w.docs[i].modified_fields))


def run(plan, sim):
    sim.clock = Clock()
    w = DocWorld(sim, docworld.CLASSES[(plan['reset_all'], plan['temp'])])
    try:
        if plan.get('crash_line'):
            with LineTracer(sim, plan['crash_line'], 'crash'):
                body(sim, w, plan)
        else:
            body(sim, w, plan)
    except SimCrash:
        # the process died: only the table survives
        sim.count('crashes')
        sim.plan['faults'] = []
        sim._faults.clear()
        for i in range(len(w.models)):
            w.models[i]['id'] = i + 1
            w.docs = w.docs[:len(w.models)]
            w.reload(i)
            w.same(i, 'restart')
    # faults are over: one more save of everything must settle everything
    sim._faults.clear()
    for i in range(len(w.docs)):
        if not do_save(sim, w, i):
            raise Violation('no-progress', 'save fails without any fault')
    sim.ev('final', sorted((k[1], v) for k, v in w.store.rows.items()))
