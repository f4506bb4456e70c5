"""C10: loading the user's configuration: faulty files, missing environment,
first use from several threads."""
from __future__ import annotations
import json
import os
from ..disk import Disk, DiskError, gen_fault
from ..sim import Violation, Clock, Scheduler, SimCrash, gen_switches

ID = 'C10'
QUICK = 14000
THOROUGH = 300000
BATCH = 1
AXES = ('faults', 'steps')
STATE_RULE = ('distinct hashes of (what is on disk, environment complete, '
              'loaded or not, threads, outcome pattern, fault kinds)')
REAL = ['uconf, UserConf, UserConfRoot, singleton', 'environment '
        'replacement and key naming']
STUB = ['disk (scratch directory with injected errors)', 'host encoding',
        'thread scheduler']
ASSUMPTIONS = ['the root of config.json is an object', 'keys of one object '
               'stay distinct after naming']

ENVS = ['AA', 'BB', 'CC']
KEYS = ['name', 'dbUrl', 'someLongKey', 'snake_key', 'PascalKey', 'uploaders',
        'b2Key']


def prepare():
    import inflection
    inflection.underscore('warmUp')


def gen_value(rng, depth):
    k = rng.weighted([('str', 3), ('env', 3), ('num', 2), ('dict', 3 * depth),
                      ('list', 2 * depth), ('odd', 1)])
    if k == 'str':
        return rng.choice(['', 'plain', 'caf\u00e9 \u4e2d', "environ['AA'] ",
                           " environ['AA']", 'environ[AA]', "x\nenviron['AA']"
                           ])
    if k == 'env':
        n = rng.choice(ENVS)
        return rng.choice([f"environ['{n}']", f'environ["{n}"]'])
    if k == 'num':
        return rng.choice([0, 1, -7, 2.5, 10 ** 20])
    if k == 'odd':
        return rng.choice([None, True, False, [], {}])
    if k == 'dict':
        return {key: gen_value(rng, depth - 1)
                for key in rng.sample(KEYS, rng.randrange(4))}
    return [gen_value(rng, depth - 1) for _ in range(rng.randrange(4))]


def gen(rng):
    confs = []
    for _ in range(2):
        confs.append({k: gen_value(rng, 3) for k in
                      rng.sample(KEYS, rng.choice([1, 2, 4]))})
    kinds = ['call', 'call', 'write', 'write', 'env', 'read', 'read', 'chdir',
             'remove']
    steps = []
    if rng.maybe(.8):
        for e in ENVS:
            if rng.maybe(.8):
                steps.append(['env', ENVS.index(e), 0, 0])
    if rng.maybe(.85):
        steps.append(['write', rng.choice([0, 0, 0, 1, 2, 3, 4, 5]),
                      rng.randrange(1000), 0])
    for _ in range(rng.choice([2, 4, 8, 12])):
        k = rng.choice(kinds)
        if k == 'call':
            n = rng.choice([1, 1, 2, 2, 3])
            steps.append(['call', n, [rng.randrange(n) for _ in range(n)],
                          gen_switches(rng, n, files=['uconf.py', 'singleton.py'])
                          if n > 1 else []])
        elif k == 'write':
            steps.append(['write', rng.choice([0, 0, 1, 2, 3, 4, 5]),
                          rng.randrange(1000), rng.randrange(2)])
        else:
            steps.append([k, rng.randrange(8), rng.randrange(8),
                          rng.randrange(1000)])
    faults = []
    if rng.maybe(.5):
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults.append(gen_fault(rng, ['disk.open.read', 'disk.read',
                                          'disk.close']))
    return {'confs': confs, 'steps': steps, 'faults': faults, 'fresh': True,
            'encoding': rng.choice(['utf-8', 'utf-8', 'latin-1', 'ascii',
                                    'cp1252'])}


def reference(raw, env):
    """What the configuration is, from the text of the file."""
    from inflection import underscore

    def value(v):
        if isinstance(v, dict):
            return {underscore(k): value(x) for k, x in v.items()}
        if isinstance(v, list):
            return [value(x) for x in v]
        if isinstance(v, str):
            for q1 in '\'"':
                for q2 in '\'"':
                    if v.startswith('environ[' + q1) and v.endswith(q2 + ']') \
                            and len(v) > 11 and '\n' not in v:
                        return env[v[9:-2]]
        return v
    return value(json.loads(raw.decode('utf-8')))


class W:
    conf = None         # what was loaded
    root = None         # the object returned
    raw = None          # bytes on disk now, None: no file
    kind = 'none'


def differ(got, want):
    """Where the configuration differs from what it should be (through its
    public interface only)."""
    from jsonclasses.uconf import UserConf
    if isinstance(want, (dict, list)):
        if not isinstance(got, UserConf):
            return f'{got!r} instead of {want!r}'
        for k in want if isinstance(want, dict) else range(len(want)):
            for sub in (got.get(k), got[k]):
                d = differ(sub, want[k])
                if d is not None:
                    return f'{k}: {d}'
        return None
    if type(got) is not type(want) or got != want:
        return f'{got!r} instead of {want!r}'
    return None


def run(plan, sim):
    from jsonclasses import uconf
    sim.clock = Clock(tick=0)
    for e in ENVS:
        os.environ.pop(e, None)
    w = W()
    with Disk(sim, plan['encoding']) as disk:
        at = disk.root
        for step in plan['steps']:
            how = 'ok'
            kind = step[0]
            if kind == 'env':
                name = ENVS[step[1] % 3]
                val = ['v1', '', "environ['BB']", 'caf\u00e9', None][step[2] % 5]
                if val is None:
                    os.environ.pop(name, None)
                else:
                    os.environ[name] = val
            elif kind == 'write':
                write(plan, w, step)
            elif kind == 'remove':
                clear()
                w.raw, w.kind = None, 'none'
            elif kind == 'chdir':
                # another directory, with no configuration of its own
                d = os.path.join(at, 'other')
                os.makedirs(d, exist_ok=True)
                os.chdir(d if os.getcwd() == at else at)
                look(w)
            elif kind == 'call':
                how = call(sim, w, step, uconf)
            elif kind == 'read':
                if w.root is not None:
                    read(w, step)
            sim.ev(step, how)
            sim.state(kind, how, w.kind, w.root is not None,
                      all(e in os.environ for e in ENVS))
        # faults are over: whatever happened before, it works now
        os.chdir(at)
        sim._faults.clear()
        for e in ENVS:
            os.environ.setdefault(e, 'late')
        if w.root is None:
            write(plan, w, ['write', 0, 0, 0])
        call(sim, w, ['call', 1, [0], []], uconf)
        for i in range(4):
            read(w, ['read', i, i, i])
    for e in ENVS:
        os.environ.pop(e, None)


def clear():
    if os.path.isdir('config.json'):
        os.rmdir('config.json')
    elif os.path.lexists('config.json'):
        os.remove('config.json')


def put(raw):
    from .. import seams
    clear()
    with seams._real_open('config.json', 'wb') as f:
        f.write(raw)


def look(w):
    from .. import seams
    if os.path.isdir('config.json'):
        w.raw, w.kind = None, 'dir'
    elif os.path.lexists('config.json'):
        with seams._real_open('config.json', 'rb') as f:
            w.raw = f.read()
        w.kind = 'file'
    else:
        w.raw, w.kind = None, 'none'


def write(plan, w, step):
    _, form, k, which = step
    conf = plan['confs'][which % 2]
    raw = json.dumps(conf, ensure_ascii=bool(k % 2), indent=k % 3).encode()
    w.kind = ['full', 'torn', 'empty', 'garbage', 'dir', 'notutf8'][form]
    if form == 1:
        raw = raw[:1 + k % (len(raw) - 1)]
    elif form == 2:
        raw = b''
    elif form == 3:
        raw = raw + b'}'
    elif form == 4:
        clear()
        os.mkdir('config.json')
        w.raw = None
        return
    elif form == 5:
        raw = b'{"name": "\xff\xfe"}'
    put(raw)
    w.raw = raw


def call(sim, w, step, uconf):
    _, n, order, switches = step
    want, err = None, None
    if w.root is None:
        if w.raw is None:
            want = {}
        else:
            try:
                want = reference(w.raw, dict(os.environ))
            except (ValueError, KeyError) as e:
                err = e
    reads = sim.seam_calls.get('disk.open.read', 0)
    fired = sum(sim.fault_counts.values())
    if n == 1:
        try:
            results, errors = [uconf()], [None]
        except BaseException as e:  # noqa: BLE001
            results, errors = [None], [e]
    else:
        results, errors = Scheduler(sim, n, switches, order).run([uconf] * n)
    injected = sum(sim.fault_counts.values()) - fired
    got = [r for r in results if r is not None]
    for e in errors:
        if e is None:
            continue
        if isinstance(e, Violation):
            raise e
        if isinstance(e, (DiskError, SimCrash)):
            if w.root is not None:
                raise Violation('reload', 'an error after it was loaded')
            injected -= 1
            if injected < 0:
                raise Violation('error-kept', 'one error was reported twice')
            continue
        if err is None:
            raise Violation('load-refused', f'{e!r}, but the file is good')
        if isinstance(err, KeyError):
            if not isinstance(e, KeyError) or err.args[0] not in str(e):
                raise Violation('wrong-error', f'{e!r}, but {err!r} is not '
                                'defined')
        elif not isinstance(e, ValueError):
            raise Violation('wrong-error', f'{e!r}')
    if got and err is not None:
        raise Violation('broken-file-accepted', f'{w.kind} {err!r}')
    for r in got:
        if w.root is None:
            w.root, w.conf = r, want
        if r is not w.root:
            raise Violation('two-configurations', 'callers hold different '
                            'configuration objects')
        d = differ(r, w.conf)
        if d is not None:
            raise Violation('wrong-configuration', d)
    opened = sim.seam_calls.get('disk.open.read', 0) - reads
    if want is None and err is None and opened:
        raise Violation('reload', 'the file is read again after it was loaded')
    return ' '.join(sorted('ok' if e is None else type(e).__name__
                           for e in errors))


MISSING = ['nope', 'name.nope', 'some_long_key.x.y', '99']


def read(w, step):
    _, a, b, c = step
    paths = []

    def walk(v, path):
        if path:
            paths.append((path, v))
        if isinstance(v, dict):
            for k, x in v.items():
                walk(x, path + [k])
        elif isinstance(v, list):
            for i, x in enumerate(v):
                walk(x, path + [str(i)])
    walk(w.conf, [])
    for m in MISSING:
        v = w.conf
        for p in m.split('.'):
            if isinstance(v, list) and not p.isdigit():
                v = 'skip'
            elif isinstance(v, list):
                v = v[int(p)] if int(p) < len(v) else None
            elif isinstance(v, dict):
                v = v.get(p)
            elif v != 'skip':
                v = None
        if v is None and w.root.get(m) is not None:
            raise Violation('from-nowhere', f'{m}: {w.root.get(m)}')
    for i in range(3):
        if not paths:
            return
        path, v = paths[(a + b * i + c) % len(paths)]
        d = differ(w.root.get('.'.join(path)), v)
        if d is not None:
            raise Violation('wrong-value', f'{path}: {d}')
