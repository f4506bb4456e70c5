"""Seeded search over simulated runs, minimisation, replay and evidence.

usage: python -m dst.runner check PROPERTY quick|thorough
       python -m dst.runner replay FILE
       python -m dst.runner digest PROPERTY FIRST COUNT   (determinism proof)
"""
from __future__ import annotations
import os
import sys

_FIXED_ENV = {
    'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'),
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONPYCACHEPREFIX': '/nonexistent/pycache',
    'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8',
}


def _reexec():
    if any(os.environ.get(k) != v for k, v in _FIXED_ENV.items()):
        env = dict(os.environ)
        env.update(_FIXED_ENV)
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable,
                  [sys.executable, '-B', '-W', 'ignore', '-m', 'dst.runner']
                  + sys.argv[1:], env)


if __name__ == '__main__':
    _reexec()

import gc
import hashlib
import importlib
import json
import mmap
import select
import shutil
import signal
import struct
import tempfile
import traceback
from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
HANG_S = 60.0
RECHECK_EVERY = 64
# library internals the harness touches: without them there is no answer
INTERNALS = ('_mark_unmodified', '_mark_new', '_set_initialized', 'cdef',
             'jconf', '_graph')


def load_property(pid):
    return importlib.import_module(f'dst.props.{pid.lower()}')


def run_seed(seed, pid, index):
    h = hashlib.sha256(f'{seed}/{pid}/{index}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_plan(prop, seed, index):
    from .sim import Rng
    rng = Rng(run_seed(seed, prop.ID, index))
    plan = prop.gen(rng)
    # the plan is data: what is executed is exactly what a replay file holds
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------- one execution

def execute(prop, plan):
    """Run one plan in this process and return a plain result."""
    from .sim import Sim, Violation, HarnessError, StepLimit
    sim = Sim(plan)
    violation = None
    error = None
    try:
        with sim:
            prop.run(plan, sim)
    except Violation as v:
        violation = [v.kind, str(v.detail)[:1500]]
    except StepLimit:
        violation = ['no-progress', 'the run exceeded its step budget']
    except HarnessError:
        error = traceback.format_exc()
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(seams.LIB_ROOT) for f in tb):
            last = [f for f in tb if f.filename.startswith(seams.LIB_ROOT)][-1]
            violation = ['unexpected-exception',
                         f'{type(e).__name__}: {str(e)[:300]} '
                         f'(in {os.path.basename(last.filename)}:{last.name})']
        elif isinstance(e, (ImportError, NameError)) or (
                isinstance(e, AttributeError) and e.name in INTERNALS):
            error = traceback.format_exc()
        else:
            # never seen on a correct tree: the library handed the observer
            # something of a shape that none of its results has
            violation = ['unexpected-result',
                         f'{type(e).__name__}: {str(e)[:300]} (observing in '
                         f'{tb[-1].name})']
    seams.CUR.sim = None
    sys.settrace(None)
    return {
        'violation': violation, 'error': error, 'digest': sim.digest(),
        'counters': sim.counters, 'faults': sim.fault_counts,
        'seams': sim.seam_calls, 'states': sorted(sim.states)[:400],
        'sim_us': sim.clock.travel if sim.clock is not None else 0,
        'sched': _sched_hash(sim),
    }


def _sched_hash(sim):
    pts = [e for e in sim.events if e and e[0] in ('schedule', 'fault')]
    return hashlib.blake2b(json.dumps(pts, default=repr).encode(),
                           digest_size=8).hexdigest()


def execute_forked(prop, plans, timeout=HANG_S):
    """Run plans one after another in one fresh forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            res = [execute(prop, plan) for plan in plans]
            data = json.dumps(res, default=repr).encode()
            os.write(w, struct.pack('<I', len(data)))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        except BaseException:  # noqa: BLE001
            try:
                traceback.print_exc()
            except BaseException:  # noqa: BLE001
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = seams.perf() + timeout
    hung = False
    while True:
        left = deadline - seams.perf()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        return {'hang': True}
    if len(buf) < 4:
        return {'died': status}
    return json.loads(buf[4:].decode())


def run_plan(prop, plan, prefix=()):
    """Execute one plan in a fresh process (after the plans of `prefix`),
    with classification of hangs and deaths."""
    plans = list(prefix) + [plan]
    res = execute_forked(prop, plans)
    if isinstance(res, dict) and res.get('hang'):
        res = execute_forked(prop, plans, timeout=2 * HANG_S)
        if isinstance(res, dict) and res.get('hang'):
            return _blank(violation=['no-progress',
                                     'the run never finished (twice)'])
    if isinstance(res, dict):
        status = res.get('died')
        res = execute_forked(prop, plans)
        if isinstance(res, dict) and plan.get('opcodes') and \
                status & 0x7f == 11:
            # the interpreter's opcode tracing crashed: no answer for this run
            r = _blank()
            r['counters'] = {'lost_runs_interpreter_crash': 1}
            return r
        if isinstance(res, dict) and status & 0x7f in (6, 8, 11) and \
                res.get('died') == status:
            return _blank(violation=['died', 'the run killed the process '
                                     f'(signal {status}, twice)'])
        if isinstance(res, dict):
            return _blank(error=f'simulated run died, wait status {status}')
    return res[-1]


def run_batch(prop, plans):
    """Execute several plans in one process; falls back to one process each
    when the batch as a whole gives no answer."""
    if len(plans) > 1:
        res = execute_forked(prop, plans)
        if not isinstance(res, dict):
            return res
    return [run_plan(prop, p) for p in plans]


def _blank(violation=None, error=None):
    return {'violation': violation, 'error': error, 'digest': '',
            'counters': {}, 'faults': {}, 'seams': {}, 'states': [],
            'sim_us': 0, 'sched': ''}


# ------------------------------------------------------------- minimisation

def minimise(prop, plan, kind, prefix=(), budget=500, seconds=90):
    if os.environ.get('DST_NOMIN'):
        budget = 0
    t0 = seams.perf()
    tries = [0]

    def fails(p):
        if tries[0] >= budget or seams.perf() - t0 > seconds:
            return False
        tries[0] += 1
        res = run_plan(prop, p, prefix)
        return res['violation'] is not None and res['violation'][0] == kind

    plan = json.loads(json.dumps(plan))
    axes = getattr(prop, 'AXES', ('faults', 'switches', 'ops'))
    changed = True
    while changed and tries[0] < budget:
        changed = False
        for axis in axes:
            parts = axis.split('.')
            host = plan
            for p in parts[:-1]:
                host = host[int(p)] if isinstance(host, list) else \
                    host.get(p, {})
            key = parts[-1]
            if isinstance(host, list):
                key = int(key)
                lst = host[key] if key < len(host) else None
            else:
                lst = host.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + size:]
                    host[key] = cand
                    if fails(plan):
                        lst = cand
                        changed = True
                    else:
                        host[key] = lst
                        i += size
                size //= 2
        simplify = getattr(prop, 'simplify', None)
        if simplify is not None:
            for cand in simplify(plan):
                cand = json.loads(json.dumps(cand))
                if fails(cand):
                    plan = cand
                    changed = True
                    break
    return plan, tries[0]


# -------------------------------------------------------------- known findings

def known_findings(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


def matches_known(known, violation):
    for k in known:
        if k['kind'] == violation[0] and k['match'] in violation[1]:
            return k
    return None


# -------------------------------------------------------------------- search

def worker(prop, seed, widx, nworkers, runs, best, wfd):
    """Run indices widx, widx+nworkers, ...; stop once a smaller failing index
    is known."""
    known = known_findings(prop.ID)
    agg = {'runs': 0, 'counters': {}, 'faults': {}, 'seams': {},
           'states': set(), 'scheds': set(), 'digests': set(), 'sim_us': 0,
           'rechecks': 0, 'known': {}, 'violations': [], 'errors': [],
           'nondeterminism': [], 'samples': []}
    batch_size = getattr(prop, 'BATCH', 1)
    todo = list(range(widx, runs, nworkers))
    pos = 0
    while pos < len(todo):
        if todo[pos] > struct.unpack('<q', best[:8])[0]:
            break
        batch = []
        while pos < len(todo) and len(batch) < batch_size:
            plan = make_plan(prop, seed, todo[pos])
            if plan.get('fresh') and batch:
                break
            batch.append((todo[pos], plan))
            pos += 1
            if plan.get('fresh'):
                break
        stop = False
        results = run_batch(prop, [p for _, p in batch])
        for at, ((i, plan), res) in enumerate(zip(batch, results)):
            account(agg, i, plan, res, widx)
            if res['error']:
                agg['errors'].append([i, res['error']])
                stop = stop or len(agg['errors']) > 3
                continue
            if (i // nworkers) % RECHECK_EVERY == 0:
                again = run_plan(prop, plan)
                agg['rechecks'] += 1
                if res['violation'] is None and (
                        again['digest'] != res['digest']
                        or again['violation']):
                    # what the process ran before may matter (a cache that is
                    # warm now): the same history must give the same run
                    again = run_plan(prop, plan, [p for _, p in batch[:at]])
                    if again['digest'] != res['digest'] or again['violation']:
                        agg['nondeterminism'].append(i)
                    else:
                        agg['counters']['history_dependent_runs'] = 1 + \
                            agg['counters'].get('history_dependent_runs', 0)
            if res['violation']:
                k = matches_known(known, res['violation'])
                if k is not None:
                    agg['known'][k['id']] = agg['known'].get(k['id'], 0) + 1
                    continue
                agg['violations'].append(
                    [i, res['violation'], [j for j, _ in batch[:at]]])
                cur = struct.unpack('<q', best[:8])[0]
                if i < cur:
                    best[:8] = struct.pack('<q', i)
                stop = True
                break
        if stop:
            break
    for k in ('states', 'scheds', 'digests'):
        agg[k] = sorted(agg[k])
    data = json.dumps(agg, default=repr).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def account(agg, i, plan, res, widx):
    agg['runs'] += 1
    for name in ('counters', 'faults', 'seams'):
        d = agg[name]
        for k, v in res[name].items():
            d[k] = d.get(k, 0) + v
    agg['states'].update(res['states'])
    agg['scheds'].add(res['sched'])
    agg['digests'].add(res['digest'][:16])
    agg['sim_us'] += res['sim_us']
    if len(agg['samples']) < 1 and widx < 3:
        agg['samples'].append({'index': i, 'plan': plan,
                               'digest': res['digest'][:16]})


def merge(a, b):
    for name in ('counters', 'faults', 'seams', 'known'):
        for k, v in b[name].items():
            a[name][k] = a[name].get(k, 0) + v
    for name in ('states', 'scheds', 'digests'):
        a[name].update(b[name])
    for name in ('runs', 'sim_us', 'rechecks'):
        a[name] += b[name]
    for name in ('violations', 'errors', 'nondeterminism', 'samples'):
        a[name].extend(b[name])


def search(prop, seed, runs, nworkers):
    best = mmap.mmap(-1, 8)
    best[:8] = struct.pack('<q', 1 << 60)
    gc.collect()
    gc.freeze()
    procs = []
    for w in range(nworkers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for _, other in procs:
                    os.close(other)
                worker(prop, seed, w, nworkers, runs, best, wfd)
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    agg = {'runs': 0, 'counters': {}, 'faults': {}, 'seams': {},
           'states': set(), 'scheds': set(), 'digests': set(), 'sim_us': 0,
           'rechecks': 0, 'known': {}, 'violations': [], 'errors': [],
           'nondeterminism': [], 'samples': []}
    bufs = {r: [] for _, r in procs}
    open_fds = set(bufs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[fd].append(chunk)
            else:
                open_fds.discard(fd)
                os.close(fd)
    bad = 0
    for pid, r in procs:
        _, status = os.waitpid(pid, 0)
        data = b''.join(bufs[r])
        if status != 0 or not data:
            bad += 1
            continue
        merge(agg, json.loads(data.decode()))
    if bad:
        agg['errors'].append([-1, f'{bad} worker(s) failed'])
    agg['violations'].sort()
    return agg


def clamp(d, n=60):
    return dict(sorted(d.items(), key=lambda kv: (-kv[1], kv[0]))[:n])


def check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = seams.perf()
    seams.install()
    try:
        seams.import_library()
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        print('ERROR: the tree under test cannot be imported')
        return 2
    prop = load_property(pid)
    scale = float(os.environ.get('DST_SCALE', '1'))
    runs = prop.QUICK if tier == 'quick' else prop.THOROUGH
    runs = max(8, int(runs * scale))
    nworkers = int(os.environ.get('DST_WORKERS', '0')) or \
        max(2, min(8, os.cpu_count() or 2))
    scratch = tempfile.mkdtemp(prefix='dst-')
    os.environ['DST_SCRATCH'] = scratch
    agg = None
    nontrivial_min = getattr(prop, 'MIN_STATES', 0)
    try:
        if hasattr(prop, 'prepare'):
            try:
                prop.prepare()
            except Exception as e:  # noqa: BLE001
                return broken_prepare(prop, seed, e)
        agg = search(prop, seed, runs, nworkers)
        violation = None
        replay = None
        min_tries = 0
        if agg['violations']:
            index, v, before = agg['violations'][0]
            plan = make_plan(prop, seed, index)
            prefix = []
            if run_plan(prop, plan)['violation'] is None:
                # it needs what earlier runs left behind in the process
                prefix = [make_plan(prop, seed, j) for j in before]
                j = 0
                while j < len(prefix):
                    cand = prefix[:j] + prefix[j + 1:]
                    if run_plan(prop, plan, cand)['violation']:
                        prefix = cand
                    else:
                        j += 1
            small, min_tries = minimise(prop, plan, v[0], prefix)
            res = run_plan(prop, small, prefix)
            if res['violation'] is None:
                small = plan
                res = run_plan(prop, small, prefix)
            exact = res['violation'] is not None
            if not exact:
                # seen once, not again: the tree under test itself behaves
                # differently from run to run
                small = plan
                res = dict(res, violation=v)
            if True:
                violation = res['violation']
                os.makedirs(REPLAYS, exist_ok=True)
                name = f'{pid}-s{seed}-r{index}-{res["digest"][:8]}.json'
                replay = os.path.join(REPLAYS, name)
                with open(replay, 'w') as f:
                    json.dump({'property': pid, 'seed': seed, 'run': index,
                               'violation': violation,
                               'digest': res['digest'],
                               'found_as': v, 'plan': small,
                               'prefix': prefix, 'reproducible': exact,
                               'unminimised_sizes': sizes(plan),
                               'minimised_sizes': sizes(small)},
                              f, indent=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = seams.perf() - t0
    write_evidence(prop, tier, seed, agg, wall, violation, replay, min_tries,
                   nworkers)
    for k in known_findings(pid):
        if agg['known'].get(k['id']):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rate = agg['runs'] / max(wall, 1e-9)
    print(f"{pid} {tier}: {agg['runs']} simulated runs, seed {seed}, "
          f"{len(agg['scheds'])} distinct schedule/fault traces, "
          f"{len(agg['states'])} distinct states, "
          f"{sum(agg['faults'].values())} faults fired, "
          f"{agg['rechecks']} determinism re-runs, "
          f"{wall:.1f}s ({rate:.0f} runs/s)")
    if violation is not None:
        print(f'  {violation[0]}: {violation[1]}')
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if agg['errors']:
        print('ERROR: harness failure (not a violation)')
        for i, e in agg['errors'][:3]:
            print(f'run {i}:\n{e}')
        return 2
    if agg['nondeterminism']:
        print('WARNING: simulation is not deterministic for runs '
              f"{agg['nondeterminism'][:5]}")
    if len(agg['states']) < nontrivial_min * min(1.0, scale):
        print(f"ERROR: only {len(agg['states'])} states reached, "
              f'expected {nontrivial_min}')
        return 4
    return 0


def broken_prepare(prop, seed, e):
    """The library cannot even define or first use the simulated classes."""
    traceback.print_exc()
    tb = [f for f in traceback.extract_tb(e.__traceback__)
          if f.filename.startswith(seams.LIB_ROOT)]
    from .sim import Violation
    if not tb and not isinstance(e, Violation):
        print('ERROR: harness failure (not a violation)')
        return 2
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop.ID}-s{seed}-prepare.json')
    detail = f'{type(e).__name__}: {str(e)[:300]}' + (
        f' (in {tb[-1].name})' if tb else '')
    with open(path, 'w') as f:
        json.dump({'property': prop.ID, 'seed': seed, 'run': -1,
                   'violation': ['setup-exception', detail], 'digest': '',
                   'plan': None}, f, indent=1)
    print(f'  setup-exception: {detail}')
    print(f'VIOLATION property={prop.ID} replay={path}')
    return 1


def sizes(plan):
    return {k: len(v) for k, v in plan.items() if isinstance(v, list)}


def write_evidence(prop, tier, seed, agg, wall, violation, replay, min_tries,
                   nworkers):
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = [json.dumps(s)[:1200] for s in agg['samples'][:3]]
    ev = {
        'property': prop.ID,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(agg['states']),
            'rule': prop.STATE_RULE,
            'samples': samples,
            'distinct_schedule_fault_traces': len(agg['scheds']),
            'distinct_event_logs': len(agg['digests']),
            'runs_per_hour': int(agg['runs'] / max(wall, 1e-9) * 3600),
            'seeds': agg['runs'],
            'simulated_time_s': agg['sim_us'] / 1e6,
            'faults_fired': clamp(agg['faults']),
            'faults_fired_total': sum(agg['faults'].values()),
            'seam_crossings': clamp(agg['seams']),
            'probes': clamp(agg['counters'], 80),
            'determinism_reruns': agg['rechecks'],
            'nondeterministic_runs': agg['nondeterminism'],
            'known_findings_seen': agg['known'],
            'workers': nworkers,
            'real_components': prop.REAL,
            'stub_components': prop.STUB,
        },
        'wall_s': round(wall, 2),
        'assumptions': prop.ASSUMPTIONS,
        'violations': 0 if violation is None else 1,
    }
    if violation is not None:
        ev['coverage']['violation'] = {
            'kind': violation[0], 'detail': violation[1], 'replay': replay,
            'minimisation_runs': min_tries}
    with open(os.path.join(EVIDENCE, f'{prop.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    seams.install()
    seams.import_library()
    prop = load_property(rec['property'])
    scratch = tempfile.mkdtemp(prefix='dst-')
    os.environ['DST_SCRATCH'] = scratch
    try:
        if rec['plan'] is None:
            try:
                prop.prepare()
            except Exception:  # noqa: BLE001
                traceback.print_exc()
                print(f"VIOLATION property={rec['property']} replay={path}")
                return 1
            print('the recorded failure does not occur on this tree')
            return 0
        if hasattr(prop, 'prepare'):
            prop.prepare()
        res = run_plan(prop, rec['plan'], rec.get('prefix', ()))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('recorded :', rec['violation'], rec['digest'][:16])
    print('replayed :', res['violation'], res['digest'][:16])
    if res['error']:
        print(res['error'])
        return 2
    if res['violation'] is None:
        print('the recorded failure does not occur on this tree')
        return 0
    same = res['violation'] == rec['violation'] and \
        res['digest'] == rec['digest']
    print('exact reproduction' if same else 'reproduced, trace differs')
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def digest(pid, first, count, seed):
    """Print one digest per run, for determinism diffs."""
    seams.install()
    seams.import_library()
    prop = load_property(pid)
    scratch = tempfile.mkdtemp(prefix='dst-')
    os.environ['DST_SCRATCH'] = scratch
    try:
        if hasattr(prop, 'prepare'):
            prop.prepare()
        for i in range(first, first + count):
            plan = make_plan(prop, seed, i)
            res = run_plan(prop, plan)
            print(pid, seed, i, res['digest'], res['violation'], res['error'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def show(pid, index, seed):
    seams.install()
    seams.import_library()
    prop = load_property(pid)
    os.environ['DST_SCRATCH'] = tempfile.mkdtemp(prefix='dst-')
    if hasattr(prop, 'prepare'):
        prop.prepare()
    plan = make_plan(prop, seed, index)
    print(json.dumps(plan))
    res = run_plan(prop, plan)
    print(json.dumps(res, indent=1))
    shutil.rmtree(os.environ['DST_SCRATCH'], ignore_errors=True)
    return 0


def main(argv):
    if argv[:1] == ['check'] and len(argv) == 3:
        return check(argv[1], argv[2])
    if argv[:1] == ['replay'] and len(argv) == 2:
        return replay(argv[1])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if argv[:1] == ['digest'] and len(argv) == 4:
        return digest(argv[1], int(argv[2]), int(argv[3]), seed)
    if argv[:1] == ['show'] and len(argv) == 3:
        return show(argv[1], int(argv[2]), seed)
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
