#!/usr/bin/env python3
"""Plant bugs.  usage: plant.py make SPEC.py...   writes ../seeded/<id>/
                       plant.py test [--nocheck] ID...  confirms and runs the check

A spec file defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO
(python source run with cwd = the tree).  Everything happens in a scratch copy
of /repo under /tmp which is removed afterwards."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# cwd: the tree under test
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=e, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return r.returncode, r.stdout


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    t = os.path.join(d, 'repo')
    sh(f'cp -a /repo {t}', '/')
    return d, t


def make(path):
    spec = runpy.run_path(path)
    id = os.path.basename(path)[:-3]
    d, t = copy()
    try:
        for f, old, new in spec['EDITS']:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT does not match exactly once:', f, s.count(old))
                return
            open(p, 'w').write(s.replace(old, new))
        code, diff = sh('git diff', t)
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(spec['DEMO'].lstrip())
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'],
                   'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def tests(t, d):
    rep = os.path.join(d, 'junit.xml')
    sh(f'{PY} -m pytest -q -p pytest_timeout -p no:cacheprovider '
       f'--timeout=300 --continue-on-collection-errors -o junit_family=xunit2 '
       f'--junitxml={rep} tests', t,
       {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'TZ': 'UTC',
        'PYTHONPATH': t + '/tests', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1'})
    sh(f'python3 /opt/vp/results.py {d}/o.json junit:{rep}', t)
    o = json.load(open(d + '/o.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    get = lambda x: set(next(x[k] for k in ('passed', 'stable', 'tests')
                             if k in x))
    return sorted(get(b) - get(o))


def test(id, check, props=None):
    src = os.path.join(SEEDED, id)
    meta = json.load(open(src + '/meta.json'))
    d, t = copy()
    msg = []
    try:
        demo = os.path.join(d, 'demo')
        shutil.copytree(src, demo)
        c0, o0 = sh(f'bash {demo}/demo.sh', t)
        if c0 != 0:
            msg.append(f'DEMO FAILS UNPATCHED {o0[-300:]}')
        ca, oa = sh(f'git apply {src}/patch.diff', t)
        if ca:
            return f'{id}: DOES NOT APPLY {oa}'
        c1, o1 = sh(f'bash {demo}/demo.sh', t)
        if c1 == 0:
            msg.append('DEMO PASSES WITH PATCH')
        miss = tests(t, d)
        if miss:
            msg.append(f'TESTS FAIL {miss[:3]}')
        if not msg:
            msg.append('ok')
        if check:
            for p in props or [meta['property']]:
                cc, oc = sh(f'./check.sh {p} quick', VERIF,
                            {'DST_REPO': t, 'VERIF_SEED': '1'})
                if cc == 1 and f'VIOLATION property={p}' in oc:
                    line = [l for l in oc.splitlines() if l.startswith('  ')]
                    msg.append(f'CAUGHT by {p}:' + (line[0][:150] if line
                                                    else ''))
                else:
                    msg.append(f'missed by {p} (exit {cc})'
                               + (oc[-400:] if cc not in (0, 1) else ''))
    finally:
        shutil.rmtree(d)
    return f"{id} [{meta['property']}]: " + ' | '.join(msg)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for p in sys.argv[2:]:
            make(p)
    else:
        args = sys.argv[2:]
        check = '--nocheck' not in args
        all_ = '--all' in args
        ids = [a for a in args if not a.startswith('-')] or \
            sorted(os.listdir(SEEDED))
        props = None
        if all_:
            man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
            props = [c['property'] for c in man['checks']]
        with ThreadPoolExecutor(1 if check else 6) as ex:
            for r in ex.map(lambda i: test(i, check, props), ids):
                print(r, flush=True)
