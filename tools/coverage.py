#!/usr/bin/env python3
"""Which library lines the simulated runs execute (to find blind spots).
usage: coverage.py [RUNS]     prints the lines no property reaches"""
import dis
import json
import os
import sys
import tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['TZ'] = 'UTC'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', '-W',
                                      'ignore'] + sys.argv)
sys.path.insert(0, VERIF)
from dst import runner, seams  # noqa: E402


def lines_of(code, out):
    for _, _, l in code.co_lines():
        if l:
            out.add(l)
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            sub = set()
            lines_of(c, sub)
            sub.discard(c.co_firstlineno)
            out |= sub


def body(pid, n, w):
    hits = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'cov')

    def on_line(code, line):
        if code.co_filename.startswith(seams.LIB_ROOT):
            hits.add((code.co_filename, line))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    seams.install()
    seams.import_library()
    prop = runner.load_property(pid)
    os.environ['DST_SCRATCH'] = tempfile.mkdtemp(prefix='dst-')
    if hasattr(prop, 'prepare'):
        prop.prepare()
    for i in range(n):
        plan = runner.make_plan(prop, 5, i)
        if plan.get('fresh') and pid != 'C02':
            r, x = os.pipe()
            p = os.fork()
            if p == 0:
                try:
                    runner.execute(prop, plan)
                    with os.fdopen(x, 'w') as f:
                        json.dump(sorted(hits), f)
                finally:
                    os._exit(0)
            os.close(x)
            with os.fdopen(r) as f:
                t = f.read()
            os.waitpid(p, 0)
            if t:
                hits.update(map(tuple, json.loads(t)))
        else:
            runner.execute(prop, plan)
    import shutil
    shutil.rmtree(os.environ['DST_SCRATCH'])
    with os.fdopen(w, 'w') as f:
        json.dump(sorted(hits), f)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    pids = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/dst/props')
                  if f[0] == 'c' and f.endswith('.py'))
    allhits = {}
    for pid in pids:
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            try:
                body(pid, 120 if pid in ('C01', 'C02') else n, w)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            t = f.read()
        os.waitpid(p, 0)
        if not t:
            print(pid, 'gave nothing')
            continue
        for fn, l in json.loads(t):
            allhits.setdefault(fn, set()).add(l)
    root = seams.LIB_ROOT
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            code = compile(open(p).read(), p, 'exec')
            want = set()
            for c in code.co_consts:
                if hasattr(c, 'co_lines'):
                    sub = set()
                    lines_of(c, sub)
                    sub.discard(c.co_firstlineno)
                    want |= sub
            miss = sorted(want - allhits.get(p, set()))
            src = open(p).read().splitlines()
            miss = [l for l in miss if src[l - 1].strip() and
                    not src[l - 1].strip().startswith(('def ', '@', 'class ', '"""'))]
            if miss:
                print(f'{os.path.relpath(p, root)}: {len(miss)}/{len(want)}')
                for l in miss:
                    print(f'   {l}: {src[l - 1].strip()[:100]}')


main()
