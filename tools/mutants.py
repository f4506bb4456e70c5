#!/usr/bin/env python3
"""Small source mutations, to find what the checks miss.

usage: mutants.py gen OUT.json FILE...        enumerate mutants of library files
       mutants.py tests IN.json OUT.json [N]  keep those the tests accept
       mutants.py run IN.json OUT.jsonl [N]   tests, then checks, on each
       mutants.py show OUT.jsonl              survivors

Everything runs in scratch copies of /repo; nothing here is used by a check."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
import tempfile
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = os.environ.get('MUT_SRC', '/repo')
SCALE = os.environ.get('MUT_SCALE', '0.15')
DESELECT = ['tests/test_is_modified.py::TestIsModified::'
            'test_jobject_is_modified_is_readonly',
            'tests/test_is_new.py::TestIsNew::test_jobject_is_new_is_readonly']
ALL = ['C05', 'C07', 'C03', 'C14', 'C16', 'C13', 'C17', 'C04', 'C06', 'C18',
       'C12', 'C19', 'C08', 'C15', 'C02', 'C09', 'C10', 'C11', 'C01']
MAP = {
    'uconf.py': ['C10', 'C09'], 'uploaders.py': ['C09'],
    'pkgutils.py': ['C11'], 'singleton.py': ['C10'],
    'cgraph.py': ['C02', 'C01'], 'jsonenum.py': ['C02'],
    'jsonclass.py': ['C02', 'C01', 'C03'],
    'olist.py': ['C05', 'C06', 'C07', 'C04'],
    'odict.py': ['C05', 'C06'], 'outils.py': ['C05', 'C06', 'C07'],
    'keypath.py': ['C14', 'C05', 'C16', 'C10', 'C07'],
    'ograph.py': ['C07', 'C17', 'C04'],
    'mgraph.py': ['C13', 'C03', 'C16', 'C14'],
    'excs.py': ['C02', 'C03'],
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>'}


class Src:
    def __init__(self, text):
        self.text = text
        self.off = [0]
        for line in text.encode().splitlines(True):
            self.off.append(self.off[-1] + len(line))
        self.b = text.encode()

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


def mutants(text):
    s = Src(text)
    tree = ast.parse(text)
    out = []

    def rep(n, new, what):
        a, b = s.span(n)
        out.append((n.lineno, a, b, new, what))

    skip = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip.update(ast.walk(a))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.dump(n.test):
            skip.update(ast.walk(n))
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            body = n.body if isinstance(n.body, list) else [n.body]
            for x in body:
                infunc.update(ast.walk(x))
    for n in ast.walk(tree):
        if n in skip or n not in infunc:
            continue
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, f'(not ({s.get(n.test)}))', 'negate')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'true')
                rep(n.test, 'False', 'false')
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [s.get(v) for j, v in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + op.join(f'({r})' for r in rest) + ')',
                    f'drop operand {i}')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                rep(n, f'({s.get(n.left)} {o} {s.get(n.comparators[0])})',
                    'compare')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f'({s.get(n.operand)})', 'drop not')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass', 'delete call')
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or \
                    isinstance(n, ast.AugAssign):
                rep(n, 'pass', 'delete assign')
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant)):
            rep(n, 'return None', 'return none')
        if isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            rep(n, 'pass', 'delete ' + type(n).__name__.lower())
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), 'flip')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            rep(n, str(n.value + 1), 'plus one')
        if isinstance(n, ast.With):
            a = s.off[n.lineno - 1] + n.col_offset
            last = n.items[-1].context_expr
            b = s.span(last)[1]
            if n.items[-1].optional_vars is None:
                out.append((n.lineno, a, b, 'if True', 'drop with'))
        if isinstance(n, ast.Call) and n.keywords:
            for kw in n.keywords:
                if kw.arg and kw.arg in ('original', 'mgraph', 'idchain',
                                         'owner', 'parent'):
                    rep(kw.value, 'None', f'arg {kw.arg} none')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('list', 'dict', 'set', 'deepcopy', 'copy',
                              'reversed', 'sorted') and len(n.args) == 1:
            rep(n, f'({s.get(n.args[0])})', f'drop {n.func.id}()')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('copy', 'lower', 'strip', 'nextvo', 'nextv',
                                'nextvc') and not n.keywords:
            rep(n, f'({s.get(n.func.value)})', f'drop .{n.func.attr}()')
    seen = set()
    res = []
    for line, a, b, new, what in sorted(out):
        m = s.b[:a] + new.encode() + s.b[b:]
        if m in seen or m == s.b:
            continue
        seen.add(m)
        try:
            ast.parse(m.decode())
        except SyntaxError:
            continue
        res.append({'line': line, 'a': a, 'b': b, 'new': new, 'what': what,
                    'old': s.b[a:b].decode()[:120]})
    return res


def leaks(text):
    """Local variables made attributes of self (or globals): correct for one
    thread at a time (when not recursive), wrong for several."""
    tree = ast.parse(text)
    s = Src(text)
    res = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        inner = [x for x in ast.walk(fn) if x is not fn and
                 isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                                ast.SetComp, ast.DictComp,
                                ast.GeneratorExp))]
        nested = {n.id for i in inner for n in ast.walk(i)
                  if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        names = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                names.setdefault(n.id, []).append(n)
        has_self = bool(fn.args.args) and fn.args.args[0].arg == 'self'
        for v, uses in names.items():
            if v in args or v in nested or v == '_':
                continue
            if not any(isinstance(u.ctx, ast.Store) for u in uses) or \
                    not any(isinstance(u.ctx, ast.Load) for u in uses):
                continue
            body_from = fn.body[0]
            a, b = s.span(fn)
            b = s.off[fn.end_lineno - 1] + fn.end_col_offset
            seg = s.b[a:b]
            edits = sorted([(s.span(u)[0] - a, s.span(u)[1] - a)
                            for u in uses], reverse=True)
            new = f'_LEAK[{v!r}]'
            out = seg
            for x, y in edits:
                out = out[:x] + new.encode() + out[y:]
            m = s.b[:a] + out + s.b[b:]
            m = m.replace(b'from __future__ import annotations\n',
                          b'from __future__ import annotations\n_LEAK = {}\n',
                          1)
            if b'_LEAK = {}' not in m:
                continue
            try:
                ast.parse(m.decode())
            except SyntaxError:
                continue
            res.append({'line': fn.lineno, 'a': 0, 'b': len(s.b),
                        'new': m.decode(), 'what': f'leak {fn.name}.{v}',
                        'old': ''})
    return res


def gen(out, files, make=None):
    allm = []
    for f in files:
        text = open(os.path.join(SRC, 'jsonclasses', f)).read()
        for m in (make or mutants)(text):
            m['file'] = f
            allm.append(m)
    random.Random(1).shuffle(allm)
    json.dump(allm, open(out, 'w'))
    print(len(allm), 'mutants')


def one(m, tree, checks=True):
    p = os.path.join(tree, 'jsonclasses', m['file'])
    orig = open(os.path.join(SRC, 'jsonclasses', m['file']), 'rb').read()
    open(p, 'wb').write(orig[:m['a']] + m['new'].encode() + orig[m['b']:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               TZ='UTC', PYTHONPATH=tree + ':' + tree + '/tests',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    try:
        try:
            if os.environ.get('MUT_TESTED'):    # by `tests` before
                raise StopIteration
            r = subprocess.run(
                [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                 'tests'] + [x for d in DESELECT for x in ('--deselect', d)],
                cwd=tree, env=env, stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL, timeout=120)
            if r.returncode != 0:
                return 'tests'
        except subprocess.TimeoutExpired:
            return 'tests'
        except StopIteration:
            pass
        if not checks:
            return 'survived'
        base = os.path.basename(m['file'])
        order = ['C01'] if m['what'].startswith('leak') else \
            [c for c in MAP.get(base, ALL)
             if c not in os.environ.get('MUT_SKIP', '')]
        for c in order:
            env2 = dict(os.environ, DST_REPO=tree, DST_WORKERS='1',
                        DST_SCALE=SCALE, VERIF_SEED='7',
                        DST_NOMIN='1')
            try:
                r = subprocess.run(
                    ['./check.sh', c, 'quick'], cwd=tree[:tree.rindex('t')] + 'v' + tree[-1], env=env2, text=True,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=600)
            except subprocess.TimeoutExpired:
                return 'timeout ' + c
            if r.returncode == 1:
                return 'caught ' + c
            if r.returncode != 0:
                return f'error {c}: ' + r.stdout[-300:]
        return 'MISSED'
    finally:
        open(p, 'wb').write(orig)


def run(inp, out, limit=None, checks=True):
    ms = json.load(open(inp))
    done = set()
    key = lambda m: (m['file'], m['a'], m['b'], m['new'])
    if os.path.exists(out):
        for l in open(out):
            done.add(key(json.loads(l)))
    ms = [m for m in ms if key(m) not in done][:limit]
    base = tempfile.mkdtemp(prefix='mutants-')
    trees = []
    for i in range(8):
        t = f'{base}/t{i}'
        os.makedirs(f'{base}/v{i}')
        for x in ('dst', 'check.sh', 'known_findings.json'):
            subprocess.run(['cp', '-a', os.path.join(VERIF, x),
                            f'{base}/v{i}/'], check=True)
        shutil.copytree(SRC, t, ignore=shutil.ignore_patterns('.git'))
        trees.append(t)
    fh = open(out, 'a')

    def job(m):
        t = trees.pop()
        try:
            m['result'] = one(m, t, checks)
        except Exception as e:  # noqa: BLE001
            m['result'] = f'error {e!r}'
        finally:
            trees.append(t)
        fh.write(json.dumps(m) + '\n')
        fh.flush()
    try:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(job, ms))
    finally:
        shutil.rmtree(base)


def show(out):
    c = {}
    for l in open(out):
        m = json.loads(l)
        k = m['result'].split(':')[0]
        c[k] = c.get(k, 0) + 1
        if k != 'tests' and not k.startswith('caught'):
            print(f"{m['file']}:{m['line']} [{m['what']}] "
                  f"{m['old']!r} -> {m['new'][:90] if m['old'] else ''!r}  {m['result'][:200]}")
    print(c)


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'leaks':
        gen(a[2], a[3:], leaks)
    elif a[1] == 'gen':
        gen(a[2], a[3:])
    elif a[1] == 'tests':
        run(a[2], a[3] + '.l', int(a[4]) if len(a) > 4 else None, False)
        kept = [json.loads(x) for x in open(a[3] + '.l')]
        kept = [m for m in kept if m['result'] != 'tests']
        json.dump(kept, open(a[3], 'w'))
        print(len(kept), 'accepted by the tests')
    elif a[1] == 'run':
        run(a[2], a[3], int(a[4]) if len(a) > 4 else None)
    else:
        show(a[2])
