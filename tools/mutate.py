"""Mutation run over the library (development tool): reports mutants that no listed check notices.
usage: mutate.py FILE[,FILE..] C01,C02 [--sample N]   ->  survivors on stdout"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr, ast.BitAnd: ast.BitOr, ast.LShift: ast.RShift, ast.MatMult: ast.Mult}
FN = {'floor': 'ceil', 'ceil': 'floor', 'argmin': 'argmax', 'argmax': 'argmin', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sum': 'mean', 'mean': 'sum', 'zeros': 'ones', 'ones': 'zeros', 'fliplr': 'flipud',
      'hstack': 'vstack', 'vstack': 'hstack', 'cos': 'sin', 'sin': 'cos', 'keys': 'values', 'round': 'floor', 'zeros_like': 'ones_like'}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
            out.add(id(n.body[0]))
    return out


def mutants(src):
    tree = ast.parse(src)
    main = [n for n in tree.body if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test)]
    for n in main:
        tree.body.remove(n)
    skip = docstrings(tree)
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for ch in ast.iter_child_nodes(n):
            parents[id(ch)] = n
    infn = set()
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            infn |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and ast.unparse(n.func) == 'print':
            skip |= {id(x) for x in ast.walk(n)}
    for k, n in enumerate(nodes):
        if id(n) in skip or id(n) not in infn:
            continue
        line = getattr(n, 'lineno', 0)

        def out(desc, fn):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            r = fn(m, t)
            ast.fix_missing_locations(t)
            return (line, desc, ast.unparse(t))
        if isinstance(n, ast.Compare):
            for q, op in enumerate(n.ops):
                if type(op) in CMP:
                    def f(m, t, q=q, op=op):
                        m.ops[q] = CMP[type(op)]()
                    yield out(f'cmp {ast.unparse(n)}', f)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def f(m, t, op=n.op):
                m.op = BIN[type(op)]()
            yield out(f'bin {ast.unparse(n)}', f)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            def f(m, t, op=n.op):
                m.op = BIN[type(op)]()
            yield out(f'aug {ast.unparse(n)}', f)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            vals = [not n.value] if isinstance(n.value, bool) else ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 1.05 + (n.value == 0) * 0.1])
            for v in vals:
                def f(m, t, v=v):
                    m.value = v
                yield out(f'const {n.value}->{v} in {ast.unparse(parents[id(n)])[:70]}', f)
        if isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                def f(m, t, v=v):
                    m.test = ast.Constant(v)
                yield out(f'if {v}: {ast.unparse(n.test)}', f)
        if isinstance(n, ast.BoolOp):
            def f(m, t):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield out(f'bool {ast.unparse(n)}', f)
        if isinstance(n, ast.Slice):
            for a in ('lower', 'upper', 'step'):
                if getattr(n, a) is not None:
                    def f(m, t, a=a):
                        setattr(m, a, None)
                    yield out(f'slice -{a} {ast.unparse(parents[id(n)])[:70]}', f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def f(m, t):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.UAdd()
            if isinstance(n.op, ast.USub):
                yield out(f'neg {ast.unparse(n)}', f)
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else '')
            if nm in FN:
                def f(m, t, nm=nm):
                    if isinstance(m.func, ast.Attribute):
                        m.func.attr = FN[nm]
                    else:
                        m.func.id = FN[nm]
                yield out(f'fn {ast.unparse(n)[:70]}', f)
            for q in range(len(n.keywords)):
                def f(m, t, q=q):
                    del m.keywords[q]
                yield out(f'kw -{n.keywords[q].arg} {ast.unparse(n)[:70]}', f)
            if nm in ('copy', 'astype') and isinstance(n.func, ast.Attribute):
                def f(m, t):
                    m.func, m.args, m.keywords = ast.Name('_id', ast.Load()), [m.func.value], []
                    t.body.append(ast.parse('def _id(x):\n    return x').body[0])
                yield out(f'drop {nm} {ast.unparse(n)[:70]}', f)
            if nm in ('abs', 'flip', 'sort', 'squeeze', 'conj', 'sqrt', 'reshape') and n.args:
                def f(m, t):
                    m.func, m.args, m.keywords = ast.Name('_id', ast.Load()), [m.args[0]], []
                    t.body.append(ast.parse('def _id(x):\n    return x').body[0])
                yield out(f'drop {nm} {ast.unparse(n)[:70]}', f)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue)):
            def f(m, t):
                p = None
                for x in ast.walk(t):
                    for fld in ('body', 'orelse'):
                        b = getattr(x, fld, None)
                        if isinstance(b, list) and m in b:
                            b[b.index(m)] = ast.Pass()
                            return
            yield out(f'del {ast.unparse(n)[:80]}', f)


def run(job):
    i, rel, line, desc, src, props = job
    w = f'/tmp/mut/{os.getpid()}_{i}'
    shutil.rmtree(w, True)
    os.makedirs(w)
    try:
        subprocess.run(f'cp -r {BASE}/. {w}', shell=True)
        open(f'{w}/{rel}', 'w').write(src)
        for p in props:
            env = dict(os.environ, VERIF_REPO=w, VERIF_WORKERS='1', VERIF_NOWRITE='1')
            try:
                r = subprocess.run([f'{HERE}/check', p], env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return (rel, line, desc, f'timeout {p}')
            if r.returncode == 1:
                return None
            if r.returncode != 0:
                return (rel, line, desc, f'EXIT {r.returncode} {p} {r.stderr.strip()[-100:]!r}')
        return (rel, line, desc, 'SURVIVED')
    finally:
        shutil.rmtree(w, True)


def main():
    global BASE
    files, props = sys.argv[1].split(','), sys.argv[2].split(',')
    sample = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    BASE = f'/tmp/mut/base_{os.getpid()}'
    os.makedirs(BASE, exist_ok=True)
    subprocess.run(f'git -C /repo archive --format=tar HEAD | tar x -C {BASE}', shell=True)
    jobs = []
    for rel in files:
        seen = set()
        for line, desc, s in mutants(open(f'{BASE}/{rel}').read()):
            if s not in seen:
                seen.add(s)
                jobs.append((len(jobs), rel, line, desc, s, props))
    if sample and len(jobs) > sample:
        jobs = random.Random(1).sample(jobs, sample)
    print(len(jobs), 'mutants of', files, flush=True)
    k = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, jobs):
            if r:
                k += 1
                print(f'{r[0]}:{r[1]} {r[2]} -> {r[3]}', flush=True)
    print('unnoticed', k, 'of', len(jobs), flush=True)
    shutil.rmtree(BASE, True)


main()
