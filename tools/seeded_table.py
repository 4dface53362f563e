"""Runs every planted bug against its property's check (scratch copies) and rewrites the table in DESIGN.md (development tool)."""
import glob
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(d):
    bid = os.path.basename(d)
    m = json.load(open(f'{d}/meta.json'))
    w = f'/tmp/seedt_{bid}'
    sh(f'rm -rf {w}; mkdir -p {w}; git -C /repo archive --format=tar --prefix=repo/ HEAD | tar x -C {w}')
    r = sh(f'git init -q . && git apply {d}/patch.diff', cwd=f'{w}/repo')
    if r.returncode:
        sh(f'rm -rf {w}')
        return bid, m, 'patch does not apply', ''
    env = dict(os.environ, VERIF_REPO=f'{w}/repo', VERIF_WORKERS='4')
    r = sh(f'{HERE}/check {m["property"]}', cwd=HERE, env=env)
    sh(f'rm -rf {w}')
    ok = r.returncode == 1 and f'VIOLATION property={m["property"]} ' in r.stdout
    f = re.search(r'^\[C\d+/(\w+)\]', r.stdout, re.M)
    return bid, m, 'caught' if ok else f'MISSED (exit {r.returncode})', f.group(1) if f else ''


def main():
    want = sys.argv[1:]
    ds = [d for d in sorted(glob.glob(f'{HERE}/seeded/*')) if not want or os.path.basename(d) in want]
    rows = []
    with ThreadPoolExecutor(3) as ex:
        for bid, m, st, f in ex.map(one, ds):
            print(bid, m['property'], st, f, flush=True)
            rows.append((m['property'], bid, st, f, m['needs']))
    if want:
        return
    rows.sort()
    t = '| property | planted bug | result | facet | needs |\n|---|---|---|---|---|\n' + ''.join(f'| {a} | {b} | {c} | {d} | {e} |\n' for a, b, c, d, e in rows)
    p = f'{HERE}/DESIGN.md'
    s = open(p).read()
    a, b = '<!-- seeded:begin -->\n', '<!-- seeded:end -->'
    open(p, 'w').write(s[:s.index(a) + len(a)] + t + s[s.index(b):])


main()
