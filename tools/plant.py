"""Builds and confirms planted bugs (development tool; no check uses it).

A spec module defines BUGS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, demo)], demo being the body
of a Python program that exits non-zero when the property is broken.  For each: make a scratch copy of /repo, apply the
edits, confirm the demo (0 without, non-zero with) and the stable tests, write seeded/<id>/, run the property's check.
usage: plant.py SPEC.py [id ...]
"""
import threading
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository root; exit 0: the property holds, otherwise it is broken
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python -B -W ignore "$here/demo.py"
'''

TESTS = threading.Semaphore(2)


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout + r.stderr


def stable_tests(tree, work):
    want = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(PYTHONPATH=f'{tree}:/opt/vp/plugins', MPLBACKEND='Agg', MPLCONFIGDIR=f'{work}/mpl', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    rc, out = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -p fixed_seed --timeout=180 -o junit_family=xunit2 '
                 f'--deselect test/test_main.py::test_equalization --junitxml={work}/j.xml .', f'{tree}/test', env)
    bad = [c.get('classname') + '::' + c.get('name') for c in ET.parse(f'{work}/j.xml').getroot().iter('testcase')
           if any(x.tag in ('failure', 'error') for x in c)]
    n = len(list(ET.parse(f'{work}/j.xml').getroot().iter('testcase')))
    names = want.get('stable') or want.get('passed') or want
    txt = json.dumps(names)
    bad = [x for x in bad if x.split('::')[-1] in txt]
    return n, bad


def one(bug):
    bid = bug['id']
    work = f'/tmp/plant_{bid}'
    shutil.rmtree(work, True)
    os.makedirs(work)
    tree = f'{work}/repo'
    sh(f'git -C /repo archive --format=tar --prefix=repo/ HEAD | tar x -C {work}', '/')
    sh('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', tree)
    dst = os.path.join(HERE, 'seeded', bid)
    dd = f'{work}/demo'
    os.makedirs(dd)
    open(f'{dd}/demo.sh', 'w').write(DEMO_SH)
    open(f'{dd}/demo.py', 'w').write(bug['demo'].strip() + '\n')
    os.chmod(f'{dd}/demo.sh', 0o755)
    res = dict(id=bid, property=bug['property'])
    try:
        rc0, out0 = sh(f'{dd}/demo.sh', tree, timeout=280)
        if rc0:
            return dict(res, status='DEMO FAILS ON CLEAN', out=out0[-1500:])
        for f, old, new in bug['edits']:
            p = f'{tree}/{f}'
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return dict(res, status=f'EDIT MATCHES {s.count(old)} TIMES', out=old)
            open(p, 'w', newline='').write(s.replace(old, new))
        rc1, out1 = sh(f'{dd}/demo.sh', tree, timeout=280)
        if rc1 == 0:
            return dict(res, status='DEMO PASSES WITH BUG', out='')
        with TESTS:  # the suite takes 7.5 GB
            n, bad = stable_tests(tree, work)
        if bad:
            return dict(res, status='TESTS FAIL', out=str(bad))
        diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True).stdout
        rcc, outc = sh(f'{HERE}/check {bug["property"]}', HERE, dict(VERIF_REPO=tree, VERIF_WORKERS='4'))
        caught = rcc == 1 and f'VIOLATION property={bug["property"]}' in outc
        if not os.environ.get('PLANT_DRY'):
            shutil.rmtree(dst, True)
            os.makedirs(dst)
            open(f'{dst}/patch.diff', 'wb').write(diff)
            shutil.copy(f'{dd}/demo.sh', dst)
            shutil.copy(f'{dd}/demo.py', dst)
            json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(f'{dst}/meta.json', 'w'), indent=1)
        return dict(res, status='CAUGHT' if caught else f'MISSED rc={rcc}', out=outc[-600:] if not caught else outc.strip().splitlines()[0][:200])
    finally:
        shutil.rmtree(work, True)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    bugs = [b for b in m.BUGS if not want or b['id'] in want]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, bugs):
            print(r['id'], r['property'], r['status'], '|', r['out'].strip(), flush=True)


main()
