"""Process set-up: environment, import path of the code under test, and Hypothesis.

The library under test needs /opt/venv's interpreter (numpy, scipy, sklearn, matplotlib); Hypothesis
lives in another environment of the same Python version.  A finder restricted to Hypothesis' own
top-level names makes it importable without exposing that environment's numpy.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import tempfile
import warnings
import zipfile
import glob
import atexit
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'
_NAMES = ('hypothesis', '_hypothesis_', 'sortedcontainers', 'attr', 'attrs')


class _LimitedFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if path is not None:
            return None
        if fullname in _NAMES or fullname.startswith('_hypothesis_'):
            return importlib.machinery.PathFinder.find_spec(fullname, [self.path])
        return None


def _make_hypothesis_importable():
    if importlib.util.find_spec('hypothesis') is not None:
        return
    if os.path.isdir(os.path.join(_VT_SITE, 'hypothesis')):
        sys.meta_path.append(_LimitedFinder(_VT_SITE))
        try:
            import hypothesis  # noqa: F401
            return
        except Exception:
            sys.meta_path.pop()
    tmp = tempfile.mkdtemp(prefix='verif_hyp_')
    atexit.register(shutil.rmtree, tmp, True)
    for pat in ('hypothesis-*.whl', 'sortedcontainers-*.whl', 'attrs-*.whl'):
        for whl in sorted(glob.glob(os.path.join(_WHEELS, pat))):
            with zipfile.ZipFile(whl) as z:
                z.extractall(tmp)
    sys.path.append(tmp)


def setup():
    tmp = tempfile.mkdtemp(prefix='verif_run_')
    pid = os.getpid()

    def cleanup():
        if os.getpid() == pid:
            shutil.rmtree(tmp, True)
    atexit.register(cleanup)
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['MPLCONFIGDIR'] = tmp
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(tmp, 'hyp')
    os.environ['HOME'] = tmp
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    _make_hypothesis_importable()
    sys.path.insert(0, REPO)
    os.chdir(tmp)
    import CommDspy
    where = os.path.realpath(os.path.dirname(CommDspy.__file__))
    want = os.path.realpath(os.path.join(REPO, 'CommDspy'))
    if where != want:
        raise RuntimeError(f'CommDspy imported from {where}, expected {want}')
    import numpy as np
    np.seterr(all='ignore')
    return tmp
