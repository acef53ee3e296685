"""Puts /repo (the code under test) and Hypothesis on the import path.

The interpreter is the project's own (/opt/venv), so numpy, scipy,
uncertainties and dtk are the versions the project runs with.  Hypothesis is
not installed there; it is taken from the offline tool venv (or, failing that,
from the offline wheelhouse) without exposing anything else of that venv.
"""
import glob
import importlib.machinery
import os
import sys
import tempfile
import zipfile

REPO = os.environ.get('VERIF_REPO', '/repo')
_SP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_NAMES = ('hypothesis', 'sortedcontainers', '_hypothesis_globals',
          '_hypothesis_ftz_detector', 'attr', 'attrs')


class _OnlyHypothesis:
    def __init__(self, where):
        self.where = where

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in _NAMES or path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(name, [self.where])


def setup(scratch):
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    # matplotlib's font cache takes seconds to build; reuse one if present
    for cache in glob.glob('/opt/vp/mplconfig/fontlist*.json'):
        dst = os.path.join(os.environ['MPLCONFIGDIR'], os.path.basename(cache))
        if not os.path.exists(dst):
            with open(cache, 'rb') as f, open(dst, 'wb') as g:
                g.write(f.read())
    where = _SP
    if not os.path.isdir(os.path.join(_SP, 'hypothesis')):
        where = os.path.join(scratch, 'wheels')
        os.makedirs(where, exist_ok=True)
        for pat in ('hypothesis-*cp312*.whl', 'sortedcontainers-*.whl'):
            for whl in glob.glob('/opt/veriftools/wheels/' + pat):
                zipfile.ZipFile(whl).extractall(where)
    sys.meta_path.append(_OnlyHypothesis(where))
    import hypothesis  # noqa: F401
