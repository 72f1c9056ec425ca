"""Process set-up shared by every check: import paths, hypothesis, CLA stand-in.

* the code under test is imported from /repo (read-only, no .pyc written);
* hypothesis lives in the python3-vt venv whose numpy (2.x) must NOT shadow the
  numpy 1.26 of /opt/venv that BELLA needs, so a path finder exposes only
  hypothesis and its pure dependencies;
* src/CLA is not part of the repository (build.sh tolerates it missing), so an
  independent implementation of classical lamination theory stands in for it.
"""
import importlib.machinery
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_ALLOWED = {'hypothesis', 'sortedcontainers', 'attr', 'attrs',
            '_hypothesis_globals', '_hypothesis_ftz_detector'}


class _VTFinder:
    """Resolves only hypothesis and its dependencies from the tooling venv."""

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and name.split('.')[0] in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [_VT])
        return None

    @classmethod
    def find_distributions(cls, *args, **kwargs):
        return iter(())


def setup():
    """idempotent process set-up"""
    if getattr(sys, '_bella_pbt_setup', False):
        return
    sys._bella_pbt_setup = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.meta_path.append(_VTFinder)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    if not os.path.isdir(os.path.join(REPO, 'src', 'CLA')):
        from pbt import cla_stub
        cla_stub.install()
