"""Process set-up: must be imported before numpy.  Makes Hypothesis importable and /repo the code under test."""
import os
import sys
import importlib.machinery

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'

REPO = os.path.realpath(os.environ.get('BDT_REPO', '/repo'))
PKG = os.path.join(REPO, 'bayesian_decision_tree')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True

_LIBS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class _Finder:
    """Resolves Hypothesis and its dependencies (only these) from the verification tools' environment."""
    names = {'hypothesis', 'sortedcontainers', 'attr', 'attrs'}

    def find_spec(self, name, path=None, target=None):
        if path is None and (name.split('.')[0] in self.names or name.startswith('_hypothesis')):
            return importlib.machinery.PathFinder.find_spec(name, [_LIBS])
        return None


sys.meta_path.append(_Finder())
sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
np.seterr(all='ignore')

import hypothesis  # noqa: E402,F401
import pandas  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401
import scipy.sparse  # noqa: E402,F401
import scipy.special  # noqa: E402,F401
import sklearn.base  # noqa: E402,F401

sys.pycache_prefix = '/nonexistent/bdt-no-cache'  # never read a stale .pyc: the source in /repo is what is checked
import bayesian_decision_tree  # noqa: E402
import bayesian_decision_tree.classification  # noqa: E402,F401
import bayesian_decision_tree.regression  # noqa: E402,F401
import bayesian_decision_tree.hyperplane_optimization  # noqa: E402,F401
import bayesian_decision_tree.utils  # noqa: E402,F401
sys.pycache_prefix = None

if os.path.realpath(os.path.dirname(bayesian_decision_tree.__file__)) != PKG:
    raise RuntimeError('testing the wrong package: ' + bayesian_decision_tree.__file__)
