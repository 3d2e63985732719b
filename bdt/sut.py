"""Construction of models from JSON-able settings and a validated, plain view of fitted trees."""
import contextlib
import io

import numpy as np
import pandas as pd
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
from scipy.sparse import csc_matrix, csr_matrix, coo_matrix

from bayesian_decision_tree.classification import HyperplaneClassificationTree, PerpendicularClassificationTree
from bayesian_decision_tree.regression import HyperplaneRegressionTree, PerpendicularRegressionTree
from bayesian_decision_tree import hyperplane_optimization as HO

from bdt.core import Violation, require

TYPES = {'PC': PerpendicularClassificationTree, 'PR': PerpendicularRegressionTree,
         'HC': HyperplaneClassificationTree, 'HR': HyperplaneRegressionTree}


# ---------------------------------------------------------------- optimizers
class ListOptimizer(HO.HyperplaneOptimizer):
    """Tries the given directions (cut or cycled to the data's dimension) at every node and records everything."""

    def __init__(self, dirs, record=None):
        super().__init__(search_space_is_unit_hypercube=False)
        self.dirs = dirs
        self.record = record

    def solve(self, f):
        d = f.X.shape[1]
        out = []
        for v in self.dirs:
            v = np.array([v[i % len(v)] for i in range(d)], dtype=float)
            out.append((v.copy(), f.compute(v.copy())))
        if self.record is not None:
            self.record.append((dense(f.X).copy(), np.array(f.y, copy=True), out))


def make_optimizer(o, record=None):
    if o is None:
        return None
    k = o['o']
    if k == 'list':
        return ListOptimizer(o['dirs'], record)
    if k == 'quasi':
        return HO.QuasiRandomHyperplaneOptimizer(o['n'])
    if k == 'rh':
        return HO.RandomHyperplaneOptimizer(o['n'], o['seed'])
    if k == '2p':
        return HO.RandomTwoPointOptimizer(o['n'], o['seed'])
    if k == 'sa':
        return HO.SimulatedAnnealingOptimizer(o['n_scan'], o['n_keep'], o['spread'], o['seed'])
    if k == 'gd':
        return HO.GradientDescentOptimizer(o['n_init'], o['n_keep'])
    if k == 'de':
        return HO.ScipyOptimizer(DifferentialEvolutionSolver, o['seed'], **o.get('kw', {}))
    if k == 'optuna':
        return HO.OptunaOptimizer(o['n'], o['seed'])
    raise ValueError(k)


PRIOR_CONTAINERS = {'list': list, 'tuple': tuple, 'array': lambda p: np.array(p, dtype=float), 'array_auto': np.array}


def make_prior(par):
    p = par.get('prior')
    return None if p is None else PRIOR_CONTAINERS[par.get('ptype', 'list')](p)


def make_model(task, par, record=None, **over):
    kw = {}
    for name, key in (('partition_prior', 'pp'), ('delta', 'delta'), ('prune', 'prune'), ('split_precision', 'sp')):
        if key in par:
            kw[name] = par[key]
    if 'prior' in par:
        kw['prior'] = make_prior(par)
    if task[0] == 'H' and 'opt' in par:
        kw['optimizer'] = make_optimizer(par['opt'], record)
    kw.update(over)
    return TYPES[task](**kw)


# ---------------------------------------------------------------- data representations
def dense(X):
    return X if isinstance(X, np.ndarray) else np.asarray(X.todense())


def unsorted_csr(X):
    """CSR with explicitly stored zeros and unsorted column indices (both legal)."""
    n, d = X.shape
    data, idx, ptr = [], [], [0]
    for i in range(n):
        cols = [j for j in range(d - 1, -1, -1) if X[i, j] != 0 or (i + j) % 3 == 0]
        data += [X[i, j] for j in cols]
        idx += cols
        ptr.append(len(idx))
    return csr_matrix((np.array(data, dtype=float), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=X.shape)


def duplicated_csr(X):
    """CSR in which many elements are stored as the sum of two entries (which is how SciPy reads them)."""
    n, d = X.shape
    data, idx, ptr = [], [], [0]
    for i in range(n):
        for j in range(d):
            v = float(X[i, j])
            half = v / 2
            if v != 0:
                data += [half, half] if half + half == v and (i + j) % 2 else [0.0, v] if (i + j) % 3 else [v, 0.0]
                idx += [j, j]
        ptr.append(len(idx))
    return csr_matrix((np.array(data, dtype=float), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=X.shape)


def strided(X):
    big = np.full((2 * X.shape[0], 3 * X.shape[1]), 7.25, dtype=X.dtype)
    big[::2, 1::3] = X
    return big[::2, 1::3]


def readonly(X):
    X = np.array(X, order='F')
    X.flags.writeable = False
    return X


def wide_indices(S):
    S.indices, S.indptr = S.indices.astype(np.int64), S.indptr.astype(np.int64)
    for a in (S.data, S.indices, S.indptr):
        a.flags.writeable = False
    return S


X_REPS = {
    'C': lambda X: np.ascontiguousarray(X).copy(),
    'F': lambda X: np.asfortranarray(X).copy(order='F'),
    'strided': strided,
    'reversed': lambda X: np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1],
    'bigendian': lambda X: np.ascontiguousarray(X).astype(X.dtype.newbyteorder('>')),
    'readonly': readonly,
    'csr64': lambda X: wide_indices(csr_matrix(X)),
    'csc64': lambda X: wide_indices(csc_matrix(X)),
    'list': lambda X: X.tolist(),
    'tuple': lambda X: tuple(tuple(r) for r in X.tolist()),
    'listoftuples': lambda X: [tuple(r) for r in X.tolist()],
    'listofarrays': lambda X: list(X),
    'object': lambda X: X.astype(object),
    'csr': csr_matrix,
    'csc': csc_matrix,
    'csr_raw': unsorted_csr,
    'csc_raw': lambda X: csc_matrix(unsorted_csr(X.T).T),
    'csr_dup': duplicated_csr,
    'csc_dup': lambda X: csc_matrix(duplicated_csr(X.T).T),
    'df': lambda X: pd.DataFrame(X, columns=['f%d' % j for j in range(X.shape[1])]),
    'df_index': lambda X: pd.DataFrame(X, columns=['c%d' % j for j in range(X.shape[1])], index=np.arange(len(X))[::-1] * 3 + 5),
    'df_object': lambda X: pd.DataFrame(X, columns=['o%d' % j for j in range(X.shape[1])]).astype(object),
}
SPARSE = ('csr', 'csc', 'csr_raw', 'csc_raw', 'csr64', 'csc64', 'csr_dup', 'csc_dup')


def represent(X, rep):
    return X_REPS[rep](X)


# ---------------------------------------------------------------- fitted trees
class Node:
    __slots__ = ('model', 'level', 'leaf', 'prior', 'posterior', 'n', 'dim', 'thr', 'name', 'normal', 'origin', 'lns', 'lsp', 'c1', 'c2', 'idx', 'train')

    def nodes(self):
        yield self
        if not self.leaf:
            yield from self.c1.nodes()
            yield from self.c2.nodes()

    def leaves(self):
        return [x for x in self.nodes() if x.leaf]

    def depth(self):
        return 0 if self.leaf else 1 + max(self.c1.depth(), self.c2.depth())


def get(m, name):
    try:
        return getattr(m, name)
    except AttributeError:
        raise Violation('fitted node lacks attribute {}'.format(name))


def numbers(v, what):
    try:
        a = np.array(v, dtype=float)
    except Exception:
        raise Violation('{} is not numeric: {!r}'.format(what, v))
    require(np.all(np.isfinite(a)), '{} is not finite: {!r}', what, v)
    return a


def view(m, task, level=0):
    """Plain view of a fitted model; raises Violation if it is not a well-formed binary tree."""
    x = Node()
    x.model, x.idx, x.train = m, None, None
    require(level < 5000, 'tree deeper than 5000')
    x.level = get(m, 'level')
    require(type(m) is TYPES[task], 'node of type {} in a {} tree', type(m).__name__, task)
    x.posterior = numbers(get(m, 'posterior_'), 'posterior_')
    require(x.posterior.ndim == 1 and len(x.posterior) > 0, 'posterior_ has shape {}', x.posterior.shape)
    p = get(m, 'prior')
    x.prior = None if p is None else numbers(p, 'prior')
    x.n = int(get(m, 'n_data_'))
    require(x.n == get(m, 'n_data_'), 'n_data_ is not an integer')
    x.leaf = bool(m.is_leaf())
    x.c1 = x.c2 = x.dim = x.thr = x.name = x.normal = x.origin = None
    c1, c2 = get(m, 'child1_'), get(m, 'child2_')
    x.lns, x.lsp = get(m, 'log_p_data_no_split_'), get(m, 'best_log_p_data_split_')
    if x.leaf:
        require(c1 is None and c2 is None, 'leaf has children')
        return x
    require(c1 is not None and c2 is not None and c1 is not c2, 'split node without two children')
    if task[0] == 'P':
        x.dim = int(get(m, 'split_dimension_'))
        x.thr = float(get(m, 'split_value_'))
        x.name = get(m, 'split_feature_name_')
        require(np.isfinite(x.thr), 'threshold {}', x.thr)
    else:
        x.normal = numbers(get(m, 'best_hyperplane_normal_'), 'hyperplane normal').reshape(-1)
        x.origin = numbers(get(m, 'best_hyperplane_origin_'), 'hyperplane origin').reshape(-1)
    x.c1, x.c2 = view(c1, task, level + 1), view(c2, task, level + 1)
    return x


def sides(node, X, tol=1e-9):
    """(left mask, ambiguous mask) of rows X at a split node, by this harness's own arithmetic."""
    if node.dim is not None:
        require(0 <= node.dim < X.shape[1], 'split dimension {} of {} features', node.dim, X.shape[1])
        return X[:, node.dim] < node.thr, np.zeros(len(X), bool)
    require(len(node.normal) == X.shape[1] == len(node.origin), 'hyperplane in {} dimensions for {} features', len(node.normal), X.shape[1])
    XL = X.astype(np.longdouble)
    v = ((XL - node.origin.astype(np.longdouble)) * node.normal.astype(np.longdouble)).sum(axis=1)
    scale = tol * (np.abs(X).max(initial=0) + np.abs(node.origin).max(initial=0) + 1e-300)
    return np.asarray(v < 0), np.asarray(np.abs(v) <= scale)


def assign(root, X):
    """Stores in every node the indices of the rows of X it holds; returns the mask of ambiguous rows (hyperplane rounding)."""
    amb = np.zeros(len(X), bool)

    def rec(node, idx):
        node.idx = idx
        if node.leaf:
            return
        left, a = sides(node, X[idx])
        amb[idx[a]] = True
        rec(node.c1, idx[left])
        rec(node.c2, idx[~left])

    rec(root, np.arange(len(X)))
    return amb


def assign_train(root, X):
    """Like assign() for the training rows, remembered as node.train."""
    amb = assign(root, X)
    for x in root.nodes():
        x.train = x.idx
    return amb


def leaf_of(root, X):
    """The leaf node of every row."""
    amb = assign(root, X)
    out = [None] * len(X)
    for l in root.leaves():
        for i in l.idx:
            out[i] = l
    return out, amb


def snap(root, priors=True):
    """Nested tuples with everything that makes up the tree, for exact comparison."""
    f = lambda a: None if a is None else tuple(np.asarray(a, dtype=float).reshape(-1).tolist())
    t = (root.level, root.leaf, root.n, f(root.posterior), f(root.prior) if priors else None,
         root.dim, root.thr, None if root.name is None else str(root.name), f(root.normal), f(root.origin),
         None if root.lns is None else float(root.lns), None if root.lsp is None else float(root.lsp))
    return t if root.leaf else t + (snap(root.c1, priors), snap(root.c2, priors))


def first_diff(a, b, path='root'):
    for i, name in enumerate(('level', 'leaf', 'n', 'posterior', 'prior', 'dimension', 'threshold', 'name', 'normal', 'origin', 'log p no split', 'log p split')):
        if a[i] != b[i]:
            return '{}: {} {} != {}'.format(path, name, a[i], b[i])
    if len(a) != len(b):
        return path + ': structure'
    if len(a) > 12:
        return first_diff(a[12], b[12], path + '.1') or first_diff(a[13], b[13], path + '.2')
    return None


def node_prior(node, task, k):
    """The prior a node works with: its own, or the default one of an unset root prior."""
    from bdt import ref
    if node.prior is not None:
        return [float(v) for v in node.prior]
    return ref.default_prior(task, node.n, k)


@contextlib.contextmanager
def silent():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def checked_predict(m, X, n):
    p = np.asarray(m.predict(X))
    require(p.shape == (n,), 'predict returned shape {} for {} rows', p.shape, n)
    return p


def checked_proba(m, X, n, k):
    p = np.asarray(m.predict_proba(X))
    require(p.shape == (n, k), 'predict_proba returned shape {} for {} rows and {} classes', p.shape, n, k)
    return p


def checked_raw(m, X, n, width):
    p = np.asarray(m._get_raw_leaf_data(X), dtype=float)
    require(p.shape == (n, 2, width) or len(p) == n == 0, '_get_raw_leaf_data returned shape {} for {} rows', p.shape, n)
    return p
