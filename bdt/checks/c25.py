import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.common import classes_of, close, same_posterior, split_scores
from bdt.core import Check, Part, require


def orthogonal(kind, d, rs):
    """-> matrix, whether multiplying by it is exact"""
    if kind == 'keep':
        return np.eye(d), True
    if kind == 'axes':
        return np.eye(d)[rs.permutation(d)] * rs.choice([-1.0, 1.0], d)[:, None], True
    if kind == 'plane' and d > 1:
        i, j = rs.permutation(d)[:2]
        t = rs.uniform(0, 2 * np.pi)
        Q = np.eye(d)
        Q[i, i] = Q[j, j] = np.cos(t)
        Q[i, j], Q[j, i] = np.sin(t), -np.sin(t)
        return Q, False
    return np.linalg.qr(rs.normal(size=(d, d)))[0], False


def distinct(X, sp, dirs=None):
    """Whether differences between points can be told from rounding: along the given directions, or (None) in every coordinate."""
    P = X if dirs is None else X @ dirs.T
    P = np.sort(P, axis=0)
    scale = np.abs(X).max() + 1e-300
    # pairs that are not adjacent here may become adjacent further down the tree
    D = np.abs(P[:, None, :] - P[None, :, :])
    return not np.any((D > 1e-13 * scale) & (D < 1e-7 * scale)) and not (sp > 0 and np.any(np.abs(D - sp) < 1e-7 * (scale + sp)))


def run(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    n, d = X.shape
    rs = np.random.RandomState(c['s'])
    o = par['opt']
    free = o['o'] == 'list'
    Q, exact = orthogonal(c['rot'] if free else 'keep', d, rs)
    rows = rs.permutation(n) if c['rows'] and o['o'] != '2p' else np.arange(n)
    s = c['scale']
    t = np.array([c['shift'][j % len(c['shift'])] for j in range(d)], dtype=float) * (np.abs(X).max() + 1)
    if not 1e-7 < s < 1e7:
        t *= s
    Z = s * (X @ Q.T) + t
    par2 = dict(par, sp=s * par['sp'])
    opt2 = None
    if free:
        D = np.array([[v[i % len(v)] for i in range(d)] for v in o['dirs']], dtype=float)
        D[~np.any(D != 0, axis=1), 0] = 1.0
        opt2 = sut.ListOptimizer((D @ Q.T).tolist())
        U = D / np.linalg.norm(D, axis=1)[:, None]
        if not distinct(X, par['sp'], U) or not distinct(Z, par2['sp'], U @ Q.T):
            rec.skip('points within rounding of each other')
            return
        opt1 = sut.ListOptimizer(D.tolist())
    else:
        opt1 = sut.make_optimizer(o)
        opt2 = sut.make_optimizer(o)
    m1 = sut.make_model(task, {k: v for k, v in par.items() if k != 'opt'}, optimizer=opt1).fit(sut.represent(X, c['rep']), y.copy())
    m2 = sut.make_model(task, {k: v for k, v in par2.items() if k != 'opt'}, optimizer=opt2).fit(sut.represent(Z[rows], c['rep2']), y[rows].copy())
    a, b = sut.view(m1, task), sut.view(m2, task)
    if sut.assign_train(a, X).any() or sut.assign_train(b, Z[rows]).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    k = classes_of(c, y)
    state = {'ties': 0, 'splits': 0, 'tol': 0.0, 'gain': 0.0, 'same': True}

    def scores(x, z):
        """Node x split like z, on the original data."""
        return split_scores(z, X, y, task, sut.node_prior(x, task, k), par['pp'], par['sp'])

    class Alike:
        """Split z of the transformed tree as a split of the original data."""
        def __init__(self, x, z):
            self.dim, self.level, self.train = None, x.level, x.train
            self.normal = z.normal @ Q
            self.origin = ((z.origin - t) / s) @ Q
            self.c1, self.c2 = Half(rows[z.c1.train]), Half(rows[z.c2.train])

    class Half:
        def __init__(self, train):
            self.train = train

    def distance(x):
        v = (X[x.train] - x.origin) @ x.normal
        return float(np.abs(v).sum())

    def compare(x, z, where):
        rec.count()
        require(x.n == z.n and x.level == z.level, '{}: {} points at level {} become {} at level {}', where, x.n, x.level, z.n, z.level)
        require(same_posterior(task, x.posterior, z.posterior, sut.node_prior(x, task, k), y[x.train]), '{}: posterior {} becomes {}', where, x.posterior.tolist(), z.posterior.tolist())
        if x.leaf and z.leaf:
            return
        w = None if z.leaf else Alike(x, z)
        p, q = None if x.leaf else scores(x, x), None if z.leaf else scores(x, w)
        r = p or q
        if r is None or (not x.leaf and p is None) or (not z.leaf and q is None):
            rec.skip('hyperplane gaps within rounding')
            state['ties'] += 1
            return
        tol = 2 * (r[2] + (p[3] if p else 0) + (q[3] if q else 0))
        state['tol'] += tol
        if x.leaf or z.leaf:
            require(abs(r[0] - r[1]) <= tol, '{}: a {} becomes a {} although splitting scores {} and not splitting {}', where, *(('leaf', 'split') if x.leaf else ('split', 'leaf')), r[1], r[0])
            state['ties'] += 1
            return
        state['splits'] += 1
        require(abs(x.lns - z.lns) <= tol and abs(x.lsp - z.lsp) <= tol, '{}: log posteriors {}, {} become {}, {}', where, x.lns, x.lsp, z.lns, z.lsp)
        scale = np.abs(X).max() + np.abs(t).max() / abs(s) + 1e-300
        same = close(x.normal, w.normal, 1e-7, 1e-7) and set(x.c1.train) == set(w.c1.train) and close(x.origin, w.origin, 1e-6, 1e-6 * scale)
        if not same:
            require(abs(p[1] - q[1]) <= tol, '{}: the split with log posterior {} becomes one with {}', where, p[1], q[1])
            if task[1] == 'C' and (d > 1 or Q[0, 0] > 0):  # (a single feature is always scanned upwards) equal scores are computed equally, so the larger distance of all points decides
                e, f = distance(x), distance(w)
                require(abs(e - f) <= 1e-7 * (e + f + scale), '{}: the split with total distance {} becomes an equally good one with {}', where, e, f)
            state['ties'] += 1
            return
        state['gain'] += x.lsp - x.lns
        compare(x.c1, z.c1, where + '.1')
        compare(x.c2, z.c2, where + '.2')

    compare(a, b, 'root')
    rec.label(task, o['o'], c['rot'] if free else 'keep', 'rows' if c['rows'] else 'rows kept', 'scaled' if s != 1 else 'not scaled', 'shifted' if np.any(t) else 'not shifted',
              'ties' if state['ties'] else 'no ties', 'splits={}'.format(min(5, state['splits'])), 'sparse' if c['rep2'][:2] == 'cs' else 'dense')
    rec.nontriv(state['splits'] > 0)
    if state['ties']:
        return
    W = gen.query_rows(a, X, c['s'])
    V = s * (W @ Q.T) + t
    _, amb1 = sut.leaf_of(a, W)
    _, amb2 = sut.leaf_of(b, V)
    ok = ~(amb1 | amb2)
    for x in a.nodes():
        if not x.leaf:
            ok &= np.abs((W - x.origin) @ x.normal) > 1e-6 * (np.abs(W).max() + np.abs(X).max() + np.abs(t).max() / s)
    yt = 1e-9 * (1 + np.abs(y).max()) if task[1] == 'R' else 0.0
    if ok.any():
        p, q = sut.checked_predict(m1, W[ok], ok.sum()), sut.checked_predict(m2, V[ok], ok.sum())
        require(close(p, q, 1e-9, yt), 'rows are predicted differently: {} and {}', p.tolist(), q.tolist())
    if exact and not a.leaf and state['gain'] > 0:
        f1, f2 = np.asarray(m1.feature_importance()), np.asarray(m2.feature_importance())
        f1 = np.abs(Q) @ f1
        require(f1.shape == f2.shape and np.all(np.abs(f1 - f2) <= 1e-6 + 4 * state['tol'] / state['gain']), 'feature importances {} become {}', f1.tolist(), f2.tolist())


EXTRA = {'s': st.integers(0, 9999), 'rows': st.booleans(), 'rot': st.sampled_from(['keep', 'axes', 'axes', 'plane', 'any']),
         'scale': st.sampled_from([1.0, 1.0, 2.0, 0.25, 1024.0, 3.0, 1e-6, 1e6, 1e-12, 2.0 ** -60, 1e-25, 1e20, 1e-90, 1e90]), 'shift': st.sampled_from([[0.0], [0.0], [1.0], [0.5, -3.0], [40.0, 0.0, 7.0]]),
         'rep2': st.sampled_from(['C', 'C', 'F', 'csr', 'csc'])}
KW = dict(reps=['C', 'C', 'csr', 'csc'], extra=EXTRA, scales=False)
ROWS = dict(nmin=3, nmax=16, dmin=1, dmax=4, kinds=['grid', 'dyadic', 'int', 'const', 'binary', 'sparse'])
REC = dict(nmax=60, dmin=2, dmax=5, kinds=['normal', 'grid', 'binary', 'uniform', 'ints', 'dup', 'sparse'])
CHECK = Check(
    'C25',
    'Hyperplane models fitted on drawn data and on the same data with rows shuffled, rotated, reflected, scaled and shifted, the candidate directions '
    'and the split precision transformed alike (rotations: drawn lists of directions; scaling, shifting and shuffling also with the random and '
    'quasi-random searches); the trees are compared node by node, then predictions and importances; where they differ an independent scorer '
    'must find an exact tie in score and, for classification, in total distance. Non-trivial: at least one split was compared.',
    [Part('small', gen.case(('HC', 'HC', 'HR'), recipe_share=0, rows_kw=ROWS, opt_kinds=('list', 'list', 'list', 'rh', 'quasi', '2p'), **KW), run, 2600),
     Part('medium', gen.case(('HC', 'HR'), recipe_share=1, recipe_kw=REC, opt_kinds=('list', 'list', 'rh', 'quasi'), **KW), run, 700)],
    ['Data whose points come within rounding of each other along a candidate direction are left out.'])
