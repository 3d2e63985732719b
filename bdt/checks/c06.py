import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.common import fitted, classes_of, effective_delta
from bdt.core import Check, Part, require


def run(c, rec):
    X, y, m, root = fitted(c, rec)
    task = c['task']
    Q = np.concatenate([gen.query_rows(root, X, c['q']), np.full((1, X.shape[1]), 1e300), np.full((1, X.shape[1]), -1e300)])
    if task[0] == 'H':
        Q = Q[:-2]
    n = len(Q)
    Qr = sut.represent(Q, c.get('qrep', 'C'))
    pred = sut.checked_predict(m, Qr, n)
    n_leaves = m.get_n_leaves()
    require(len(np.unique(pred)) <= n_leaves, '{} distinct predictions from {} leaves', len(np.unique(pred)), n_leaves)
    rec.count(n)
    if task[1] == 'C':
        k = classes_of(c, y)
        p = sut.checked_proba(m, Qr, n, k)
        require(np.all(np.isfinite(p)) and (k == 1 or (np.all(p > 0) and np.all(p < 1))), 'probabilities not strictly between 0 and 1: {}', p.tolist())
        require(np.all(np.abs(p.sum(axis=1) - 1) <= 1e-12), 'probabilities sum to {}', p.sum(axis=1).tolist())
        require(np.all((pred >= 0) & (pred < k) & (pred == np.floor(pred))), 'predicted classes {} of {}', sorted(set(pred.tolist())), k)
        best = p.argmax(axis=1)
        # (the posterior may tell classes apart whose probabilities are rounded to the same number)
        prior = np.asarray(c['par'].get('prior') or [1.0], dtype=float) * 1024
        exact = np.all(prior == np.round(prior)) and np.frexp(effective_delta(c['par']))[0] in (0, .5)
        slack = 0 if exact else 4 * np.finfo(float).eps
        differs = (best != pred) & (p[np.arange(n), pred.astype(int)] < p.max(axis=1) * (1 - slack)) if slack else best != pred
        require(not differs.any(), 'predict returns {} but the most probable classes are {}', pred[differs].tolist(), best[differs].tolist())
        require(len(np.unique(p, axis=0)) <= n_leaves, '{} distinct probability vectors from {} leaves', len(np.unique(p, axis=0)), n_leaves)
        rec.label('k={}'.format(min(k, 8)), *(['tie'] if any((r == r.max()).sum() > 1 for r in p) else []))
    else:
        require(np.all(np.isfinite(pred)), 'predictions {}', pred.tolist())
        if effective_delta(c['par']) == 0:
            mu = (c['par'].get('prior') or [0.0])[0]
            lo, hi = min(mu, y.min()), max(mu, y.max())
            tol = 1e-12 * max(abs(lo), abs(hi)) + 1e-300
            require(np.all((pred >= lo - tol) & (pred <= hi + tol)), 'predictions {} outside [{}, {}]', pred.tolist(), lo, hi)
            rec.label('bounded')
    rec.nontriv(not root.leaf or len(np.unique(y)) > 1)


def run_long(c, rec):
    """The same for a very long batch of rows."""
    X, y, m, root = fitted(c, rec)
    pool = gen.query_rows(root, X, c['q'])
    n = c['n']
    B = pool[np.random.RandomState(c['q']).randint(0, len(pool), n)]
    k = classes_of(c, y)
    p, pred = sut.checked_proba(m, B, n, k), sut.checked_predict(m, B, n)
    rec.count(n)
    require(p.dtype == np.float64, 'probabilities of {} rows are of type {}', n, p.dtype)
    require(np.all(np.isfinite(p)) and (k == 1 or (np.all(p > 0) and np.all(p < 1))), 'probabilities not strictly between 0 and 1 (of {} rows): {}', n, np.unique(p).tolist()[:20])
    require(np.all(np.abs(p.sum(axis=1) - 1) <= 1e-12), 'probabilities of {} rows sum to between {} and {}', n, p.sum(axis=1).min(), p.sum(axis=1).max())
    require(np.all(p[np.arange(n), pred.astype(int)] >= p.max(axis=1) * (1 - 1e-15)), 'predictions of {} rows are not the most probable classes', n)
    require(len(np.unique(p, axis=0)) <= len(root.leaves()), '{} distinct probability vectors from {} leaves', len(np.unique(p, axis=0)), len(root.leaves()))
    rec.nontriv(not root.leaf)


KW = dict(prunes=(False, True), extra={'q': st.integers(0, 999), 'qrep': st.sampled_from(['C', 'C', 'list', 'csr', 'csc', 'df'])})
CHECK = Check(
    'C06',
    'Fits of all four models with drawn data, priors (tiny, asymmetric, strong), delta and pruning; queries inside and far outside the data. '
    'Non-trivial: the tree splits or the targets differ.',
    [Part('perpendicular', gen.case(('PC', 'PC', 'PR'), rows_kw=dict(kinds=gen.SAFE_KINDS, kmax=7), recipe_kw=dict(kmax=9, nmax=150), **KW), run, 4000),
     Part('hyperplane', gen.case(('HC', 'HR'), recipe_share=.4, recipe_kw=dict(nmax=50, kmax=6), **KW), run, 700),
     Part('long', gen.case(('PC', 'PC', 'HC'), rows_kw=dict(kinds=gen.SAFE_KINDS, kmax=7, nmax=16), recipe_kw=dict(kmax=9, nmax=80),
                           extra={'q': st.integers(0, 999), 'n': st.one_of(st.integers(1, 3000), st.integers(3000, 150000))}), run_long, 80)])
