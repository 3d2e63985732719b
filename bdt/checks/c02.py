import numpy as np
from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.common import fitted, classes_of, close, expected_posterior
from bdt.core import Check, Part, require


def matches(got, exp, tol):
    got = np.asarray(got, dtype=float)
    return got.shape == exp.shape and bool(np.all(np.abs(got - exp) <= tol))


def run(c, rec):
    X, y, m, root = fitted(c, rec)
    task = c['task']
    k = classes_of(c, y) if task[1] == 'C' else 0
    prior = c['par'].get('prior') or ref.default_prior(task, len(y), k)
    rec.label('prune' if c['par'].get('prune') else 'no prune', 'default prior' if not c['par'].get('prior') else 'prior')
    rec.nontriv(not root.leaf)
    if sut.assign_train(root, X).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    expected = {}
    for x in root.nodes():
        exp, tol = expected[id(x)] = expected_posterior(task, prior, y[x.train])
        rec.count()
        require(matches(x.posterior, exp, tol), 'node at level {} with {} points: posterior {} instead of {}', x.level, len(x.train), x.posterior.tolist(), exp.tolist())
    Q = gen.query_rows(root, X, c['q'])
    leaves, amb = sut.leaf_of(root, Q)
    Qr = sut.represent(Q, c.get('rep', 'C'))
    raw = sut.checked_raw(m, Qr, len(Q), len(prior))
    pred = sut.checked_predict(m, Qr, len(Q))
    proba = sut.checked_proba(m, Qr, len(Q), k) if task[1] == 'C' else None
    for i, l in enumerate(leaves):
        if amb[i]:
            rec.skip('query rows within rounding of a hyperplane')
            continue
        rec.count()
        row = Q[i].tolist()
        exp, tol = expected[id(l)]
        require(close(raw[i, 0], prior, 1e-13), 'raw leaf data of row {}: prior {} instead of {}', row, raw[i, 0].tolist(), prior)
        require(matches(raw[i, 1], exp, tol), 'raw leaf data of row {}: posterior {} instead of {}', row, raw[i, 1].tolist(), exp.tolist())
        if task[1] == 'C':
            require(close(proba[i], exp / exp.sum(), 1e-12), 'predict_proba of row {} is {} instead of {}', row, proba[i].tolist(), (exp / exp.sum()).tolist())
            p = int(pred[i])
            require(p == pred[i] and 0 <= p < k and exp[p] >= exp.max() * (1 - 1e-12), 'predict of row {} is {} for posterior {}', row, pred[i], exp.tolist())
        else:
            require(abs(pred[i] - exp[0]) <= tol[0], 'predict of row {} is {} instead of the posterior mean {}', row, pred[i], exp[0])


EXTRA = {'q': st.integers(0, 999)}
KW = dict(deltas=(0, 0.0, None), prunes=(False, True), extra=EXTRA, reps=['C', 'C', 'csr', 'csc', 'list', 'df'])
PERP = gen.case(('PC', 'PR'), rows_kw=dict(kinds=gen.SAFE_KINDS, kmax=6), recipe_kw=dict(nmax=400, kmax=12), recipe_share=.4, **KW)
HYPER = gen.case(('HC', 'HR'), recipe_share=.5, recipe_kw=dict(nmax=80, kmax=6), **KW)

CHECK = Check(
    'C02',
    'Fits of all four models with delta=0 on drawn data (up to 131000 rows), priors (symmetric, asymmetric, default), pruned or not; the training targets of '
    'every node are collected by routing the rows with independent arithmetic and the conjugate posterior is computed in extended precision; '
    'queries at, next to and away from thresholds are compared with the leaf they fall into. Non-trivial: the tree has at least one split.',
    [Part('perpendicular', PERP, run, 4000), Part('hyperplane', HYPER, run, 800),
     Part('wide', gen.wide_case(('PC', 'PR', 'HC', 'HR'), opt_kinds=['list', 'quasi'], **KW), run, 96),
     Part('classes', gen.class_case(**KW), run, 64),
     Part('long', gen.long_case(**KW), run, 48)],
    ['Rows closer to a hyperplane than 1e-9 of the data range are not assigned to a side by the reference.'],
    ref.selftest)
