import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.common import fitted, leaf_prediction, prune_view, effective_delta
from bdt.core import Check, Part, require


def run(c, rec):
    task = c['task']
    X, y, m0, root0 = fitted(c, rec, over={'prune': False})
    _, _, m1, root1 = fitted(c, rec, over={'prune': True}, X=X, y=y)
    n0 = len(root0.leaves())
    expected = sut.view(m0, task)
    merged = prune_view(expected, leaf_prediction(task))
    a, b = sut.snap(expected), sut.snap(root1)
    rec.count()
    # 'level', 'posterior', 'prior', 'n' and all split data must agree; the prune flag itself is not part of the snapshot
    require(a == b, 'pruned tree differs from the reference pruning: {} (expected left, got right)', sut.first_diff(a, b))
    require(m1.get_n_leaves() == len(expected.leaves()), 'get_n_leaves() is {} after pruning, expected {}', m1.get_n_leaves(), len(expected.leaves()))
    require(m1.get_depth() == expected.depth(), 'get_depth() is {} after pruning, expected {}', m1.get_depth(), expected.depth())
    for x in root1.nodes():
        if not x.leaf and x.c1.leaf and x.c2.leaf:
            f = leaf_prediction(task)
            require(f(x.c1) != f(x.c2), 'sibling leaves with the same prediction {} survive pruning', f(x.c1))
    prior = c['par'].get('prior')
    if task[1] == 'C' and effective_delta(c['par']) == 0 and (prior is None or len(set(prior)) == 1):
        Q = np.concatenate([gen.query_rows(root0, X, c['q']), X])
        p0, p1 = sut.checked_predict(m0, Q, len(Q)), sut.checked_predict(m1, Q, len(Q))
        rec.count(len(Q))
        rec.label('symmetric prior')
        require(np.array_equal(p0, p1), 'pruning changes class predictions of rows {}', Q[p0 != p1].tolist())
    # whatever was not merged predicts the same
    rec.label('merged={}'.format(min(merged, 5)), 'emptied' if merged and root1.leaf else 'kept')
    if merged:
        rec.label('merged on {} levels'.format(min(4, root0.depth() - root1.depth())))
    rec.nontriv(merged > 0)


KW = dict(extra={'q': st.integers(0, 999)})
PAR = dict(sps=(0.0,))


@st.composite
def uneven(draw, tasks):
    """Many rows; every class occurs everywhere, but not equally often."""
    c = draw(gen.long_case(tasks, ns=(400, 990, 1001, 2049, 4097, 9000), sps=(0.0,), **KW))
    c['data'].update(ym=draw(st.sampled_from(['uneven', 'uneven', 'uneven', 'rare'])), noise=0)
    if c['task'][0] == 'H':
        c['data']['n'] = min(c['data']['n'], 2100)
        c['par']['opt'] = draw(gen.optimizer(c['task'], kinds=['list', 'quasi']))
    return c


CLS = gen.case(('PC',), rows_kw=dict(nmax=20, kmax=3), recipe_kw=dict(nmax=250, kmax=3, noises=(10, 20, 30)), recipe_share=.6, **PAR, **KW)
REG = gen.case(('PR',), rows_kw=dict(nmax=20, ykinds=('hetero',)), recipe_kw=dict(nmax=200, ykinds=('hetero',), noises=(0, 0, 5)), recipe_share=.5, mus=(0.0,), **PAR, **KW)
HYP = gen.case(('HC', 'HR'), rows_kw=dict(nmax=16, ykinds=('hetero', 'dyadic')), recipe_kw=dict(nmax=60, kmax=3, noises=(0, 10, 20), ykinds=('hetero', 'dyadic')), recipe_share=.6,
               opt_kinds=['list', 'quasi', 'rh', 'sa'], mus=(0.0,), **PAR, **KW)
LONG = uneven(('PC', 'PC', 'PC', 'HC'))


@st.composite
def balanced_regression(draw):
    """Regression targets symmetric about the prior mean with region-dependent spread, several regions: sides often predict exactly the same."""
    n = draw(st.integers(2, 8))
    spreads = draw(st.lists(st.sampled_from([1.0, 8.0, 0.5, 16.0, 64.0]), min_size=n, max_size=n))
    reps = draw(st.integers(1, 4))
    X, y = [], []
    for i, s in enumerate(spreads):
        for j in range(2 * reps):
            X.append([float(i), float(draw(st.integers(0, 3)))])
            y.append(s if j % 2 else -s)
    if draw(st.integers(0, 2)) == 0:
        y[draw(st.integers(0, len(y) - 1))] += 3.0
    d = {'t': 'rows', 'X': X, 'y': y}
    return {'task': 'PR', 'data': d, 'par': {'pp': draw(gen.pps()), 'prior': [0.0, draw(st.sampled_from([1.0, 0.5, 0.1])), 0.5, draw(st.sampled_from([0.5, 0.1]))],
                                             'delta': draw(st.sampled_from([0, 0, 1, .5]))}, 'q': draw(st.integers(0, 999))}


CHECK = Check(
    'C07',
    'Every case is fitted with and without pruning; the unpruned tree is pruned by a reference (merge sibling leaves with equal predictions '
    'until none are left) and compared node by node with the pruned one, and predictions are compared for symmetric priors. Data is drawn '
    'to produce redundant splits on several levels (noisy classes, regression regions with equal means). Non-trivial: something is merged.',
    [Part('classification', CLS, run, 2500), Part('regression', REG, run, 1200), Part('balanced regression', balanced_regression(), run, 1500),
     Part('hyperplane', HYP, run, 500), Part('long', LONG, run, 48)])
