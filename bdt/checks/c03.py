from collections import Counter

import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.common import fitted
from bdt.core import Check, Part, require


def run(c, rec):
    X, y, m, root = fitted(c, rec)
    task = c['task']
    n = len(y)
    # structure
    require(root.level == 0, 'the root has level {}', root.level)
    require(root.n == n, 'the root reports {} points for {} training rows', root.n, n)
    for x in root.nodes():
        rec.count()
        require(x.n > 0, 'node at level {} reports {} points', x.level, x.n)
        if not x.leaf:
            require(x.c1.n + x.c2.n == x.n, 'node at level {}: {} + {} != {}', x.level, x.c1.n, x.c2.n, x.n)
            require(x.c1.level == x.c2.level == x.level + 1, 'children at levels {} and {} of a node at level {}', x.c1.level, x.c2.level, x.level)
    leaves = root.leaves()
    require(m.get_n_leaves() == len(leaves), 'get_n_leaves() is {} but there are {}', m.get_n_leaves(), len(leaves))
    require(m.get_depth() == root.depth(), 'get_depth() is {} but it is {}', m.get_depth(), root.depth())
    # own routing of the training rows
    amb = sut.assign(root, X)
    if amb.any():
        rec.skip('own routing of training rows within rounding of a hyperplane')
    else:
        for x in root.nodes():
            require(len(x.idx) == x.n, 'node at level {} reports {} points but {} training rows reach it', x.level, x.n, len(x.idx))
    # the model's own routing: the multiset of leaf data over the training rows
    width = len(root.posterior)
    raw = sut.checked_raw(m, sut.represent(X, c.get('qrep', 'C')), n, width)
    got = Counter(tuple(r) for r in raw[:, 1, :].tolist())
    exp = Counter()
    for l in leaves:
        exp[tuple(l.posterior.tolist())] += l.n
    rec.count(n)
    require(got == exp, 'training rows reach leaves (posterior: count) {} but the leaves counted {}', dict(got - exp), dict(exp - got))
    if not amb.any():
        of, _ = sut.leaf_of(root, X)
        for i, l in enumerate(of):
            require(tuple(raw[i, 1]) == tuple(l.posterior), 'training row {} is predicted by another leaf than the one it belongs to', X[i].tolist())
    # predict agrees with that leaf as well
    pred = sut.checked_predict(m, sut.represent(X, c.get('qrep', 'C')), n)
    exp_pred = raw[:, 1, :].argmax(axis=1) if task[1] == 'C' else raw[:, 1, 0]
    require(np.array_equal(pred, exp_pred), 'predict on the training rows does not follow the leaves')
    # any other row
    Q = gen.query_rows(root, X, n + int(abs(pred[0])) % 97)
    of, amb = sut.leaf_of(root, Q)
    qrep = c.get('qrep', 'C')
    step = [len(Q), 1, 2, 5][n % 4]  # all at once or a few at a time
    qraw = np.concatenate([sut.checked_raw(m, sut.represent(Q[i:i + step], qrep), len(Q[i:i + step]), width) for i in range(0, len(Q), step)])
    for i, l in enumerate(of):
        if not amb[i]:
            rec.count()
            require(tuple(qraw[i, 1]) == tuple(l.posterior), 'row {} should reach the leaf with posterior {} but reaches one with {}', Q[i].tolist(), l.posterior.tolist(), qraw[i, 1].tolist())
    rec.label('prune' if c['par'].get('prune') else 'no prune', c.get('rep', 'C'))
    rec.nontriv(not root.leaf)


KW = dict(prunes=(False, False, True))
SMALL = gen.case(('PC', 'PR'), recipe_share=0, rows_kw=dict(nmax=18), reps=['C', 'C', 'F', 'csr', 'csc', 'list'], extra={'qrep': st.sampled_from(['C', 'list', 'csr', 'csc', 'df'])}, **KW)
MED = gen.case(('PC', 'PR'), recipe_share=1, recipe_kw=dict(nmax=300), reps=['C', 'F', 'csr', 'csc'], extra={'qrep': st.sampled_from(['C', 'csr', 'csc'])}, **KW)
HYP = gen.case(('HC', 'HR'), recipe_share=.5, reps=['C', 'C', 'csr', 'csc'], **KW)


@st.composite
def hyper_rows(draw):
    """Hyperplane fits on data full of repeated rows and near-parallel directions."""
    c = draw(gen.case(('HC', 'HR'), recipe_share=0, rows_kw=dict(nmax=16, kinds=['grid', 'float', 'offset', 'binary', 'exp']), opt_kinds=['rh', '2p', 'quasi', 'list'], **KW))
    X = c['data']['X']
    for _ in range(draw(st.integers(1, 3))):
        i, j = draw(st.integers(0, len(X) - 1)), draw(st.integers(0, len(X) - 1))
        X[i] = list(X[j])
    return c


@st.composite
def long(draw):
    task = draw(st.sampled_from(['PC', 'PR', 'HC', 'HR']))
    r = draw(gen.recipe(task, dmax=2, kinds=['normal', 'dup', 'ints'], noises=(0,), ymodes=('interval', 'step', 'xor')))
    r['n'] = draw(st.sampled_from([255, 256, 257, 65535, 65536, 65537, 70001, 131073]))
    if task[0] == 'H':
        r['n'] = draw(st.sampled_from([255, 256, 257, 1023, 1025, 1500, 2049, 4099]))
    par = draw(gen.settings_for(task, r))
    if task[0] == 'H':
        par['opt'] = {'o': 'list', 'dirs': [[1.0, 0.0], [0.0, 1.0], [0.6, 0.8]]}
    return {'task': task, 'data': r, 'par': par, 'rep': draw(st.sampled_from(['C', 'csr'])), 'qrep': draw(st.sampled_from(['C', 'csc']))}


CHECK = Check(
    'C03',
    'Fits of all four models on drawn data (adjacent floats, huge and denormal values, repeated rows, dense and sparse, more than 65536 rows); '
    'counts, levels, depth and leaves are compared with the structure, the training rows are routed by independent arithmetic and by the '
    'model itself (raw leaf data) and compared with the counts of the leaves. Non-trivial: the tree has at least one split.',
    [Part('small', SMALL, run, 5000), Part('medium', MED, run, 1200), Part('hyperplane', HYP, run, 500),
     Part('hyperplane, repeated rows', hyper_rows(), run, 800), Part('long', long(), run, 64),
     Part('wide', gen.wide_case(reps=['C', 'F', 'csr', 'csc'], extra={'qrep': st.sampled_from(['C', 'csr', 'csc'])}, **KW), run, 96)],
    ['Independent routing of rows closer to a hyperplane than 1e-9 of the data range is skipped; the model\'s own routing is always checked.'])
