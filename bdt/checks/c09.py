import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.core import Check, Part, require
from bdt.common import leaf_prediction


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    d = X.shape[1]
    m = sut.make_model(task, c['par'])
    Xr = sut.represent(X, c['rep'])
    names = {'given': ['g%d' % (d - i) for i in range(d)], 'long': ['a rather {long} name of a feature ' * 4 + str(i) for i in range(d)]}.get(c['names'])
    if c['names'] == 'other':  # names need not be strings
        names = [[3 * i - 4, ('a', i), 2.5 * i, str(i) if i % 2 else i, b'%d' % i][c['q'] % 5] for i in range(d)]
        if c['rep'].startswith('df') and c['q'] % 5 != 1:
            Xr.columns, names = names, None
    elif c['names'] == 'double':
        names = ['same%d' % (i // 2) for i in range(d)]
    m.fit(Xr, y.copy(), **({'feature_names': names} if names else {}))
    expected = names or (list(Xr.columns) if c['rep'].startswith('df') else ['x%d' % i for i in range(d)])
    root = sut.view(m, task)
    Q = gen.query_rows(root, X, c['q'], m=20)
    if c['blow']:  # long batches, in which most rows may go the same way
        rs = np.random.RandomState(c['q'])
        Q = Q[rs.randint(0, len(Q), c['blow'])] if c['q'] % 2 else np.insert(np.repeat(Q[:1], c['blow'], axis=0), sorted(rs.randint(0, c['blow'], 5)), Q[rs.randint(0, len(Q), 5)], axis=0)
    if c['lone'] is not None:  # one row at or next to a power of two among rows that all go another way
        e, off, i = c['lone']
        R = np.repeat(Q[i % len(Q)][None], 2 ** e + 40, axis=0)
        R[2 ** e + off] = Q[(i * 7 + 3) % len(Q)]
        Q = R
    paths = m.prediction_paths(sut.represent(Q, c['qrep']))
    pred = sut.checked_predict(m, sut.represent(Q, c['qrep']), len(Q))
    require(len(paths) == len(Q), '{} paths for {} rows', len(paths), len(Q))
    pl = leaf_prediction(task)
    for q, path, p in zip(Q, paths, pred):
        rec.count()
        node = root
        for i, step in enumerate(path):
            require(not node.leaf, 'row {}: path of {} steps goes beyond the leaf reached after {}', q.tolist(), len(path), i)
            require(len(step) == 4, 'path step with {} fields', len(step))
            dim, name, thr, side = step
            require(dim == node.dim and thr == node.thr, 'row {}: step {} is on x{}={} but the node splits x{}={}', q.tolist(), i, dim, thr, node.dim, node.thr)
            require(name == expected[node.dim], 'row {}: step {} names feature {} {!r} instead of {!r}', q.tolist(), i, node.dim, name, expected[node.dim])
            right = bool(q[node.dim] >= node.thr)
            require(bool(side) == right and side in (True, False), 'row {}: step {} says {} for {} >= {}', q.tolist(), i, side, q[node.dim], node.thr)
            node = node.c2 if right else node.c1
        require(node.leaf, 'row {}: path ends after {} steps at a split node', q.tolist(), len(path))
        require(pl(node) == p, 'row {}: the path ends at a leaf predicting {} but predict returns {}', q.tolist(), pl(node), p)
    depth = root.depth()
    rec.label(task, 'depth={}'.format(min(depth, 6)), c['rep'], c['qrep'], 'prune' if c['par'].get('prune') else 'no prune')
    rec.nontriv(depth >= 2)


REPS = ['C', 'C', 'csr', 'csc', 'list', 'df', 'csr_raw', 'csr_dup']
KW = dict(prunes=(False, False, True), reps=REPS, extra={'q': st.integers(0, 999), 'lone': st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(3, 11), st.integers(-1, 1), st.integers(0, 99)).map(list)), 'blow': st.sampled_from([0] * 12 + [65, 130, 260, 520, 1030, 2100]), 'qrep': st.sampled_from(REPS), 'names': st.sampled_from(['given', None, 'long', 'other', 'double'])})
CHECK = Check(
    'C09',
    'Perpendicular fits (deep trees preferred); for training rows, rows exactly at or one ulp next to thresholds and random rows every step '
    'is replayed in the tree by independent comparison, names included, and the end of the path is compared with predict. Non-trivial: the '
    'tree is at least two levels deep.',
    [Part('small', gen.case(('PC', 'PR'), rows_kw=dict(nmin=5, nmax=20), recipe_share=0, **KW), run, 2500),
     Part('deep', gen.case(('PC', 'PR'), recipe_kw=dict(nmin=40, nmax=300, noises=(0, 3), ymodes=('interval', 'interval', 'xor', 'alternate')), recipe_share=1, sps=(0.0,), **KW), run, 1200),
     Part('wide', gen.wide_case(ds=[33, 65, 129, 140, 200, 257, 300, 520], sps=(0.0,), **KW), run, 120)])
