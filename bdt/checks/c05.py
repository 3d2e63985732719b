import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.core import Check, Part, require
from bdt.common import fitted

REPS = ['C', 'F', 'strided', 'list', 'csr', 'csc', 'csr_raw', 'csr_dup', 'df']


def freeze(Z):
    """Returns a function that tells whether Z still has the same content; makes arrays read-only."""
    if isinstance(Z, np.ndarray):
        c = Z.copy()
        Z.flags.writeable = False
        return lambda: np.array_equal(Z, c)
    if isinstance(Z, pd.DataFrame):
        c = Z.copy(deep=True)
        return lambda: Z.equals(c) and list(Z.columns) == list(c.columns)
    if isinstance(Z, (list, tuple)):
        c = copy.deepcopy(Z)
        return lambda: Z == c
    c = Z.copy()
    return lambda: Z.shape == c.shape and type(Z) is type(c) and all(np.array_equal(getattr(Z, a), getattr(c, a)) for a in ('data', 'indices', 'indptr'))


def params_of(m):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else repr(v)) for k, v in m.get_params().items()}


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    # fit leaves its inputs alone
    m = sut.make_model(task, c['par'])
    prior = m.prior
    Xr, yr = sut.represent(X, c['rep']), y.copy()
    names = ['n%d' % i for i in range(X.shape[1])]
    kept = [freeze(Xr), freeze(yr), freeze(names)] + ([freeze(prior)] if prior is not None else [])
    m.fit(Xr, yr, feature_names=names)
    require(all(k() for k in kept), 'fit modified one of its inputs (X, y, feature_names, prior): {}', [k() for k in kept])
    require(m.prior is prior, 'fit replaced the prior')
    root = sut.view(m, task)
    inner = sum(1 for x in root.nodes() if not x.leaf)
    rec.label(task, c['qrep'], 'splits=0' if not inner else 'splits=1-2' if inner < 3 else 'splits>=3')
    before = sut.snap(root), params_of(m), str(m)
    # queries
    pool = gen.query_rows(root, X, c['q'])
    amb = sut.leaf_of(root, pool)[1]
    sel = np.array([i % len(pool) for i in c['sel']])
    if c['blow'] > 1:  # long batches: the selection over and over, or in long runs, possibly with single rows in between
        sel = {'tile': lambda: np.tile(sel, c['blow']), 'runs': lambda: np.repeat(sel, c['blow']),
               'sorted': lambda: np.tile(sel, c['blow'])[np.argsort(np.tile(pool[sel, 0], c['blow']), kind='stable')],
               'interrupted': lambda: np.insert(np.repeat(sel, c['blow']), [c['blow'] // 2, len(sel) * c['blow'] // 2], sel[-1])}[c['how']]()
    B = pool[sel]
    k = len(root.posterior)
    queries = [('predict', lambda Z, n: sut.checked_predict(m, Z, n)), ('raw leaf data', lambda Z, n: sut.checked_raw(m, Z, n, k))]
    if task[1] == 'C':
        queries.append(('predict_proba', lambda Z, n: sut.checked_proba(m, Z, n, k)))
    if task[0] == 'P':
        queries.append(('prediction_paths', lambda Z, n: paths(m, Z, n)))
    rec.nontriv(not root.leaf and len(sel) > 1)
    for name, q in queries:
        batch = sut.represent(B, c['qrep'])
        same = freeze(batch)
        got = q(batch, len(B))
        require(same(), '{} modified the rows passed in', name)
        single = {}
        for pos, i in enumerate(sel):
            if amb[i]:
                rec.skip('query rows within rounding of a hyperplane')
                continue
            if i not in single:
                row = pool[i]
                Z = {0: row.reshape(1, -1).copy(), 1: row.tolist(), 2: sut.represent(row.reshape(1, -1), 'csr'), 3: row.copy()}[i % 4]
                single[i] = q(Z, 1)[0]
            rec.count()
            require(np.array_equal(got[pos], single[i]) if name != 'prediction_paths' else got[pos] == single[i],
                    '{}: row {} at position {} of a batch of {} gives {} but {} when queried alone', name, pool[i].tolist(), pos, len(B), got[pos], single[i])
        none = q(sut.represent(B[:0], c['qrep'] if c['qrep'] != 'list' else 'C'), 0)
        require(len(none) == 0, '{} returns {} results for no rows', name, len(none))
        again = q(batch, len(B))
        if name != 'prediction_paths':  # the results belong to the caller, who may overwrite them
            for r in (got, q(sut.represent(B[:1], c['qrep']), 1), q(batch, len(B))):
                if not r.flags.writeable:
                    continue
                was = r.copy()
                r[...] = 77.0
                require(np.array_equal(q(sut.represent(B[:len(r)], c['qrep']), len(r)), was), '{} gives other results after earlier results were overwritten', name)
                r[...] = was
        require(all(np.array_equal(a, b) if name != 'prediction_paths' else a == b for a, b in zip(got, again)), '{} is not repeatable', name)
    m.get_depth(), m.get_n_leaves(), repr(m)
    if not root.leaf:
        i1, i2 = m.feature_importance(), m.feature_importance().copy()
        require(np.array_equal(i1, i2), 'feature_importance is not repeatable')
        if i1.flags.writeable:
            i1[:] = 77.0
        require(np.array_equal(m.feature_importance(), i2), 'feature_importance gives other results after an earlier result was overwritten')
    after = sut.snap(sut.view(m, task)), params_of(m), str(m)
    require(before == after, 'queries changed the model: {} -> {}', before, after)
    require(all(k_() for k_ in kept), 'queries modified the inputs of fit')


def paths(m, Z, n):
    p = m.prediction_paths(Z)
    require(len(p) == n, 'prediction_paths returned {} paths for {} rows', len(p), n)
    return [[(int(s[0]), str(s[1]), float(s[2]), bool(s[3])) for s in r] for r in p]


def run_lengths(c, rec):
    """Beginnings of one long batch, of many lengths."""
    task = c['task']
    X, y = gen.data(c['data'])
    m = sut.make_model(task, c['par'])
    m.fit(X.copy(), y.copy())
    root = sut.view(m, task)
    rs = np.random.RandomState(c['q'])
    pool = gen.query_rows(root, X, c['q'])
    # other rows may be anywhere, some next to a hyperplane (though not within rounding)
    far = rs.normal(size=(3, X.shape[1])) * np.abs(X).max() * 1e5
    near = [X[rs.randint(len(X))] for _ in range(4)]
    for x in [x for x in root.nodes() if not x.leaf][:8]:
        if x.normal is not None:
            near.append(x.origin + rs.choice([-1, 1]) * 10.0 ** rs.randint(-8, -2) * np.abs(X).max() * x.normal)
    pool = np.concatenate([Z[~sut.leaf_of(root, Z)[1]] for Z in (np.concatenate([pool, near]), far)])  # (what is within rounding depends on the size of the rows)
    if not len(pool):
        return
    sel = rs.randint(0, len(pool), 20000)
    small = np.concatenate([sut.checked_predict(m, pool[i:i + 7], len(pool[i:i + 7])) for i in range(0, len(pool), 7)])
    require(np.array_equal(small, [sut.checked_predict(m, p.reshape(1, -1), 1)[0] for p in pool]), 'rows are predicted differently alone and in groups of 7')
    B, exp = pool[sel], small[sel]
    rec.label(task)
    rec.nontriv(not root.leaf)
    k = len(root.posterior)
    alone = {'proba': [sut.checked_proba(m, p.reshape(1, -1), 1, k)[0] for p in pool] if task[1] == 'C' else None, 'raw': [sut.checked_raw(m, p.reshape(1, -1), 1, k)[0] for p in pool]}
    for i, n in enumerate(list(np.exp(rs.uniform(0, np.log(20000), 12)).astype(int)) + rs.randint(1, 20001, 12).tolist() + [int(v) + rs.randint(-1, 2) for v in rs.choice([256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384], 3)]):
        rec.count(n)
        p = sut.checked_predict(m, B[:n], n)
        bad = np.where(p != exp[:n])[0]
        require(not len(bad), 'row {} at position {} of a batch of {} is predicted as {} but alone as {}', *((B[bad[0]].tolist(), bad[0], n, p[bad[0]], exp[bad[0]]) if len(bad) else (0,) * 5))
        if i % 3 == 0 and task[1] == 'C':
            require(np.array_equal(sut.checked_proba(m, B[:n], n, k), np.array(alone['proba'])[sel[:n]]), 'the class probabilities of a batch of {} differ from those of the single rows', n)
        if i % 9 == 1:
            require(np.array_equal(sut.checked_raw(m, B[:n], n, k), np.array(alone['raw'])[sel[:n]]), 'the raw leaf data of a batch of {} differ from those of the single rows', n)
    if c['q'] % 8 == 0:
        n = 65536 + rs.randint(-2, 9000)
        sel = rs.randint(0, len(pool), n)
        require(np.array_equal(sut.checked_predict(m, pool[sel], n), small[sel]), 'rows of a batch of {} are predicted differently alone', n)
        rec.count(n)
    # an array that the caller reuses for other rows
    n = min(len(pool), 12)
    buf = pool[:n].copy()
    for _ in range(4):
        order = rs.randint(0, len(pool), n)
        buf[:] = pool[order]
        rec.count(n)
        require(np.array_equal(sut.checked_predict(m, buf, n), small[order]), 'rows put into an array that was used for others before are predicted differently')
        if task[1] == 'C':
            require(np.array_equal(sut.checked_proba(m, buf, n, k), np.array(alone['proba'])[order]), 'class probabilities of rows put into an array used before differ')
        require(np.array_equal(sut.checked_raw(m, buf, n, k), np.array(alone['raw'])[order]), 'raw leaf data of rows put into an array used before differ')
    # ... and a model that is fitted anew between queries of one array
    other = sut.make_model(task, c['par']).fit(X[::-1].copy(), y.copy())
    m.fit(X[::-1].copy(), y.copy())
    require(np.array_equal(sut.checked_predict(m, buf, n), sut.checked_predict(other, buf.copy(), n)), 'predictions for the same array after fitting again are not those of the new tree')
    m.fit(X.copy(), y.copy())
    require(np.array_equal(sut.checked_predict(m, buf, n), small[order]), 'predictions for the same array after fitting the first data again differ')


KW = dict(reps=REPS, prunes=(False, True), extra={'q': st.integers(0, 999), 'qrep': st.sampled_from(REPS), 'sel': st.lists(st.integers(0, 60), min_size=1, max_size=25),
                                              'blow': st.sampled_from([1, 1, 1, 3, 40, 130]), 'how': st.sampled_from(['tile', 'runs', 'sorted', 'interrupted'])})
CHECK = Check(
    'C05',
    'Models fitted on drawn data from read-only inputs; batches with drawn order, subset and repetition of training rows, threshold values '
    'and random rows (up to several thousand, also in long runs), in eight representations, compared row by row with querying each row alone; inputs and the model are compared before '
    'and after. Non-trivial: the tree splits and the batch has several rows.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(kinds=gen.SAFE_KINDS, nmax=16), recipe_kw=dict(nmax=120), **KW), run, 1500),
     Part('hyperplane', gen.case(('HC', 'HR'), recipe_kw=dict(nmax=60), recipe_share=.5, **KW), run, 600),
     Part('wide', gen.wide_case(('PC', 'PR', 'HC', 'HR'), opt_kinds=['list', 'quasi'], **KW), run, 120),
     Part('lengths', gen.case(('PC', 'PC', 'PR', 'HC', 'HR'), rows_kw=dict(nmax=16), recipe_kw=dict(nmax=60), extra={'q': st.integers(0, 9999)}), run_lengths, 160)],
    ['Rows closer to a hyperplane than 1e-9 of the data range are exempt: the rounding of matrix products depends on the batch shape.'])
