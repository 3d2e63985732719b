import numpy as np
from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.common import classes_of, close, same_posterior
from bdt.core import Check, Part, require


def transform_columns(X, kinds, seed, mono):
    """-> transformed X, per column +1/-1 (mirrored)/0 (changed scale)"""
    rs = np.random.RandomState(seed)
    Z, sign = X.copy(), np.ones(X.shape[1], int)
    for j in range(X.shape[1]):
        k = kinds[j % len(kinds)]
        if k == 'mirror':
            Z[:, j], sign[j] = -X[:, j], -1
        elif k == 'mono' and mono:
            u, inv = np.unique(X[:, j], return_inverse=True)
            how = rs.randint(4)
            if how == 0:
                v = np.cumsum(rs.uniform(0.001, 1, len(u)))
            elif how == 1:
                v = np.cumsum(10.0 ** rs.uniform(-6, 6, len(u))) - 1e3
            elif how == 2:
                v = np.arange(len(u)) * 1.0
            else:  # adjacent doubles
                v = [rs.choice([1.0, -3.0, 1e6])]
                while len(v) < len(u):
                    v.append(np.nextafter(v[-1], np.inf))
                v = np.array(v)
            if len(set(v.tolist())) == len(u):
                Z[:, j], sign[j] = v[inv.reshape(-1)], 0
    return Z, sign


class Tie(Exception):
    pass


def run(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    n, d = X.shape
    rs = np.random.RandomState(c['s'])
    rows = rs.permutation(n) if c['rows'] else np.arange(n)
    cols = rs.permutation(d) if c['cols'] else np.arange(d)
    Z, sign = transform_columns(X, c['kinds'], c['s'], par['sp'] == 0)
    names = ['name%d' % j for j in range(d)]
    m1 = sut.make_model(task, par).fit(sut.represent(X, c['rep']), y.copy(), feature_names=names)
    m2 = sut.make_model(task, par).fit(sut.represent(Z[rows][:, cols], c['rep2']), y[rows].copy(), feature_names=[names[j] for j in cols])
    a, b = sut.view(m1, task), sut.view(m2, task)
    sut.assign_train(a, X)
    sut.assign_train(b, Z[rows][:, cols])
    k = classes_of(c, y)
    state = {'ties': 0, 'splits': 0, 'tol': 0.0, 'gain': 0.0}

    def scores(x):
        return ref.Scores(X[x.train], y[x.train], task, sut.node_prior(x, task, k), par['pp'], x.level, par['sp'])

    def posterior(x, z, where):
        require(same_posterior(task, x.posterior, z.posterior, sut.node_prior(x, task, k), y[x.train]), '{}: posterior {} becomes {}', where, x.posterior.tolist(), z.posterior.tolist())

    def compare(x, z, where):
        rec.count()
        require(x.n == z.n and x.level == z.level, '{}: {} points at level {} become {} at level {}', where, x.n, x.level, z.n, z.level)
        if x.prior is not None and z.prior is not None:
            require(close(x.prior, z.prior, 1e-9, 1e-300), '{}: prior {} becomes {}', where, x.prior.tolist(), z.prior.tolist()) if task[1] == 'C' or not par['delta'] else None
        posterior(x, z, where)
        if x.leaf and z.leaf:
            return
        S = scores(x)
        tol = 2 * (S.best()[1] + S.no_split_err)
        state['tol'] += tol
        if x.leaf or z.leaf:
            require(abs(S.best()[0] - S.no_split) <= tol, '{}: a {} becomes a {} although splitting scores {} and not splitting {}', where, *(('leaf', 'split') if x.leaf else ('split', 'leaf')), S.best()[0], S.no_split)
            state['ties'] += 1
            return
        state['splits'] += 1
        dim = cols[z.dim]
        z1, z2 = (z.c1, z.c2) if sign[dim] >= 0 else (z.c2, z.c1)
        same = dim == x.dim and set(rows[z1.train]) == set(x.c1.train)
        if not same:
            i = S.find(x.dim, x.thr)
            left = np.isin(x.train, rows[z1.train])
            lo, hi = X[x.train[left], dim].max(), X[x.train[~left], dim].min()
            require(lo < hi, '{}: the transformed tree splits feature {} where it has no gap', where, dim)
            j = S.find(dim, hi)
            require(i is not None and j is not None, '{}: split at an inadmissible position', where)
            require(abs(S.score[i] - S.score[j]) <= tol, '{}: the split x{}={} (log posterior {}) becomes one of x{} between {} and {} (log posterior {})',
                    where, x.dim, x.thr, S.score[i], dim, lo, hi, S.score[j])
            state['ties'] += 1
            return
        require(x.name == names[x.dim] == z.name, '{}: feature {} is called {} and {}', where, x.dim, x.name, z.name)
        if sign[dim] == 1:
            require(x.thr == z.thr, '{}: threshold {} becomes {}', where, x.thr, z.thr)
        elif sign[dim] == -1:
            require(abs(x.thr + z.thr) <= 4 * np.spacing(np.abs(X[x.train, dim]).max()), '{}: threshold {} of a mirrored feature becomes {}', where, x.thr, z.thr)
        require(abs(x.lns - z.lns) <= tol and abs(x.lsp - z.lsp) <= tol, '{}: log posteriors {}, {} become {}, {}', where, x.lns, x.lsp, z.lns, z.lsp)
        state['gain'] += x.lsp - x.lns
        compare(x.c1, z1, where + '.1')
        compare(x.c2, z2, where + '.2')

    compare(a, b, 'root')
    rec.label(task, 'rows' if c['rows'] else 'rows kept', 'columns' if c['cols'] else 'columns kept', 'ties' if state['ties'] else 'no ties',
              'mirrored' if np.any(sign < 0) else 'not mirrored', 'rescaled' if np.any(sign == 0) else 'not rescaled', 'splits={}'.format(min(5, state['splits'])))
    rec.nontriv(state['splits'] > 0)
    if state['ties']:
        rec.skip('predictions and importances after an exact tie')
        return
    # predictions and importances follow
    ra, rb = sut.checked_predict(m1, X, n), sut.checked_predict(m2, Z[rows][:, cols], n)
    require(close(ra[rows], rb, 1e-9, 1e-9 * (1 + np.abs(y).max()) if task[1] == 'R' else 0), 'training rows are predicted differently')
    Q = gen.query_rows(a, X, c['s'])
    ok = np.all(sign != 0)
    if ok:
        near = np.zeros(len(Q), bool)
        for x in a.nodes():
            if not x.leaf and sign[x.dim] < 0:
                near |= np.abs(Q[:, x.dim] - x.thr) <= 8 * np.spacing(np.abs(X[x.train, x.dim]).max())
        Q = Q[~near]
        if len(Q):
            require(close(sut.checked_predict(m1, Q, len(Q)), sut.checked_predict(m2, (Q * sign)[:, cols], len(Q)), 1e-9, 1e-9 * (1 + np.abs(y).max()) if task[1] == 'R' else 0), 'rows are predicted differently')
    if not a.leaf and state['gain'] > 0:
        f1, f2 = np.asarray(m1.feature_importance()), np.asarray(m2.feature_importance())
        tol = 1e-9 + 4 * state['tol'] / state['gain']
        require(f1.shape == f2.shape == (d,) and np.all(np.abs(f1[cols] - f2) <= tol), 'feature importances {} become {} (columns {})', f1.tolist(), f2.tolist(), cols.tolist())


EXTRA = {'rows': st.booleans(), 'cols': st.booleans(), 's': st.integers(0, 9999), 'kinds': st.lists(st.sampled_from(['keep', 'mirror', 'mono', 'mono']), min_size=1, max_size=4),
         'rep2': st.sampled_from(['C', 'C', 'F', 'csr', 'csc', 'list'])}
KW = dict(reps=['C', 'C', 'csc'], extra=EXTRA)
CHECK = Check(
    'C18',
    'Perpendicular models fitted on drawn data and on the same data with rows shuffled, features permuted, mirrored or mapped by arbitrary '
    'strictly increasing functions (ranks, exponentially spaced, adjacent doubles); the trees are compared node by node on the training '
    'partition, then predictions and importances; where the trees differ an independent scorer must find an exact tie. Non-trivial: at least '
    'one split was compared.',
    [Part('small', gen.case(('PC', 'PR'), recipe_share=0, rows_kw=dict(nmax=18, dmax=4), **KW), run, 3500),
     Part('medium', gen.case(('PC', 'PR'), recipe_share=1, recipe_kw=dict(nmax=220, dmax=6), **KW), run, 1000),
     Part('wide', gen.case(('PC', 'PR'), recipe_share=1, recipe_kw=dict(nmin=20, nmax=90, dmin=8, dmax=45), **KW), run, 300)],
    ['Increasing transforms are only applied with split precision 0.'], ref.selftest)
