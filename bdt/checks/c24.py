import numpy as np
from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.common import classes_of, close, same_posterior
from bdt.core import Check, Part, require

EPS = np.finfo(float).eps
TWIN = {'PC': 'HC', 'PR': 'HR'}


def axis(x, d, where):
    """(feature, threshold, side of the first child) of a hyperplane that is perpendicular to a feature axis"""
    dim = int(np.argmax(np.abs(x.normal)))
    rest = np.delete(x.normal, dim)
    require(len(x.normal) == d and np.all(rest == 0) and abs(abs(x.normal[dim]) - 1) <= 1e-12, '{}: normal {} although only directions along the axes were tried', where, x.normal.tolist())
    return dim, float(x.origin[dim]), x.normal[dim] > 0


def run(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    n, d = X.shape
    # gaps within the rounding error of a projection are not resolved by hyperplane trees
    floor = 64 * d ** 1.5 * EPS * np.abs(X).max()
    gaps = np.diff(np.sort(X, axis=0), axis=0)
    if np.any((gaps > 0) & (gaps <= floor)):
        rec.skip('gaps within rounding of a projection')
        return
    rs = np.random.RandomState(c['s'])
    dirs = np.eye(d)[rs.permutation(d)] * np.where(rs.randint(0, 3, d) == 0, -1.0, 1.0)[:, None] * rs.choice([1.0, 1.0, 2.0, 0.5, 1e-3], d)[:, None]
    if c['again']:
        dirs = np.concatenate([dirs, dirs[::-1]])
    opt = sut.ListOptimizer(dirs.tolist())
    if d == 1 and c['s'] % 2:  # there is nothing to search for, whatever the optimizer
        opt = sut.make_optimizer([None, {'o': 'rh', 'n': 3, 'seed': 1}, {'o': 'quasi', 'n': 2}, {'o': 'sa', 'n_scan': 3, 'n_keep': 2, 'spread': .5, 'seed': 1}][c['s'] // 2 % 4])
    m1 = sut.make_model(task, par).fit(sut.represent(X, c['rep']), y.copy())
    m2 = sut.make_model(TWIN[task], {k: v for k, v in par.items() if k != 'opt'}, optimizer=opt).fit(sut.represent(X, c['rep2']), y.copy())
    a, b = sut.view(m1, task), sut.view(m2, TWIN[task])
    sut.assign_train(a, X)
    k = classes_of(c, y)
    state = {'ties': 0, 'splits': 0, 'tol': 0.0, 'gain': 0.0}

    def compare(x, z, idx, where):
        """idx: the training rows of z"""
        rec.count()
        require(x.n == z.n == len(idx) and x.level == z.level, '{}: {} points at level {} but {} at level {}', where, x.n, x.level, z.n, z.level)
        require(same_posterior(task, x.posterior, z.posterior, sut.node_prior(x, task, k), y[x.train]), '{}: posterior {} but {}', where, x.posterior.tolist(), z.posterior.tolist())
        if x.leaf and z.leaf:
            return
        S = ref.Scores(X[x.train], y[x.train], task, sut.node_prior(x, task, k), par['pp'], x.level, par['sp'])
        tol = 2 * (S.best()[1] + S.no_split_err)
        state['tol'] += tol
        if x.leaf or z.leaf:
            require(not par['prune'] and abs(S.best()[0] - S.no_split) <= tol or par['prune'], '{}: one is a leaf, the other is not, although splitting scores {} and not splitting {}', where, S.best()[0], S.no_split)
            state['ties'] += 1
            return
        state['splits'] += 1
        dim, thr, forward = axis(z, d, where)
        left = X[idx, dim] < thr
        first, second = (idx[left], idx[~left]) if forward else (idx[~left], idx[left])
        require(z.c1.n == len(first), '{}: {} points before the hyperplane x{}={} but the child holds {}', where, len(first), dim, thr, z.c1.n)
        require(abs(x.lns - z.lns) <= tol and abs(x.lsp - z.lsp) <= tol, '{}: log posteriors {}, {} but {}, {}', where, x.lns, x.lsp, z.lns, z.lsp)
        if dim != x.dim or set(idx[left]) != set(x.c1.train):
            i, j = S.find(x.dim, x.thr), S.find(dim, X[idx[~left], dim].min() if not left.all() else np.inf)
            require(i is not None and j is not None, '{}: split at an inadmissible position', where)
            require(abs(S.score[i] - S.score[j]) <= tol, '{}: the splits are x{}={} (log posterior {}) and x{}={} (log posterior {})', where, x.dim, x.thr, S.score[i], dim, thr, S.score[j])
            state['ties'] += 1
            return
        require(abs(x.thr - thr) <= 4 * np.spacing(np.abs(X[idx, dim]).max()), '{}: thresholds {} and {}', where, x.thr, thr)
        state['gain'] += x.lsp - x.lns
        for p, q, i in ((x.c1, z.c1 if forward else z.c2, idx[left]), (x.c2, z.c2 if forward else z.c1, idx[~left])):
            compare(p, q, i, where + ('.1' if p is x.c1 else '.2'))

    compare(a, b, np.arange(n), 'root')
    rec.label(task, 'd={}'.format(min(d, 3)), 'ties' if state['ties'] else 'no ties', 'splits={}'.format(min(5, state['splits'])), 'prune' if par['prune'] else 'no prune')
    rec.nontriv(state['splits'] > 0)
    if state['ties']:
        return
    require(m1.get_n_leaves() == m2.get_n_leaves() and m1.get_depth() == m2.get_depth(), 'sizes differ: {}, {} but {}, {}', m1.get_n_leaves(), m1.get_depth(), m2.get_n_leaves(), m2.get_depth())
    Q = gen.query_rows(a, X, c['s'])
    Q = np.concatenate([X, Q])
    near = np.zeros(len(Q), bool)
    for x in a.nodes():
        if not x.leaf:
            near |= (np.abs(Q[:, x.dim] - x.thr) <= 1e-9 * (np.abs(Q).max(axis=1) + np.abs(X).max())) & (np.arange(len(Q)) >= n)
    Q = Q[~near]
    yt = 1e-9 * (1 + np.abs(y).max()) if task[1] == 'R' else 0.0
    require(close(sut.checked_predict(m1, Q, len(Q)), sut.checked_predict(m2, Q, len(Q)), 1e-9, yt), 'rows are predicted differently')
    if task == 'PC':
        require(close(sut.checked_proba(m1, Q, len(Q), k), sut.checked_proba(m2, Q, len(Q), k), 1e-9), 'rows get different probabilities')
    if not a.leaf and state['gain'] > 0:
        f1, f2 = np.asarray(m1.feature_importance()), np.asarray(m2.feature_importance())
        require(f1.shape == f2.shape == (d,) and np.all(np.abs(f1 - f2) <= 1e-9 + 4 * state['tol'] / state['gain']), 'feature importances {} but {}', f1.tolist(), f2.tolist())


EXTRA = {'s': st.integers(0, 9999), 'again': st.booleans(), 'rep2': st.sampled_from(['C', 'C', 'F', 'csr', 'csc', 'list'])}
KW = dict(reps=['C', 'C', 'csc', 'list'], extra=EXTRA, deltas=(0, 0, 1, 0.5, 0.1), prunes=(False, False, True))
KINDS = ['binary', 'grid', 'dyadic', 'int', 'const', 'sparse', 'float']
R_KINDS = ['normal', 'grid', 'binary', 'uniform', 'const', 'sparse', 'dup', 'ints']
CHECK = Check(
    'C24',
    'A perpendicular and a hyperplane model fitted on the same drawn data with the same settings, the latter with all axis directions (in drawn '
    'order, signs, lengths and repetition) as the only candidates, or on a single feature with any optimizer; the trees are compared node by '
    'node, then sizes, predictions, probabilities and importances; where they differ an independent scorer must find an exact tie. '
    'Non-trivial: at least one split was compared.',
    [Part('single feature', gen.case(('PC', 'PR'), recipe_share=.4, rows_kw=dict(nmax=18, dmax=1, kinds=KINDS), recipe_kw=dict(nmax=120, dmax=1, kinds=R_KINDS), **KW), run, 2000),
     Part('axis directions', gen.case(('PC', 'PR'), recipe_share=.4, rows_kw=dict(nmax=18, dmin=2, dmax=4, kinds=KINDS), recipe_kw=dict(nmax=120, dmin=2, dmax=5, kinds=R_KINDS), **KW), run, 2400)],
    ['Data with gaps within the rounding error of a projection are left out: hyperplane trees treat such points as equal.',
     'With prune=True a different resolution of a tie may remove different splits; comparison ends there.'], ref.selftest)
