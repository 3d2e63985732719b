import numpy as np
from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.common import classes_of
from bdt.core import Check, Part, require

LD = np.longdouble


def groups(v, sp):
    """Index of the cluster of every value: neighbours not further apart than sp belong together."""
    o = np.argsort(v, kind='stable')
    g = np.concatenate([[0], np.cumsum(np.abs(np.diff(v[o])) > sp)])
    out = np.empty(len(v), int)
    out[o] = g
    return out


def run(c, rec):
    task, par = c['task'], dict(c['par'])
    X, y = gen.data(c['data'])
    n, d = X.shape
    # the precision: a fixed number, a gap that occurs in the data (or a neighbouring number), or the spread of the data
    col = X[:, c['p'] % d]
    gaps = np.unique(np.abs(np.diff(np.sort(col))))
    spread = max(float(np.ptp(X[:, j])) for j in range(d))
    how = c['how']
    if how == 'gap' and len(gaps):
        sp = float(gaps[c['p'] // 7 % len(gaps)])
    elif how == 'below' and len(gaps):
        sp = max(0.0, float(np.nextafter(gaps[c['p'] // 7 % len(gaps)], 0)))
    elif how == 'above' and len(gaps):
        sp = float(np.nextafter(gaps[c['p'] // 7 % len(gaps)], np.inf))
    elif how == 'median' and len(gaps):
        sp = float(np.median(gaps))
    elif how == 'spread':
        sp = spread * (1 if task[0] == 'P' else np.sqrt(d) * 1.01)
    else:
        sp = c['sp']
    par['sp'] = sp
    m = sut.make_model(task, par).fit(sut.represent(X, c['rep']), y.copy())
    root = sut.view(m, task)
    if sut.assign_train(root, X).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    k = classes_of(c, y) if task[1] == 'C' else 0
    splits = 0
    for x in root.nodes():
        Xi = X[x.train]
        scale = np.abs(Xi).max()
        where = 'node at level {} with {} points'.format(x.level, len(Xi))
        rec.count()
        if not x.leaf:
            splits += 1
            if x.dim is not None:
                v = Xi[:, x.dim]
                left = v < x.thr
                gap = v[~left].min() - v[left].max()
                require(gap > sp, '{}: split x{}={} between {} and {} which are not further apart than {}', where, x.dim, x.thr, v[left].max(), v[~left].min(), sp)
                g = groups(v, sp)
                require(not set(g[left]) & set(g[~left]), '{}: split x{}={} separates points joined by steps not greater than {}', where, x.dim, x.thr, sp)
            else:
                v = ((Xi.astype(LD) - x.origin.astype(LD)) * x.normal.astype(LD)).sum(axis=1)
                left = np.asarray(v < 0)
                gap = float(v[~left].min() - v[left].max())
                require(gap > sp - 1e-9 * scale, '{}: the points next to the hyperplane are {} apart, not more than {}', where, gap, sp)
                require(gap > 1e-14 * scale, '{}: the hyperplane separates points with the same projection ({} apart)', where, gap)
            # identical rows stay together
            rows = np.ascontiguousarray(Xi + 0.0).view([('', float)] * d).reshape(-1)
            require(not set(rows[left].tolist()) & set(rows[~left].tolist()), '{}: identical rows are separated', where)
        elif task[0] == 'P' and (x is root or (len(Xi) > 1 and len(set(y[x.train].tolist())) > 1)):
            # every threshold with a larger gap is available: none of them may beat not splitting
            S = ref.Scores(Xi, y[x.train], task, sut.node_prior(x, task, k), par['pp'], x.level, sp)
            b, e = S.best()
            require(b <= S.no_split + e + S.no_split_err or e + S.no_split_err > 1e-3, '{}: leaf although the gaps larger than {} admit a better split', where, sp)
    if task[0] == 'P' and sp >= spread or task[0] == 'H' and sp >= np.sqrt(d) * spread * (1 + 1e-9):
        require(root.leaf, 'a tree with {} splits although the precision {} is not less than the spread {}', splits, sp, spread)
        rec.label('single leaf by precision')
    if task[0] == 'P':
        # the precision matters through the gaps only: without gaps below it the tree is that with precision 0 (and vice versa)
        allgaps = np.concatenate([np.abs(np.diff(np.sort(X[:, j]))) for j in range(d)])
        if not np.any((allgaps > 0) & (allgaps <= sp)):
            z = sut.view(sut.make_model(task, dict(par, sp=0.0)).fit(X.copy(), y.copy()), task)
            require(sut.snap(z) == sut.snap(sut.view(sut.make_model(task, par).fit(X.copy(), y.copy()), task)), 'the precision {} changes the tree although all gaps are larger', sp)
            rec.label('no gap below the precision')
        else:
            rec.label('gaps below the precision')
    rec.label(task, how, 'splits={}'.format(min(4, splits)), 'sp=0' if sp == 0 else 'sp>0')
    rec.nontriv(splits > 0 and (sp > 0 or len(np.unique(X, axis=0)) < n))


EXTRA = {'how': st.sampled_from(['fixed', 'gap', 'gap', 'below', 'above', 'median', 'spread']), 'p': st.integers(0, 999), 'sp': st.sampled_from([0.0, 0.0, 0.1, 0.125, 0.5, 1.0, 1.5, 10.0])}
KW = dict(sps=(0.0,), extra=EXTRA)
CHECK = Check(
    'C22',
    'Drawn data (clusters, grids, duplicates, adjacent doubles) with a precision equal to, one ulp below and above a gap of the data, the '
    'median gap, the spread, or a fixed number; at every split the gap, the clusters joined by small steps and identical rows are examined, at '
    'perpendicular leaves all admissible thresholds are scored, and the tree is compared with precision 0 where no gap is below it. '
    'Non-trivial: the tree splits, with a positive precision or duplicate rows.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(nmin=3, nmax=20, dmax=3), recipe_kw=dict(nmax=150), recipe_share=.35, reps=['C', 'C', 'csc', 'list'], **KW), run, 3500),
     Part('hyperplane', gen.case(('HC', 'HR'), rows_kw=dict(nmin=3, nmax=16, dmax=3), recipe_kw=dict(nmax=60), recipe_share=.35, reps=['C', 'C', 'csr'],
                                 opt_kinds=('list', 'list', 'rh', 'quasi', '2p'), **KW), run, 1500)],
    ['Hyperplane gaps are decided up to 1e-9 of the data range.'], ref.selftest)
