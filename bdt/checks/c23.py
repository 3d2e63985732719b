import math

import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.common import close, split_scores
from bdt.core import Check, Part, require

EPS = np.finfo(float).eps


class Pair:
    """Compares two trees fitted on the same rows with related targets (or any transformation that keeps the rows in place)."""

    def __init__(self, task, par, X, y, k, rec, shift, noise, posterior, y2=None):
        self.y2 = y2
        self.task, self.par, self.X, self.y, self.k, self.rec = task, par, X, y, k, rec
        self.shift, self.noise, self.posterior = shift, noise, posterior
        self.ties = self.splits = 0

    def scores(self, x, z):
        """Log posteriors of not splitting and of splitting node x as node z does, on the original targets, with error bounds."""
        return split_scores(z, self.X, self.y, self.task, sut.node_prior(x, self.task, self.k), self.par['pp'], self.par['sp'])

    def compare(self, x, z, where='root'):
        rec = self.rec
        rec.count()
        require(x.n == z.n and x.level == z.level, '{}: {} points become {}', where, x.n, z.n)
        self.posterior(x, z, where)
        if x.leaf and z.leaf:
            return
        noise = self.noise(x)
        if self.y2 is not None and len(np.unique(self.y[x.train])) > 1 == len(np.unique(self.y2[x.train])):
            rec.skip('targets that became equal by rounding')  # such nodes are not split
            self.ties += 1
            return
        if x.leaf or z.leaf:
            s = self.scores(x, z if x.leaf else x)
            if s is None:
                rec.skip('hyperplane gaps within rounding')
                self.ties += 1
                return
            require(abs(s[0] - s[1]) <= 2 * (s[2] + s[3]) + noise, '{}: a {} becomes a {} although not splitting scores {} and splitting {}', where, *(('leaf', 'split') if x.leaf else ('split', 'leaf')), s[0], s[1])
            self.ties += 1
            return
        self.splits += 1
        a, b = self.scores(x, x), self.scores(x, z)
        if a is None or b is None:
            rec.skip('hyperplane gaps within rounding')
            self.ties += 1
            return
        tol = 2 * (a[3] + b[3] + a[2]) + noise
        shift = self.shift(x)
        require(abs(x.lns - z.lns - shift) <= tol and abs(x.lsp - z.lsp - shift) <= tol, '{}: log posteriors {}, {} become {}, {} (a change by {} is due)', where, x.lns, x.lsp, z.lns, z.lsp, -shift)
        if set(x.c1.train.tolist()) == set(z.c1.train.tolist()):
            z1, z2 = z.c1, z.c2
        elif x.normal is not None and set(x.c1.train.tolist()) == set(z.c2.train.tolist()):  # the mirrored direction
            z1, z2 = z.c2, z.c1
        else:
            require(abs(a[1] - b[1]) <= tol, '{}: the split with log posterior {} becomes one with {}', where, a[1], b[1])
            self.ties += 1
            return
        if x.dim is not None and x.dim != z.dim or x.normal is not None and not (close(np.abs(x.normal), np.abs(z.normal), 1e-9, 1e-12) and close(x.origin, z.origin, 1e-9, 1e-12)):
            require(abs(a[1] - b[1]) <= tol, '{}: the split with log posterior {} becomes one with {}', where, a[1], b[1])
            self.ties += 1  # the same partition of the training rows by another hyperplane
        elif x.dim is not None:
            require(x.thr == z.thr, '{}: threshold {} becomes {}', where, x.thr, z.thr)
        self.compare(x.c1, z1, where + '.1')
        self.compare(x.c2, z2, where + '.2')


def fit(task, par, X, y, rep):
    m = sut.make_model(task, par).fit(sut.represent(X, rep), y.copy())
    root = sut.view(m, task)
    amb = sut.assign_train(root, X)
    return m, root, bool(amb.any())


def run_regression(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    n, d = X.shape
    s, off = c['scale'], c['offset']
    if c['exact']:  # targets and transformed targets are all representable
        y = np.round(y * 16) / 16
        mu = round(par['prior'][0] * 16) / 16
    else:
        off = c['offset_small'] * (1 + np.abs(y).max())
        s = c['scale_any']
        mu = par['prior'][0]
    par = dict(par, prior=[mu] + par['prior'][1:])
    y2 = s * y + off
    par2 = dict(par, prior=[s * mu + off] + [par['prior'][1], par['prior'][2], s * s * par['prior'][3]])
    if c['exact']:
        require_exact = np.array_equal((y2 - off) / s, y) and (par2['prior'][0] - off) / s == mu
        assert require_exact
    m1, a, amb1 = fit(task, par, X, y, c['rep'])
    m2, b, amb2 = fit(task, par2, X, y2, c['rep'])
    if amb1 or amb2:
        rec.skip('training rows within rounding of a hyperplane')
        return
    ymax = float(np.abs(np.append(y2, par2['prior'][0])).max())

    def noise(x):
        """Effect of the rounding of the transformed targets on a log posterior."""
        if c['exact']:
            return 0.0
        p = b.prior if x is a or not par['delta'] else sut.node_prior(x, task, 0) * np.array([1, 1, 1, s * s])
        spread = float(np.abs(y2[x.train] - par2['prior'][0]).max()) + abs(s) * 1e-300
        return 64 * EPS * x.n * (p[2] + x.n) * ymax * spread / p[3] + 1e-9 * x.n

    def posterior(x, z, where):
        q, r = x.posterior, z.posterior
        rows = np.arange(n) if par['delta'] else x.train  # a prior that is updated carries the rounding of all ancestors
        spread = float(np.abs(y[rows] - mu).max()) + abs(float(q[0] - mu))
        tmu = 1e-9 * abs(s) * spread + 16 * EPS * ymax
        require(abs(s * q[0] + off - r[0]) <= tmu, '{}: posterior mean {} becomes {} instead of {}', where, q[0], r[0], s * q[0] + off)
        require(close(q[1:3], r[1:3], 1e-9), '{}: kappa, alpha {} become {}', where, q[1:3].tolist(), r[1:3].tolist())
        tb = 1e-8 * r[3] + 64 * EPS * len(rows) * (s * spread) ** 2 + (0.0 if c['exact'] and not par['delta'] else 64 * EPS * len(rows) * ymax * abs(s) * spread)
        require(abs(s * s * q[3] - r[3]) <= tb, '{}: beta {} becomes {} instead of {}', where, q[3], r[3], s * s * q[3])

    P = Pair(task, par, X, y, 0, rec, lambda x: x.n * math.log(abs(s)), noise, posterior, y2)
    if par['delta']:  # the prior means of children are rounded to a multiple of eps*offset
        P.noise = lambda x: 64 * EPS * x.n * (1 + x.n) * ymax * (float(np.abs(y2 - par2['prior'][0]).max()) + ymax * EPS) / min(z.prior[3] if z.prior is not None else par2['prior'][3] for z in b.nodes()) + 1e-9 * x.n
    P.compare(a, b)
    rec.label(task, 'exact' if c['exact'] else 'rounded', 'ties' if P.ties else 'no ties', 'splits={}'.format(min(5, P.splits)), 'offset/spread>=1e6' if abs(off) >= 1e6 * abs(s) * (np.ptp(y) + 1e-300) else 'small offset', 's<0' if s < 0 else 's>0')
    rec.nontriv(P.splits > 0)
    if P.ties:
        return
    Q = gen.query_rows(a, X, c['q'])
    own, amb = sut.leaf_of(a, Q)
    p1, p2 = sut.checked_predict(m1, Q, len(Q)), sut.checked_predict(m2, Q, len(Q))
    tol = 1e-9 * abs(s) * (np.abs(y - mu).max() + np.abs(p1 - mu).max()) + 16 * EPS * ymax
    for i in range(len(Q)):
        if not amb[i]:
            require(abs(s * p1[i] + off - p2[i]) <= tol, 'row {}: prediction {} becomes {} instead of {}', Q[i].tolist(), p1[i], p2[i], s * p1[i] + off)


def run_classes(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    k = gen.n_classes(y)
    rs = np.random.RandomState(c['q'])
    pi = rs.permutation(k)
    if np.array_equal(pi, np.arange(k)):
        pi = np.roll(pi, 1)
    y2 = pi[y.astype(int)].astype(float)
    par2 = dict(par)
    if par['prior'] is not None:
        p = [0.0] * k
        for i in range(k):
            p[pi[i]] = par['prior'][i]
        par2['prior'] = p
    m1, a, amb1 = fit(task, par, X, y, c['rep'])
    m2, b, amb2 = fit(task, par2, X, y2, c['rep'])
    if amb1 or amb2:
        rec.skip('training rows within rounding of a hyperplane')
        return

    def posterior(x, z, where):
        require(close(x.posterior, z.posterior[pi], 1e-12), '{}: posterior {} becomes {} under {}', where, x.posterior.tolist(), z.posterior.tolist(), pi.tolist())

    P = Pair(task, par, X, y, k, rec, lambda x: 0.0, lambda x: 0.0, posterior)
    P.compare(a, b)
    rec.label(task, 'k={}'.format(k), 'ties' if P.ties else 'no ties', 'splits={}'.format(min(5, P.splits)))
    rec.nontriv(P.splits > 0)
    if P.ties:
        return
    Q = gen.query_rows(a, X, c['q'])
    own, amb = sut.leaf_of(a, Q)
    q1, q2 = sut.checked_proba(m1, Q, len(Q), k), sut.checked_proba(m2, Q, len(Q), k)
    p1, p2 = sut.checked_predict(m1, Q, len(Q)), sut.checked_predict(m2, Q, len(Q))
    for i in range(len(Q)):
        if not amb[i]:
            require(close(q1[i], q2[i][pi], 1e-12), 'row {}: probabilities {} become {} under {}', Q[i].tolist(), q1[i].tolist(), q2[i].tolist(), pi.tolist())
            top = np.sort(q1[i])
            if len(top) < 2 or top[-1] > top[-2] * (1 + 1e-12):
                require(p2[i] == pi[int(p1[i])], 'row {}: class {} becomes {} under {}', Q[i].tolist(), p1[i], p2[i], pi.tolist())


R_EXTRA = {'scale': st.sampled_from([1.0, 2.0, 0.5, -1.0, -4.0, 1024.0, 2.0 ** -20, 3.0, -5.0]),
           'offset': st.one_of(st.sampled_from([0.0, 1e3, -1e5, 2.0 ** 30, -2.0 ** 33]), st.integers(-2 ** 33, 2 ** 33).map(float)),
           'scale_any': st.sampled_from([0.1, -0.3, 1e-8, 1e6, 7.7, -1e3, 1e-150, 1e100]), 'offset_small': st.sampled_from([0.0, 0.0, 0.3, -5.0, 1e3]),
           'exact': st.booleans(), 'q': st.integers(0, 999)}


@st.composite
def regression(draw, tasks, **kw):
    c = draw(gen.case(tasks, none=False, yscales=False, extra=R_EXTRA, **kw))
    if c['exact'] and c['scale'] == 2.0 ** -20:
        c['offset'] = float(int(c['offset']) % 2 ** 20)
    if not c['exact'] and abs(np.log10(abs(c['scale_any']))) > 20:
        c['offset_small'] = 0.0
    return c


HK = dict(rows_kw=dict(nmin=3, nmax=14), recipe_kw=dict(nmax=60, kmax=12), recipe_share=.4, reps=['C', 'C', 'csr'], opt_kinds=('list', 'list', 'rh', 'quasi'))
PK = dict(rows_kw=dict(nmin=3, nmax=18, kinds=gen.SAFE_KINDS), recipe_kw=dict(nmax=200), recipe_share=.4, reps=['C', 'C', 'csc', 'list'])
CHECK = Check(
    'C23',
    'Pairs of fits on the same rows: regression targets scaled and shifted together with the prior (exactly representable transforms with offsets '
    'up to 2^33, and rounded ones), and class labels permuted together with an asymmetric prior; trees are compared node by node, then '
    'predictions and probabilities. Where the trees differ, an independent scorer must find an exact tie. Non-trivial: at least one split compared.',
    [Part('regression, perpendicular', regression(('PR',), **PK), run_regression, 1800), Part('regression, hyperplane', regression(('HR',), **HK), run_regression, 900),
     Part('classes, perpendicular', gen.case(('PC',), extra={'q': st.integers(0, 999)}, **dict(PK, rows_kw=dict(PK['rows_kw'], kmax=6), recipe_kw=dict(nmax=200, kmax=16))), run_classes, 1800),
     Part('classes, hyperplane', gen.case(('HC',), extra={'q': st.integers(0, 999)}, **HK), run_classes, 900)],
    ['The effect of rounding the transformed targets is bounded and tolerated.'])
