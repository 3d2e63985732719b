"""Calibration: the models against data simulated from their own assumptions (no formula of theirs is used)."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from bdt import sut
from bdt.core import Check, Part, require

PP = 1 - 2.0 ** -30  # splits are always better, so that their evidence is recorded
Z = 7.5


def parameters(task, prior, rs, m):
    """m sets of parameters drawn from the prior"""
    if task[1] == 'C':
        a = np.asarray(prior, dtype=float)
        g = np.log(rs.gamma(a + 1, size=(m, len(a)))) + np.log(rs.uniform(size=(m, len(a)))) / a  # logarithms of Gamma variates, tiny ones too
        g = np.exp(g - g.max(axis=1, keepdims=True))
        return g / g.sum(axis=1, keepdims=True)
    mu, kappa, alpha, beta = prior
    tau = rs.gamma(alpha, 1 / beta, m)
    return np.stack([mu + rs.normal(size=m) / np.sqrt(kappa * tau), 1 / np.sqrt(tau)], axis=1)


def targets(task, theta, n, rs):
    """n targets for each of the sets of parameters"""
    if task[1] == 'C':
        return (rs.uniform(size=(len(theta), n, 1)) > np.cumsum(theta, axis=1)[:, None, :-1]).sum(axis=2).astype(float)
    return theta[:, :1] + theta[:, 1:] * rs.normal(size=(len(theta), n))


def two_sided(u, v, what):
    """The means of two samples are equal."""
    se = np.sqrt(u.var() / len(u) + (v.var() / len(v) if len(v) > 1 else 0)) + 1e-12
    z = (u.mean() - v.mean()) / se
    require(abs(z) < Z, '{}: mean {} instead of {} ({} standard errors)', what, u.mean(), v.mean(), z)


def zero_mean(u, v, what):
    """The sum of independent numbers of at most 1 with mean 0 and variances v (Bernstein's inequality: fails with probability 1e-11)."""
    S, V = float(u.sum()), float(v.sum())
    require(S ** 2 <= 2 * 26 * (V + abs(S) / 3), '{}: sum {} instead of 0 +- {}', what, S, V ** .5)


class Fits:
    """Fits models of one kind on the same X, at most once for the same class counts on either side."""

    def __init__(self, c, X, n1, k):
        self.c, self.X, self.n1, self.k, self.memo = c, X, n1, k, {}

    def __call__(self, y):
        c = self.c
        if c['task'][1] == 'C':
            key = tuple(np.bincount(y[:self.n1].astype(int), minlength=self.k)) + tuple(np.bincount(y[self.n1:].astype(int), minlength=self.k))
            if key not in self.memo:
                self.memo[key] = self.fit(y)
            return self.memo[key]
        return self.fit(y)

    def fit(self, y):
        c = self.c
        d = self.X.shape[1]
        m = sut.make_model(c['task'], {'pp': PP, 'prior': list(c['prior'])}, **({'optimizer': sut.ListOptimizer(np.eye(d)[:1])} if c['task'][0] == 'H' else {}))
        m.fit(self.X[c['order']], y[c['order']])
        return m


def full(y, k):
    return len(np.unique(y)) == k


def run_evidence(c, rec):
    """Two places: the recorded log odds of one against two regions are the true odds; predictions for either place are calibrated."""
    task, prior, n1, n2 = c['task'], c['prior'], c['n1'], c['n2']
    n, rs, k = n1 + n2, np.random.RandomState(c['s']), len(c['prior'])
    d = c['d']
    X = np.full((n, d), 3.5)
    X[:, 0] = np.r_[np.full(n1, -1.0), np.full(n2, c['x'])]
    c = dict(c, order=rs.permutation(n))
    fits = Fits(c, X, n1, k)
    m = 16000 if task[1] == 'C' else 1200
    one, two = parameters(task, prior, rs, m), [parameters(task, prior, rs, m) for _ in range(2)]
    y_one = targets(task, one, n, rs)
    y_two = np.concatenate([targets(task, two[0], n1, rs), targets(task, two[1], n2, rs)], axis=1)
    new = [targets(task, two[0], 1, rs)[:, 0], targets(task, two[1], 1, rs)[:, 0]]
    if task[1] == 'C':  # only data sets with all classes can be fitted (an event of the data alone: the others count as zero on both sides)
        ok1, ok2 = [np.array([full(y, k) for y in v]) for v in (y_one, y_two)]
        weight = ok1.mean() + ok2.mean()
        if weight * m < 200:
            rec.skip('hardly any data set has all classes')
            return
    else:
        ok1 = ok2 = np.ones(m, dtype=bool)
    f1, f2 = np.zeros(m), np.zeros(m)
    pit = [[], []]
    for ok, ys, f, is_two in ((ok1, y_one, f1, False), (ok2, y_two, f2, True)):
        for i in np.where(ok)[0]:
            model = fits(ys[i])
            rec.count()
            if not hasattr(model, '_calibration'):
                root = sut.view(model, task)
                require(not root.leaf, 'no split although splitting has a prior probability of almost one: {}', ys[i].tolist())
                q = np.full((2, d), 3.5)
                q[:, 0] = -1.0, c['x']
                P = sut.checked_proba(model, q, 2, k) if task[1] == 'C' else (sut.checked_predict(model, q, 2), sut.checked_raw(model, q, 2, 4)[:, 1])
                model._calibration = root.lsp - root.lns - np.log(PP / d) + np.log(1 - PP), P
            log_bf, P = model._calibration
            f[i] = 1 / (1 + np.exp(log_bf)) if is_two else 1 / (1 + np.exp(-log_bf))
            if is_two:
                for s in (0, 1):
                    pit[s].append((P[s], two[s][i]) if task[1] == 'C' else (P[0][s], P[1][s], new[s][i]))
    # the means of f1 and f2 agree, and so do those of f1^2 and f2(1-f2): neither sample alone shows rare events
    zero_mean(f1 - f2, np.full(m, max(f1.var(), (f2 * (1 - f2)).mean()) + max(f2.var(), (f1 * (1 - f1)).mean())),
              'probability of two regions where there is one, against that of one where there are two (means {} and {})'.format(f1.mean(), f2.mean()))
    for s in (0, 1):
        if task[1] == 'C':
            p, t = np.array([v[0] for v in pit[s]]), np.array([v[1] for v in pit[s]])
            if len(p):  # the true probabilities instead of new targets drawn from them: the same means with less noise
                A = 1 + sum(prior) + (n1, n2)[s]  # (variances under the posterior of the data)
                for j in range(k):
                    v = p[:, j] * (1 - p[:, j]) / A
                    zero_mean(t[:, j] - p[:, j], v, 'frequency of class {} minus its predicted probability, place {}'.format(j, s))
                    w = p[:, j] - p[:, j].mean()
                    zero_mean((t[:, j] - p[:, j]) * w, v * w ** 2, 'the same weighted by the prediction, class {} place {}'.format(j, s))
                zero_mean(((t - p) * p).sum(axis=1), np.maximum(0, (p ** 3).sum(axis=1) - (p ** 2).sum(axis=1) ** 2) / A, 'the same weighted by the prediction, summed over the classes, place {}'.format(s))
        else:
            pred, post, t = np.array([v[0] for v in pit[s]]), np.array([v[1] for v in pit[s]]), np.array([v[2] for v in pit[s]])
            two_sided((t > pred).astype(float), np.full(1, .5), 'share of targets above the prediction at place {}'.format(s))
            mu, kappa, alpha, beta = post.T
            U = stats.t.cdf((t - mu) * np.sqrt(alpha * kappa / (beta * (kappa + 1))), 2 * alpha)
            ks = stats.kstest(U, 'uniform')
            require(ks.pvalue > 1e-12, 'new targets at place {} do not follow the predictive distribution of the leaf (KS {}, p {})', s, ks.statistic, ks.pvalue)
    rec.label(task, 'n1={}'.format(min(n1, 5)), 'd={}'.format(d), 'k={}'.format(k) if task[1] == 'C' else 'alpha={}'.format(prior[2]))
    rec.nontriv(0.02 < f1.mean())


def run_noise(c, rec):
    """Targets that have nothing to do with the features: the root is split at most with odds p/(1-p)."""
    task, prior, p = c['task'], c['prior'], c['pp']
    rs, k, n, d = np.random.RandomState(c['s']), len(c['prior']), c['n'], c['d']
    dirs = np.eye(d)
    if task[0] == 'H':
        dirs = rs.normal(size=(c['dirs'], d)) if d > 1 else np.eye(1)
    m = 250
    Y = targets(task, parameters(task, prior, rs, m), n, rs)
    splits = tried = 0
    for y in Y:
        if task[1] == 'C' and not full(y, k):
            continue
        X = rs.normal(size=(n, d)) if c['grid'] == 0 else rs.randint(0, c['grid'], (n, d)).astype(float)
        model = sut.make_model(task, {'pp': p, 'prior': list(prior)}, **({'optimizer': sut.ListOptimizer(dirs)} if task[0] == 'H' else {}))
        splits += not sut.view(model.fit(X, y), task).leaf
        tried += 1
    rec.count(tried)
    bound = p / (1 - p) * len(dirs) / d
    require(bound >= 1 or stats.binom.sf(splits - 1, m, bound) > 1e-12, '{} of {} data sets of pure noise are split, with a prior probability of {}', splits, m, p)
    rec.label(task, 'd={}'.format(d), 'pp={}'.format(p))
    rec.nontriv(tried > m // 4)


def run_structure(c, rec):
    """Targets drawn for two regions: the root stays whole at most with probability (1-p)/w for a split of prior weight w."""
    task, prior, p = c['task'], c['prior'], c['pp']
    rs, k, n, d = np.random.RandomState(c['s']), len(c['prior']), c['n'], c['d']
    m = 250
    whole = tried = 0
    A, B = (parameters(task, prior, rs, m) for _ in range(2))
    for a, b in zip(A, B):
        X = rs.normal(size=(n, d)) if c['grid'] == 0 else rs.randint(0, c['grid'], (n, d)).astype(float)
        j = rs.randint(d)
        v = np.unique(X[:, j])
        if len(v) < 2:
            continue
        i = rs.randint(1, len(v))
        low = X[:, j] < v[i]
        y = np.empty(n)
        y[low], y[~low] = targets(task, a[None], low.sum(), rs)[0], targets(task, b[None], (~low).sum(), rs)[0]
        if task[1] == 'C' and not full(y, k):
            continue
        model = sut.make_model(task, {'pp': p, 'prior': list(prior)}, **({'optimizer': sut.ListOptimizer(np.eye(d))} if task[0] == 'H' else {}))
        whole += sut.view(model.fit(X, y), task).leaf
        tried += 1
    rec.count(tried)
    bound = (1 - p) / p * (n - 1) * d
    require(bound >= 1 or stats.binom.sf(whole - 1, m, bound) > 1e-12, '{} of {} data sets of two regions are not split, with a prior probability of splitting of {}', whole, m, p)
    rec.label(task, 'd={}'.format(d), 'pp={}'.format(p))
    rec.nontriv(tried > m // 4)


@st.composite
def setting(draw, extra):
    task = draw(st.sampled_from(['PC', 'HC', 'PR', 'HR', 'PC', 'PR']))
    if task[1] == 'C':
        k = draw(st.sampled_from([2, 4, 3, 2, 5, 4]))
        prior = [draw(st.sampled_from([0.005, 0.1, 0.5, 1, 1, 2, 5, 20.0])) for _ in range(k)]
    else:
        prior = [draw(st.sampled_from([0.0, 1.5, -300.0])), draw(st.sampled_from([0.25, 1.0, 7.0])), draw(st.sampled_from([0.5, 1.0, 2.0, 8.0])), draw(st.sampled_from([0.001, 1.0, 50.0]))]
    c = {'task': task, 'prior': prior, 's': draw(st.integers(0, 10 ** 6))}
    for name, s in extra.items():
        c[name] = draw(s)
    return c


CHECK = Check(
    'C28',
    'Drawn settings (model, number of classes, prior, sizes, dimensions); for each, hundreds to thousands of data sets simulated from the prior: '
    'log odds of one against two regions, predictive probabilities and distributions of new targets, rates of splits in noise and of missed '
    'splits. Statistical tests with fixed seeds reject at about 1e-11. Non-trivial: the data do not decide the question by themselves.',
    [Part('evidence', setting({'n1': st.integers(1, 8), 'n2': st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 16, 30]), 'd': st.integers(1, 3), 'x': st.sampled_from([2.0, -4.0, 1e6])}), run_evidence, 190),
     Part('noise', setting({'n': st.integers(4, 40), 'd': st.integers(1, 5), 'dirs': st.integers(1, 4), 'grid': st.sampled_from([0, 0, 2, 5]), 'pp': st.sampled_from([0.01, 0.05, 0.1, 0.3])}), run_noise, 160),
     Part('structure', setting({'n': st.integers(4, 40), 'd': st.integers(1, 4), 'grid': st.sampled_from([0, 0, 3, 6]), 'pp': st.sampled_from([0.999, 0.9999, 1 - 1e-6])}), run_structure, 160)],
    ['Only simulated data sets in which every class occurs can be fitted; the tests condition on this event.'])
