"""Independent reference computations (never calls the code under test).

Classification: Dirichlet-categorical marginal likelihood as a product of predictive probabilities, i.e. rising factorials:
    p(k | a) = prod_c a_c (a_c+1) ... (a_c+k_c-1) / (A (A+1) ... (A+n-1))
Regression: Normal-gamma marginal likelihood in closed form with all sums in extended precision relative to the prior mean (the closed
form is itself verified against the chain of Student-t predictive densities in selftest())."""
import math

import numpy as np
from scipy.special import gammaln

LD = np.longdouble
EPS = np.finfo(float).eps


class ClsEvidence:
    def __init__(self, prior, n):
        prior = [float(a) for a in prior]
        self.prior = prior
        self.k = len(prior)
        self.A = math.fsum(prior)
        j = np.arange(n, dtype=LD)
        self.tab = [np.concatenate([[LD(0)], np.cumsum(np.log(LD(a) + j))]) for a in prior]
        self.tab_total = np.concatenate([[LD(0)], np.cumsum(np.log(LD(self.A) + j))])
        # magnitude of the gamma function terms an implementation may work with (for the error bound)
        self.mag = sum(abs(math.lgamma(a + n)) + abs(math.lgamma(a)) for a in prior) + abs(math.lgamma(self.A + n)) + abs(math.lgamma(self.A))

    def total(self, y):
        n = len(y)
        r = -self.tab_total[n]
        for c in range(self.k):
            r = r + self.tab[c][int(np.sum(y == c))]
        return float(r), 1e-9 * (1 + abs(float(r))) + 8 * EPS * self.mag

    def scan(self, y):
        """Evidence of y[:i] and y[i:] for i = 1..n-1."""
        n = len(y)
        i = np.arange(1, n)
        left = -self.tab_total[i]
        right = -self.tab_total[n - i]
        for c in range(self.k):
            k = np.cumsum(y == c)
            left = left + self.tab[c][k[:-1]]
            right = right + self.tab[c][k[-1] - k[:-1]]
        s = (left + right).astype(float)
        return s, 1e-9 * (1 + np.abs(s)) + 16 * EPS * self.mag


class RegEvidence:
    def __init__(self, prior, n):
        self.mu, self.kappa, self.alpha, self.beta = [float(p) for p in prior]
        self.n = n

    def stats(self, n, s, q):
        """n points with sum s and sum of squares q, relative to the prior mean."""
        n = np.asarray(n, dtype=LD)
        kappa, alpha = self.kappa + n, self.alpha + n / 2
        beta = self.beta + (q - s * s / n) / 2 + self.kappa * s * s / n / (2 * kappa)
        g = LD(1) * (gammaln((alpha).astype(float) if hasattr(alpha, 'astype') else float(alpha)) - gammaln(self.alpha))
        ev = g + self.alpha * np.log(LD(self.beta)) - alpha * np.log(beta) + np.log(self.kappa / kappa) / 2 - n / 2 * np.log(2 * LD(np.pi))
        return ev, kappa, alpha, beta

    def total(self, y):
        d = y.astype(LD) - LD(self.mu)
        q = (d * d).sum()
        ev, kappa, alpha, beta = self.stats(len(y), d.sum(), q)
        return float(ev), self._err(float(ev), float(alpha), float(beta), float(q), len(y))

    def _err(self, ev, alpha, beta, q, n):
        return 1e-9 * (1 + np.abs(ev)) + 16 * EPS * (np.abs(gammaln(alpha)) + alpha * np.abs(np.log(beta))) + alpha * 8 * EPS * n * q / beta

    def scan(self, y):
        n = len(y)
        d = y.astype(LD) - LD(self.mu)
        s, q = np.cumsum(d), np.cumsum(d * d)
        i = np.arange(1, n)
        e1, _, a1, b1 = self.stats(i, s[:-1], q[:-1])
        d2 = d[::-1]
        s2, q2 = np.cumsum(d2)[:-1][::-1], np.cumsum(d2 * d2)[:-1][::-1]
        e2, _, a2, b2 = self.stats(n - i, s2, q2)
        err = self._err(e1.astype(float), a1.astype(float), b1.astype(float), q[:-1].astype(float), n) \
            + self._err(e2.astype(float), a2.astype(float), b2.astype(float), q2.astype(float), n)
        return (e1 + e2).astype(float), err

    def posterior(self, y, delta=1.0):
        """All four parameters after an update with observations of weight delta each, and the rounding error of beta."""
        n = len(y)
        d = y.astype(LD) - LD(self.mu)
        mean = d.sum() / n
        within = ((d - mean) ** 2).sum()
        nd = LD(n) * LD(delta)
        kappa = self.kappa + nd
        mu = self.mu + nd * mean / kappa
        alpha = self.alpha + nd / 2
        b = self.beta + LD(delta) * within / 2 + self.kappa * nd * mean * mean / (2 * kappa)
        err = 8 * EPS * n * float((d * d).sum())
        return (float(mu), float(kappa), float(alpha), float(b)), err


def evidence(task, prior, n):
    return (ClsEvidence if task[1] == 'C' else RegEvidence)(prior, n)


def log_prior_split(pp, level):
    return (1 + level) * math.log(pp)


def log_prior_no_split(pp, level):
    p = pp ** (1 + level)
    return math.log1p(-p) if p < 0.5 else math.log(-math.expm1((1 + level) * math.log(pp)))


def err_no_split(pp, level):
    """pp**(1+level) carries a rounding error that is magnified by 1-p."""
    return 8 * EPS * (2 + level) / -math.expm1((1 + level) * math.log(pp))


def default_prior(task, n, k):
    m = max(1, n // 100)
    return [float(m)] * k if task[1] == 'C' else [0.0, float(m), m / 2, m / 2]


def cls_posterior(prior, y, delta=1.0):
    return [float(a) + delta * int(np.sum(y == c)) for c, a in enumerate(prior)]


class Scores:
    """All admissible axis-parallel splits of a node with their log posteriors."""

    def __init__(self, X, y, task, prior, pp, level, split_precision):
        n, d = X.shape
        ev = evidence(task, prior, n)
        t, te = ev.total(y)
        self.no_split = t + log_prior_no_split(pp, level)
        self.no_split_err = te + err_no_split(pp, level)
        self.no_split_evidence = t
        self.dims, self.lo, self.hi, self.score, self.err, self.nleft = [], [], [], [], [], []
        self.n_splits = [0] * d
        for dim in range(d):
            o = np.argsort(X[:, dim], kind='stable')
            x = X[o, dim]
            gap = np.abs(x[1:] - x[:-1])
            cand = np.where(gap > split_precision)[0]
            self.n_splits[dim] = len(cand)
            if len(cand) == 0:
                continue
            s, e = ev.scan(y[o])
            e = np.broadcast_to(e, s.shape)
            self.dims.append(np.full(len(cand), dim))
            self.lo.append(x[cand])
            self.hi.append(x[cand + 1])
            self.nleft.append(cand + 1)
            self.score.append(s[cand] + log_prior_split(pp, level) - math.log(len(cand) * d))
            self.err.append(e[cand])
        cat = lambda l, t: np.concatenate(l) if l else np.zeros(0, t)
        self.dims, self.lo, self.hi = cat(self.dims, int), cat(self.lo, float), cat(self.hi, float)
        self.score, self.err, self.nleft = cat(self.score, float), cat(self.err, float), cat(self.nleft, int)

    def find(self, dim, thr):
        """Index of the candidate whose interval (lo, hi] contains the threshold, or None."""
        m = np.where((self.dims == dim) & (self.lo < thr) & (thr <= self.hi))[0]
        return int(m[0]) if len(m) == 1 else None

    def best(self):
        return (float(self.score.max()), float(self.err.max())) if len(self.score) else (-math.inf, 0.0)


def selftest():
    """The closed forms used above against the chain rule of predictive probabilities."""
    rs = np.random.RandomState(5)
    for _ in range(20):
        k, n = rs.randint(1, 5), rs.randint(1, 30)
        prior = rs.uniform(0.1, 5, k)
        y = rs.randint(0, k, n)
        cnt, lp = np.array(prior), 0.0
        for c in y:
            lp += math.log(cnt[c] / cnt.sum())
            cnt[c] += 1
        assert abs(lp - ClsEvidence(prior, n).total(y)[0]) < 1e-9
        s, _ = ClsEvidence(prior, n + 1).scan(np.append(y, 0))
        for i in range(1, n):
            assert abs(s[i - 1] - ClsEvidence(prior, n).total(y[:i])[0] - ClsEvidence(prior, n + 1).total(np.append(y, 0)[i:])[0]) < 1e-9
        mu, ka, al, be = rs.normal(), rs.uniform(.1, 5), rs.uniform(.1, 5), rs.uniform(.1, 5)
        y = rs.normal(1, 2, n)
        m, kk, a, b, lp = mu, ka, al, be, 0.0
        for v in y:
            nu, sc = 2 * a, b * (kk + 1) / (a * kk)
            lp += math.lgamma((nu + 1) / 2) - math.lgamma(nu / 2) - .5 * math.log(nu * math.pi * sc) - (nu + 1) / 2 * math.log1p((v - m) ** 2 / nu / sc)
            b += kk * (v - m) ** 2 / (2 * (kk + 1))
            m = (kk * m + v) / (kk + 1)
            kk += 1
            a += .5
        R = RegEvidence([mu, ka, al, be], n)
        assert abs(lp - R.total(y)[0]) < 1e-8, (lp, R.total(y))
        p, _ = R.posterior(y)
        assert np.allclose(p, [m, kk, a, b], rtol=1e-9)
        if n > 2:
            s, _ = R.scan(y)
            assert abs(s[1] - R.total(y[:2])[0] - R.total(y[2:])[0]) < 1e-9
