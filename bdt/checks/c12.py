import decimal
import math

import numpy as np
from hypothesis import strategies as st

from bayesian_decision_tree.utils import r2_series_generator
from bdt.core import Check, Part, require

D50 = decimal.Context(prec=60)
_alpha = {}


def alphas(d):
    """Inverse powers of the positive root of x^(d+1) = x + 1 to 50 digits (bisection, then Newton)."""
    if d not in _alpha:
        with decimal.localcontext(D50):
            x = decimal.Decimal(3 ** (1 / (d + 1)))
            for _ in range(200):
                f = x ** (d + 1) - x - 1
                nx = x - f / ((d + 1) * x ** d - 1)
                if abs(nx - x) < decimal.Decimal(10) ** -55:
                    break
                x = nx
            assert abs(nx ** (d + 1) - nx - 1) < decimal.Decimal(10) ** -45
            _alpha[d] = [1 / nx ** (i + 1) for i in range(d)]
    return _alpha[d]


def expected(d, n):
    with decimal.localcontext(D50):
        return np.array([float((decimal.Decimal('0.5') + n * a) % 1) for a in alphas(d)])


def check_point(p, d, n):
    p = np.asarray(p, dtype=float)
    require(p.shape == (d,), 'point {} of the {}-dimensional sequence has shape {}', n, d, p.shape)
    require(np.all((p >= 0) & (p < 1)), 'point {} is outside [0,1): {}', n, p.tolist())
    diff = np.abs(p - expected(d, n))
    diff = np.minimum(diff, 1 - diff)
    require(np.all(diff <= 1e-12 + n * 2e-15), 'd={}: point {} is {} instead of {}', d, n, p.tolist(), expected(d, n).tolist())


def run(c, rec):
    """Several generators, read in an interleaved way; points handed out are overwritten by the caller."""
    gens, read = [], []
    for op in c['ops']:
        if op[0] == 'new':
            gens.append((op[1], r2_series_generator(op[1])))
            read.append(0)
        elif gens:
            i = op[1] % len(gens)
            d, g = gens[i]
            for _ in range(op[2]):
                p = next(g)
                read[i] += 1
                rec.count()
                if read[i] <= 3 or read[i] % 7 == 0 or _ == op[2] - 1:
                    check_point(p, d, read[i])
                if c['scribble']:
                    p[:] = -1.0
    rec.label('generators={}'.format(min(len(gens), 4)), *('d={}'.format(d if d < 6 else '6-20' if d < 21 else '>20') for d, _ in gens))
    rec.nontriv(sum(1 for r in read if r > 1) > 0)


def run_prefix(c, rec):
    """Long prefixes: exactness far out, distinct points and low discrepancy in one and two dimensions."""
    d, n = c['d'], c['n']
    g = r2_series_generator(d)
    P = np.array([next(g) for _ in range(n)])
    for i in sorted({0, n // 2, n - 1, min(n - 1, 65535), min(n - 1, 65536)} | set(np.random.RandomState(c['seed']).randint(0, n, 6).tolist())):
        check_point(P[i], d, i + 1)
    x = np.sort(P[:, 0])
    i = np.arange(1, n + 1)
    disc = max(float(np.max(i / n - x)), float(np.max(x - (i - 1) / n)))
    rec.count()
    if d == 1:
        bound = (1.0 + math.log(n)) / n  # random points: about 0.9/sqrt(n)
        require(disc <= bound, 'd=1: star discrepancy of the first {} points is {} > {}', n, disc, bound)
    elif d == 2 and n >= 50:
        # mean squared error of box counts over drawn boxes, compared with its expectation for random points
        rs = np.random.RandomState(c['seed'])
        corners = rs.uniform(.1, .9, (100, 2))
        err = [(np.mean(np.all(P < q, axis=1)) - q.prod()) ** 2 / (q.prod() * (1 - q.prod()) / n) for q in corners]
        require(np.mean(err) < 0.7, 'd=2: the first {} points are not more even than random ones (ratio {})', n, np.mean(err))
    rec.label('d={}'.format(min(d, 3)), 'n>=1000' if n >= 1000 else 'n<1000')
    rec.nontriv(n >= 20)


def run_zero(c, rec):
    try:
        g = r2_series_generator(0)
        next(g)
    except ValueError:
        rec.count()
        rec.nontriv()
        return
    require(False, 'dimension 0 is not rejected with a ValueError')


dims = st.one_of(st.integers(1, 8), st.integers(1, 40), st.integers(1, 300))
CHECK = Check(
    'C12',
    'Interleaved reads from several generators of drawn dimensions (1..300) with the caller overwriting returned points, compared with the '
    'recurrence evaluated in 60-digit decimal arithmetic from an independently computed root; long prefixes with discrepancy bounds. '
    'Non-trivial: more than one point is read.',
    [Part('interleaved', st.builds(lambda ops, s: {'ops': [['new', 1 + len(ops) % 5]] + ops, 'scribble': s},
                                   st.lists(st.one_of(st.tuples(st.just('new'), dims).map(list), st.tuples(st.just('next'), st.integers(0, 5), st.integers(1, 12)).map(list)), min_size=1, max_size=14),
                                   st.booleans()), run, 2500),
     Part('prefix', st.builds(lambda d, n, s: {'d': d, 'n': n, 'seed': s}, st.sampled_from([1, 1, 2, 2, 3, 5]), st.one_of(st.integers(1, 6000), st.integers(1, 6000), st.sampled_from([8193, 20000, 40000, 70000, 140000])), st.integers(0, 999)), run_prefix, 400),
     Part('dimension 0', st.just({}), run_zero, 8)],
    ['A rounding error of 2e-15 per index is allowed.'])
