import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface
from bdt.core import Check, Part, require


def area(D):
    """Surface of the unit sphere in D+1 dimensions."""
    return 2 * math.pi ** ((D + 1) / 2) / math.gamma((D + 1) / 2)


def call(P, half):
    P0 = P.copy()
    P.flags.writeable = False
    S = np.asarray(hypercube_to_hypersphere_surface(P, half), dtype=float)
    require(np.array_equal(P, P0), 'the input was modified')
    n = 1 if P.ndim == 1 else len(P)
    require(S.size == n * (P.shape[-1] + 1), 'result of shape {} for points of shape {}', S.shape, P.shape)
    return S.reshape(n, P.shape[-1] + 1)


def run_points(c, rec):
    """Unit length, finiteness, half space, batch independence on arbitrary points including the boundary."""
    P = np.array(c['P'], dtype=float)
    half = c['half']
    D = P.shape[1]
    S = call(P.copy(), half)
    require(np.all(np.isfinite(S)), 'not finite: {} -> {}', P.tolist(), S.tolist())
    require(np.all(np.abs(np.linalg.norm(S, axis=1) - 1) < 1e-12), 'not of unit length: {} -> {}', P.tolist(), S.tolist())
    if half:
        require(np.all(S[:, 0] >= -1e-15), 'negative first component: {} -> {}', P.tolist(), S.tolist())
    for i in range(len(P)):
        rec.count()
        a = call(P[i].copy(), half)[0]
        require(np.allclose(a, S[i], rtol=0, atol=1e-7), 'point {} maps to {} alone but to {} in a batch', P[i].tolist(), a.tolist(), S[i].tolist())
    require(np.allclose(S, call(P.copy(), half), rtol=0, atol=1e-7), 'not deterministic')
    rec.label('D={}'.format(D), 'half' if half else 'full', 'boundary' if np.any((P == 0) | (P == 1)) else 'interior')
    rec.nontriv(len(P) > 1)


def run_jacobian(c, rec):
    """Constant volume stretch: the Gram determinant of the Jacobian equals the area of the image everywhere."""
    D, half = c['D'], c['half']
    p = np.array(c['p'], dtype=float)
    h = np.minimum(1e-5, 0.01 * np.minimum(p, 1 - p))  # coordinates may be tiny
    E = np.diag(h)
    pts = np.concatenate([p + E, p - E, p + 2 * E, p - 2 * E])
    S = call(pts, half)
    J = (8 * (S[:D] - S[D:2 * D]) - (S[2 * D:3 * D] - S[3 * D:])) / (12 * h[:, None])
    vol = math.sqrt(max(0.0, np.linalg.det(J @ J.T)))
    exp = area(D) / (2 if half else 1)
    rec.count()
    rec.label('D={}'.format(D), 'half' if half else 'full')
    rec.nontriv(D > 1)
    require(abs(vol / exp - 1) < 2e-4, 'D={} half={}: at {} volume is stretched by {} instead of {}', D, half, p.tolist(), vol, exp)


def run_uniform(c, rec):
    """Goodness of fit of projections of mapped uniform points (coverage, no overlap)."""
    D, half, n = c['D'], c['half'], c['n']
    rs = np.random.RandomState(c['seed'])
    S = call(rs.uniform(size=(n, D)), half)
    tests = []
    for i in range(D + 1):
        if half and i == 0:
            tests.append(('first coordinate', S[:, 0] ** 2, stats.beta(.5, D / 2).cdf))
        else:  # (1+x)/2 ~ Beta(D/2, D/2), also for the half sphere
            tests.append(('coordinate %d' % i, (1 + S[:, i]) / 2, stats.beta(D / 2, D / 2).cdf))
    for _ in range(3):
        v = rs.normal(size=D + 1)
        v /= np.linalg.norm(v)
        proj = S @ v
        if half:  # a half sphere together with its mirror image is the sphere
            tests.append(('direction', proj ** 2, stats.beta(.5, D / 2).cdf))
            w = v.copy()
            w[0] = 0
            w /= np.linalg.norm(w)
            tests.append(('direction in the rim', (1 + S @ w) / 2, stats.beta(D / 2, D / 2).cdf))
        else:
            tests.append(('direction', (1 + proj) / 2, stats.beta(D / 2, D / 2).cdf))
    for name, v, cdf in tests:
        rec.count()
        p = stats.kstest(np.clip(v, 0, 1), cdf).pvalue
        require(p > 1e-10, 'D={} half={}: distribution of {} of {} mapped uniform points is wrong (p={})', D, half, name, n, p)
    # every closed hemisphere/orthant-like region is reached: signs of all coordinates but the half-space one
    if n >= 4000 and D <= 5:
        free = S[:, 1:] if half else S
        seen = {tuple(r) for r in (free > 0)}
        require(len(seen) == 2 ** free.shape[1], 'D={} half={}: only {} of {} orthants are reached by {} points', D, half, len(seen), 2 ** free.shape[1], n)
    rec.label('D={}'.format(D), 'half' if half else 'full')
    rec.nontriv()


@st.composite
def points(draw):
    D = draw(st.one_of(st.integers(1, 10), st.integers(11, 40)))
    half = draw(st.booleans())
    n = draw(st.integers(1, 6))
    coord = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75]), st.floats(0, 1), st.sampled_from([5e-324, 1e-300, 1e-17, 1 - 1e-16, float(np.nextafter(1, 0)), float(np.nextafter(.5, 0))]))
    return {'P': [[draw(coord) for _ in range(D)] for _ in range(n)], 'half': half}


@st.composite
def interior(draw):
    D = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 14)))
    p = [draw(st.integers(30, 970)) / 1000 for _ in range(D)]
    if draw(st.booleans()):  # close to a face
        i = draw(st.integers(0, D - 1))
        e = 10.0 ** -draw(st.integers(2, 7))
        p[i] = e * draw(st.integers(1, 9)) if draw(st.integers(0, 2)) else 1 - max(e, 1e-4)
    return {'D': D, 'half': draw(st.booleans()), 'p': p}


@st.composite
def uniform(draw):
    return {'D': draw(st.one_of(st.integers(1, 9), st.integers(10, 32))), 'half': draw(st.booleans()), 'n': draw(st.sampled_from([500, 5000, 20000])), 'seed': draw(st.integers(0, 10 ** 6))}


CHECK = Check(
    'C11',
    'Points of the hypercube in 1..40 dimensions (corners, faces, denormals, one ulp from the boundary, interior) for the half and the full '
    'sphere; numerical Jacobians at drawn interior points against the exact area; Kolmogorov-Smirnov tests of projections of mapped uniform '
    'samples against Beta laws. Non-trivial: several points / more than one dimension / every sample.',
    [Part('points', points(), run_points, 6000), Part('jacobian', interior(), run_jacobian, 6000), Part('uniformity', uniform(), run_uniform, 160)],
    ['Statistical tests reject at p < 1e-10 on fixed seeds.'])
