"""Helpers shared by the checks."""
import numpy as np

from bdt import gen, ref, sut
from bdt.core import Violation, require  # noqa: F401


def fitted(c, rec, over=None, record=None, X=None, y=None):
    """-> X, y, model, root view (with the default representation unless the case names one)"""
    if X is None:
        X, y = gen.data(c['data'])
    task = c['task']
    m = sut.make_model(task, c['par'], record, **(over or {}))
    r = m.fit(sut.represent(X, c.get('rep', 'C')), y.copy())
    require(r is m, 'fit did not return the model')
    root = sut.view(m, task)
    inner = sum(1 for _ in root.nodes() if not _.leaf)
    rec.label(task, 'splits=0' if inner == 0 else 'splits=1-2' if inner < 3 else 'splits=3-9' if inner < 10 else 'splits>=10')
    if c['data']['t'] == 'recipe':
        rec.label('recipe')
    return X, y, m, root


def classes_of(c, y):
    """Number of classes the model knows (classification)."""
    p = c['par'].get('prior')
    return len(p) if p is not None else gen.n_classes(y)


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= abs_ + rel * (np.abs(a) + np.abs(b))))


def expected_posterior(task, prior, y):
    """-> posterior parameters, absolute tolerance per parameter"""
    if task[1] == 'C':
        p = np.array(ref.cls_posterior(prior, y))
        return p, 1e-13 * p
    p, err = ref.RegEvidence(prior, len(y)).posterior(y)
    p = np.array(p[:4])
    scale = abs(prior[0]) + float(np.max(np.abs(y), initial=0))
    return p, np.array([1e-15 * len(y) * scale + 1e-13 * scale, 1e-13 * p[1], 1e-13 * p[2], 1e-10 * p[3] + err])


def same_posterior(task, a, b, prior, y):
    """Whether two posteriors computed from the same prior and targets (in any order) agree."""
    tol = expected_posterior(task, prior, y)[1]
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 4 * tol + 1e-12 * (np.abs(a) + np.abs(b))))


def effective_delta(par):
    return float(par.get('delta') or 0)


def prune_view(root, predict):
    """Reference pruning on a plain view: repeatedly merge sibling leaves with equal predictions (in place)."""
    merged = 0
    if root.leaf:
        return 0
    while True:
        changed = 0
        stack = [root]
        while stack:
            x = stack.pop()
            if x.leaf:
                continue
            if x.c1.leaf and x.c2.leaf:
                if predict(x.c1) == predict(x.c2):
                    x.leaf, x.c1, x.c2, x.dim, x.thr, x.name, x.normal, x.origin, x.lns, x.lsp = (True,) + (None,) * 9
                    changed += 1
            else:
                stack += [x.c1, x.c2]
        merged += changed
        if not changed:
            return merged


def leaf_prediction(task):
    if task[1] == 'C':
        return lambda x: int(np.argmax(x.posterior))
    return lambda x: float(x.posterior[0])


def same_tree(a, b, rec, path='root', rel=0.0):
    """Compares two plain views of trees fitted on the same numbers.

    Perpendicular trees must agree exactly (rel=0); hyperplane trees up to rounding of the projections, and an exact tie between two
    hyperplanes may be resolved differently.  Returns False if such a tie ended the comparison."""
    require(a.level == b.level and a.n == b.n, '{}: level/size {}/{} != {}/{}', path, a.level, a.n, b.level, b.n)
    require(close(a.posterior, b.posterior, rel or 0.0), '{}: posterior {} != {}', path, a.posterior.tolist(), b.posterior.tolist())
    rec.count()
    if rel and (a.leaf != b.leaf or (not a.leaf and not (close(a.normal, b.normal, 1e-9, 1e-12) and close(a.origin, b.origin, 1e-9, 1e-12)))):
        x = a if not a.leaf else b
        la, lb = float(x.lsp), float(b.lsp if not b.leaf else x.lns)
        require(abs(la - lb) <= 1e-7 * (1 + abs(la)), '{}: different splits with log posteriors {} and {}', path, la, lb)
        rec.skip('exact tie between hyperplanes')
        return False
    require(a.leaf == b.leaf, '{}: one is a leaf, the other is not', path)
    if a.leaf:
        return True
    if not rel:
        require(a.dim == b.dim and a.thr == b.thr, '{}: x{}={!r} != x{}={!r}', path, a.dim, a.thr, b.dim, b.thr)
    require(close(a.lns, b.lns, rel) and close(a.lsp, b.lsp, rel), '{}: log probabilities {} {} != {} {}', path, a.lns, a.lsp, b.lns, b.lsp)
    return same_tree(a.c1, b.c1, rec, path + '.1', rel) & same_tree(a.c2, b.c2, rec, path + '.2', rel)


def hyper_candidates(X, normal, sp):
    """Number of admissible positions along a direction; None if it cannot be told from rounding."""
    p = np.sort((X.astype(np.longdouble) * np.asarray(normal, dtype=np.longdouble)).sum(axis=1))
    gaps = (p[1:] - p[:-1]).astype(float)
    scale = float(np.abs(X).max(initial=0)) + 1e-300
    noise = 1e-10 * scale
    if np.any((gaps > 1e-17 * scale) & (gaps <= noise)) or np.any((np.abs(gaps - sp) <= noise) & (sp > 0)):
        return None
    return int(np.sum(gaps > max(sp, noise)))


def split_scores(x, X, y, task, prior, pp, sp):
    """Reference values (no split, split, tolerance) of a split node from its training indices; None if undecidable."""
    yi, Xi = y[x.train], X[x.train]
    n, d = Xi.shape
    if x.dim is not None:
        v = np.sort(Xi[:, x.dim])
        n_splits = int(np.sum(np.abs(v[1:] - v[:-1]) > sp))
    else:
        n_splits = hyper_candidates(Xi, x.normal, sp)
    if not n_splits:
        return None
    t, te = ref.evidence(task, prior, n).total(yi)
    y1, y2 = y[x.c1.train], y[x.c2.train]
    a, ae = ref.evidence(task, prior, len(y1)).total(y1)
    b, be = ref.evidence(task, prior, len(y2)).total(y2)
    no = t + ref.log_prior_no_split(pp, x.level)
    sp_ = a + b + ref.log_prior_split(pp, x.level) - float(np.log(n_splits * d))
    return no, sp_, te + ref.err_no_split(pp, x.level) + 1e-12, ae + be + 1e-12
