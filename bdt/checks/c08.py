import numpy as np

from bdt import gen, ref, sut
from bdt.common import fitted, classes_of, split_scores
from bdt.core import Check, Part, require


def run(c, rec):
    X, y, m, root = fitted(c, rec)
    task = c['task']
    if root.leaf:
        return  # no split: no claim
    k = classes_of(c, y) if task[1] == 'C' else 0
    pp, sp = c['par'].get('pp', 0.99), c['par'].get('sp', 0.0)
    d = X.shape[1]
    imp = np.asarray(m.feature_importance(), dtype=float)
    before = sut.snap(root)
    again = np.asarray(m.feature_importance(), dtype=float)
    require(np.array_equal(imp, again), 'feature_importance returns {} the second time instead of {}', again.tolist(), imp.tolist())
    require(sut.snap(sut.view(m, task)) == before, 'asking for the feature importances changed the model')
    require(imp.shape == (d,), 'feature_importance has shape {} for {} features', imp.shape, d)
    require(np.all(np.isfinite(imp)) and np.all(imp >= 0) and abs(imp.sum() - 1) < 1e-9, 'feature importances {} with sum {}', imp.tolist(), imp.sum())
    if sut.assign_train(root, X).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    exp, tol = np.zeros(d), 0.0
    used = set()
    for x in root.nodes():
        if x.leaf:
            continue
        s = split_scores(x, X, y, task, sut.node_prior(x, task, k), pp, sp)
        if s is None:
            rec.skip('admissible positions along a direction within rounding')
            return
        gain = s[1] - s[0]
        tol += s[2] + s[3]
        if x.dim is not None:
            exp[x.dim] += gain
            used.add(x.dim)
        else:
            exp += gain * np.abs(x.normal) / np.linalg.norm(x.normal)
    total = exp.sum()
    rec.count()
    if total < 1e4 * tol:
        rec.skip('total gain within rounding of zero')
        return
    require(np.all(np.abs(imp - exp / total) <= 1e-7 + 4 * tol / total), 'feature importances {} instead of {}', imp.tolist(), (exp / total).tolist())
    rec.label('prune' if c['par'].get('prune') else 'no prune', 'features used: {}'.format(min(len(used), 4)))
    rec.nontriv(d > 1 and (task[0] == 'H' or len(used) > 1))


KW = dict(prunes=(False, True))
CHECK = Check(
    'C08',
    'Fits of all four models on multi-feature data; the gain of every split is recomputed by the reference evidence from the training points '
    'of the node and its children, accumulated per feature (per component of the unit normal) and compared. Non-trivial: several features '
    'contribute.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(kinds=gen.SAFE_KINDS, dmin=2, nmin=6, nmax=20), recipe_kw=dict(dmin=2, noises=(0, 3, 10)), recipe_share=.7, **KW), run, 3000),
     Part('hyperplane', gen.case(('HC', 'HR'), recipe_share=.6, rows_kw=dict(dmin=2), recipe_kw=dict(nmax=60, dmin=2), **KW), run, 800),
     Part('wide', gen.wide_case(('PC', 'PR', 'HC'), opt_kinds=['list', 'quasi'], **KW), run, 96),
     Part('long', gen.long_case(prunes=(False, True)), run, 24),
     Part('large gains', gen.case(('PC', 'PR'), recipe_share=1, recipe_kw=dict(dmin=2, dmax=3, nmin=1200, nmax=5000, noises=(0, 1), ymodes=('interval', 'xor', 'linear', 'step')), **KW), run, 64)],
    ['Trees whose total gain is within rounding of zero are skipped; an unsplit tree has no feature importance.'], ref.selftest)
