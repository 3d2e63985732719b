import numpy as np
from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.checks import c01
from bdt.common import classes_of, close, effective_delta, split_scores
from bdt.core import Check, Part, require


def updated(task, prior, y, delta):
    """-> the prior updated with observations of weight delta, and an absolute tolerance"""
    if delta == 0:
        return list(prior), 0.0
    if task[1] == 'C':
        return ref.cls_posterior(prior, y, delta), 0.0
    p, err = ref.RegEvidence(prior, len(y)).posterior(y, delta)
    return list(p), err


def matches(got, exp, err):
    return close(got, exp, 1e-9, 1e-12 * np.abs(exp).max() + err)


def run(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    delta = effective_delta(par)
    m = sut.make_model(task, par)
    given = m.prior
    before = None if given is None else np.array(given, dtype=float).copy()
    m.fit(sut.represent(X, c['rep']), y.copy())
    require(m.prior is given, 'fit replaced the prior of the model')
    if given is not None:
        require(type(given) in (list, tuple, np.ndarray) and np.array_equal(np.array(given, dtype=float), before), 'fit changed the prior given by the user from {} to {}', before, given)
    root = sut.view(m, task)
    if sut.assign_train(root, X).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    k = classes_of(c, y) if task[1] == 'C' else 0
    base = [float(v) for v in before] if given is not None else ref.default_prior(task, len(y), k)
    splits = 0

    def rec_(x, prior, where):
        """prior: what the node works with (as found in the tree, already verified)"""
        nonlocal splits
        rec.count()
        exp, err = updated(task, prior, y[x.train], 1.0)
        require(matches(x.posterior, exp, err), '{}: posterior {} is not the update of the prior {} by {} targets ({})', where, x.posterior.tolist(), list(prior), x.n, exp)
        if x.leaf:
            return
        splits += 1
        if not (par['prune']):
            s = split_scores(x, X, y, task, prior, par['pp'], par['sp'])
            if s is not None:
                no, sp, e1, e2 = s
                require(abs(x.lns - no) <= e1 + 1e-12 * abs(no) and abs(x.lsp - sp) <= e2 + 1e-12 * abs(sp),
                        '{}: log posteriors {} and {} are not those under the prior {} of the node ({} and {})', where, x.lns, x.lsp, list(prior), no, sp)
        for ch, name in ((x.c1, '.1'), (x.c2, '.2')):
            require(ch.prior is not None, '{}: child has no prior', where)
            exp, err = updated(task, prior, y[ch.train], delta)
            require(matches(ch.prior, exp, err), '{}: prior {} of child {} is not the prior {} updated with {} targets weighted by {} ({})',
                    where, ch.prior.tolist(), name, list(prior), ch.n, delta, exp)
            if delta == 0:
                require(np.array_equal(ch.prior, base), '{}: prior {} differs from the prior of the model {} with delta 0', where, ch.prior.tolist(), base)
            rec_(ch, [float(v) for v in ch.prior], where + name)

    rec_(root, base, 'root')
    # the split decisions of the whole tree under these priors
    if task[0] == 'P' and not par['prune']:
        c01.check_nodes(c, X, y, root, rec, k)
    # raw leaf data show the prior and posterior of the leaf
    own, amb = sut.leaf_of(root, X)
    raw = sut.checked_raw(m, X, len(X), len(base))
    for i in range(len(X)):
        if not amb[i]:
            p = own[i].prior if own[i].prior is not None else base
            require(np.array_equal(raw[i][0], p) and np.array_equal(raw[i][1], own[i].posterior), 'row {}: raw leaf data {} instead of {} and {}', i, raw[i].tolist(), list(p), own[i].posterior.tolist())
    rec.label(task, 'delta={}'.format('None' if par['delta'] is None else 'fraction' if 0 < delta < 1 else int(delta)), 'splits={}'.format(min(splits, 5)), 'default prior' if given is None else 'own prior')
    rec.nontriv(splits > 0)


DELTAS = (0, 1, 1.0, 0.5, 0.1, 0.25, 0.9, 0.01, 0.99, 1e-3, 1e-4, 1e-6, 1e-10)
KW = dict(reps=['C', 'C', 'csc', 'list'], prunes=(False, False, False, True))
CHECK = Check(
    'C20',
    'Fitted trees of all models over drawn data, priors and deltas (None, 0, fractions, 1): the prior of every child must be the prior of its '
    'parent updated with the delta-weighted targets, every posterior the update of the node\'s prior, every recorded evidence and (perpendicular) '
    'every split decision the one under that prior; the user\'s prior object must stay as it is. Non-trivial: the tree splits.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(nmin=4, nmax=18), recipe_kw=dict(nmax=160), recipe_share=.4, deltas=DELTAS, **KW), run, 2600),
     Part('hyperplane', gen.case(('HC', 'HR'), rows_kw=dict(nmin=4, nmax=14), recipe_kw=dict(nmax=60), recipe_share=.4, deltas=DELTAS + (None,),
                                 opt_kinds=('list', 'list', 'rh', 'quasi'), **KW), run, 1000)],
    [], ref.selftest)
