import numpy as np
from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.checks.c01 import stairs, tiny
from bdt.common import classes_of, close, same_posterior, split_scores
from bdt.core import Check, Part, require


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data']) if 'data' in c else stairs(c)
    n = len(y)
    k = classes_of(c, y) if 'data' in c else c['k']
    pps = sorted(set(c['pps']))
    fits = []
    for pp in pps:
        par = dict(c['par'], pp=pp)
        m = sut.make_model(task, par).fit(sut.represent(X, c['rep']), y.copy())
        root = sut.view(m, task)
        if sut.assign_train(root, X).any():
            rec.skip('training rows within rounding of a hyperplane')
            return
        fits.append((pp, par, m, root))
    total = {'splits': 0, 'more': 0, 'ties': 0}

    def scores(x, z, par):
        """Node x split as node z is: no split, split, tolerance"""
        if x.train is None or len(x.train) != x.n:
            return None
        r = split_scores(z, X, y, task, sut.node_prior(x, task, k), par['pp'], par['sp'])
        return None if r is None else (r[0], r[1], 2 * (r[2] + r[3]) + (1e-9 if task[1] == 'C' else 0) * abs(r[1]) * 1e-3)

    def compare(x, z, p, q, where):
        """x: node of the tree with the smaller partition prior p; returns whether no tie was met"""
        rec.count()
        require(x.n == z.n and np.array_equal(np.sort(x.train), np.sort(z.train)), '{}: {} points with {} become {} with {}', where, x.n, p['pp'], z.n, q['pp'])
        require(same_posterior(task, x.posterior, z.posterior, sut.node_prior(x, task, k), y[x.train]), '{}: posterior {} becomes {}', where, x.posterior.tolist(), z.posterior.tolist())
        if x.leaf:
            if not z.leaf:  # with the smaller prior the same split is not worth it
                total['more'] += 1
                r = scores(x, z, p)
                require(r is None or r[1] - r[0] <= r[2], '{}: no split with partition prior {} although it scores {} and not splitting {}', where, p['pp'], r and r[1], r and r[0])
            return True
        total['splits'] += 1
        s = scores(x, x, p)
        if s is None:
            rec.skip('hyperplane gaps within rounding')
            return False
        if z.leaf:
            r = scores(x, x, q)
            require(r is not None and r[1] - r[0] <= r[2], '{}: split with partition prior {} but not with {} (log posteriors {} and {})', where, p['pp'], q['pp'], r and r[1], r and r[0])
            total['ties'] += 1
            return False
        lev = 1 + x.level
        d1 = lev * np.log(q['pp'] / p['pp'])
        d0 = ref.log_prior_no_split(q['pp'], x.level) - ref.log_prior_no_split(p['pp'], x.level)
        tol = s[2] + ref.err_no_split(q['pp'], x.level) + ref.err_no_split(p['pp'], x.level) + 1e-12 * (1 + abs(x.lsp) + abs(x.lns))
        require(abs(z.lsp - x.lsp - d1) <= tol, '{}: log posterior of the split goes from {} to {} instead of changing by {}', where, x.lsp, z.lsp, d1)
        require(abs(z.lns - x.lns - d0) <= tol, '{}: log posterior of not splitting goes from {} to {} instead of changing by {}', where, x.lns, z.lns, d0)
        same = x.dim == z.dim and x.thr == z.thr if x.dim is not None else close(x.normal, z.normal, 1e-12, 1e-15) and close(x.origin, z.origin, 1e-12, 1e-300)
        if not same:
            r = scores(x, z, p)
            if r is None:
                rec.skip('hyperplane gaps within rounding')
                return False
            require(abs(r[1] - s[1]) <= r[2] + s[2], '{}: another split with {} than with {} although they score {} and {}', where, q['pp'], p['pp'], r[1], s[1])
            total['ties'] += 1
            return False
        return compare(x.c1, z.c1, p, q, where + '.1') & compare(x.c2, z.c2, p, q, where + '.2')

    clean = True
    for (_, p, m1, a), (_, q, m2, b) in zip(fits, fits[1:]):
        if compare(a, b, p, q, 'root'):
            require(m1.get_n_leaves() <= m2.get_n_leaves() and m1.get_depth() <= m2.get_depth(), 'a larger partition prior leads to a smaller tree')
        else:
            clean = False
    rec.label(task, 'ties' if not clean else 'no ties', 'grows' if total['more'] else 'does not grow', 'fits={}'.format(len(fits)), 'delta={}'.format(c['par']['delta']))
    rec.nontriv(total['splits'] > 0 and len(fits) > 1)


@st.composite
def small_priors(draw):
    """Partition priors of very different size and evidence that is strong enough to split with any of them."""
    c = draw(tiny())
    if draw(st.booleans()):
        c['task'] = 'H' + c['task'][1]
        d = c['groups']
        c['par']['opt'] = {'o': 'list', 'dirs': [[draw(st.sampled_from([1.0, 1.0, -1.0])) * (i == j) for i in range(d)] for j in range(d)]}
    c['pps'] = draw(st.lists(st.sampled_from([1e-300, 1e-150, 1e-40, 1e-20, 1e-10, 1e-7, 1e-5, 1e-4, 1e-3, .01, .5, .99, 1 - 1e-6, 1 - 1e-12]), min_size=2, max_size=4, unique=True))
    c['par']['delta'] = draw(st.sampled_from([0, 0, 1, .5]))
    c['rep'] = draw(st.sampled_from(['C', 'csr']))
    return c


PP = st.one_of(st.sampled_from([0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.95, 0.99, 0.999, 0.9999]), st.floats(0.6, 0.9999), st.sampled_from([0.8, 0.97, 0.995, 0.9995, 1 - 1e-6, 1 - 1e-9]), st.floats(0.01, 0.9999))
EXTRA = {'pps': st.lists(PP, min_size=2, max_size=4, unique=True)}
KW = dict(extra=EXTRA, deltas=(0, 0, 1, 0.5, 0.1), reps=['C', 'C', 'csc'])
HK = dict(opt_kinds=('list', 'list', 'rh', 'quasi', '2p'), extra=EXTRA, deltas=(0, 0, 1, 0.5, None), reps=['C', 'C', 'csr'])
CHECK = Check(
    'C26',
    'The same drawn data fitted with two to four partition priors (all four models; for hyperplanes the searches whose candidates do not depend '
    'on the scores); wherever a tree splits, the tree with the next larger partition prior must make the same split, with log posteriors changed by '
    'exactly the change of the prior terms; an independent scorer must find an exact tie otherwise. Non-trivial: at least one split was compared.',
    [Part('small', gen.case(('PC', 'PR'), recipe_share=0, rows_kw=dict(nmin=3, nmax=18), **KW), run, 4000),
     Part('medium', gen.case(('PC', 'PR'), recipe_share=1, recipe_kw=dict(nmax=220), **KW), run, 900),
     Part('hyperplanes', gen.case(('HC', 'HR'), recipe_share=.4, rows_kw=dict(nmin=3, nmax=14), recipe_kw=dict(nmax=60), **HK), run, 1500),
     Part('small partition priors', small_priors(), run, 600)],
    ['Trees are compared down to the first exact tie.'], ref.selftest)
