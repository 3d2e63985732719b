from hypothesis import strategies as st

from bdt import gen, ref, sut
from bdt.common import fitted, classes_of
from bdt.core import Check, Part, require
import numpy as np


def check_nodes(c, X, y, root, rec, k):
    task, par = c['task'], c['par']
    pp, sp = par.get('pp', 0.99), par.get('sp', 0.0)
    sut.assign(root, X)
    for x in root.nodes():
        yi, Xi = y[x.idx], X[x.idx]
        where = 'node at level {} with {} points'.format(x.level, len(yi))
        require(len(yi) > 0, '{}: empty', where)
        if x is not root and (len(yi) == 1 or np.all(yi == yi[0])):
            require(x.leaf, '{}: split although it holds {} target(s)', where, len(set(yi)))
            rec.count()
            continue
        S = ref.Scores(Xi, yi, task, sut.node_prior(x, task, k), pp, x.level, sp)
        best, berr = S.best()
        tol = berr + S.no_split_err
        rec.count()
        if tol > 1e-3:
            rec.skip('evidence of this node cannot be resolved in double precision')
            continue
        if x.leaf:
            require(best <= S.no_split + tol, '{}: leaf, but a split with log posterior {} beats not splitting ({})', where, best, S.no_split)
            continue
        i = S.find(x.dim, x.thr)
        require(i is not None, '{}: threshold {} of feature {} is not between two adjacent points further apart than {}', where, x.thr, x.dim, sp)
        lo, hi = S.lo[i], S.hi[i]
        mid = 0.5 * lo + 0.5 * hi
        require(abs(x.thr - mid) <= 4 * max(np.spacing(abs(lo)), np.spacing(abs(hi))),
                '{}: threshold {} is not halfway between {} and {}', where, x.thr, lo, hi)
        require(S.score[i] >= best - tol, '{}: split x{}={} has log posterior {} but the best one has {}', where, x.dim, x.thr, S.score[i], best)
        require(S.score[i] > S.no_split - tol, '{}: split x{}={} (log posterior {}) does not beat not splitting ({})', where, x.dim, x.thr, S.score[i], S.no_split)
        if np.sum(S.score >= best - tol) == 1:
            rec.label('unique optimum')


def run(c, rec):
    X, y, m, root = fitted(c, rec)
    k = classes_of(c, y)
    check_nodes(c, X, y, root, rec, k)
    rec.label('delta' if c['par'].get('delta') else 'no delta', 'precision' if c['par'].get('sp') else 'exact')
    rec.nontriv(not root.leaf or (len(y) > 1 and len(set(y)) > 1))


def stairs(c):
    """Groups of points with their own level (or class) each; features tell single groups or unions of groups apart."""
    rs = np.random.RandomState(c['s'])
    G, g = c['groups'], c['size']
    grp = rs.permutation(np.repeat(np.arange(G), g))
    X = np.column_stack([grp[:, None] == np.arange(G), grp % 2, grp]).astype(float)[:, rs.permutation(G + 2)[:G]]
    if c['task'][1] == 'C':
        return X, (grp % c['k']).astype(float)
    y = np.exp(np.linspace(c['range'], -c['range'], G))[grp]
    return X, y * (1 + c['noise'] * rs.normal(size=len(y)))


def run_stairs(c, rec):
    X, y = stairs(c)
    task = c['task']
    with sut.silent():
        m = sut.make_model(task, c['par']).fit(X, y)
    root = sut.view(m, task)
    check_nodes(c, X, y, root, rec, c['k'])
    rec.label(task, 'depth={}'.format(min(9, m.get_depth())), 'underflow' if c['par']['pp'] ** (m.get_depth() + 1) == 0 else 'no underflow')
    rec.nontriv(not root.leaf)


@st.composite
def tiny(draw):
    """Partition priors so small that their powers vanish, and evidence strong enough to split all the same."""
    task = draw(st.sampled_from(['PC', 'PR', 'PR']))
    G = draw(st.integers(2, 14))
    k = draw(st.integers(2, min(G, 4))) if task == 'PC' else 0
    a = draw(st.sampled_from([1.0, 0.1, 3.0]))
    pp = draw(st.sampled_from([1e-300, 1e-200, 1e-150, 1e-110, 1e-80, 1e-40, 1e-20]))
    prior = [a] * k if k else [0.0, 1e-3, .5, draw(st.sampled_from([1e-290, 1e-100, 1e-30, 1e-3]))]
    return {'task': task, 'groups': G, 'size': draw(st.integers(20, 400)), 'k': k, 's': draw(st.integers(0, 9999)), 'range': draw(st.sampled_from([3, 30, 150, 300])),
            'noise': draw(st.sampled_from([0.0, 0.0, 1e-3])), 'par': {'pp': pp, 'prior': prior, 'sp': 0.0, 'delta': 0}}


SMALL = gen.case(('PC', 'PR'), recipe_share=0, rows_kw=dict(nmax=16, dmax=4))
MEDIUM = gen.case(('PC', 'PR'), recipe_share=1, recipe_kw=dict(nmax=320, dmax=7))


@st.composite
def big(draw):
    task = draw(st.sampled_from(['PC', 'PC', 'PR']))
    shape = draw(st.sampled_from(['long', 'long', 'wide', 'classes', 'deep']))
    kw = dict(kinds=['normal', 'grid', 'uniform', 'dup', 'ints'])
    if shape == 'long':
        r = draw(gen.recipe(task, dmax=2, noises=(0, 3), ymodes=('interval', 'step', 'xor'), **kw))
        r['n'] = draw(st.sampled_from([65535, 65536, 65537, 66000, 131073]))
        r['noise'] = 0
    elif shape == 'wide':
        r = draw(gen.wide_case((task,), ds=[120, 129, 200, 256, 257, 258, 300, 400, 513, 520]))['data']
    elif shape == 'classes':
        r = draw(gen.recipe('PC', nmin=60, nmax=300, dmax=3, kmax=40, **kw))
        task = 'PC'
    else:  # a deep, narrow tree
        r = draw(gen.recipe(task, nmin=150, nmax=600, dmax=1, ymodes=('alternate',), kinds=['uniform', 'ints', 'grid'], noises=(0,)))
    r['task'] = task
    par = draw(gen.settings_for(task, r))
    return {'task': task, 'data': r, 'par': par}


CHECK = Check(
    'C01',
    'Data sets (explicit rows with duplicate, constant, adjacent-float, huge, denormal columns; larger seeded recipes; > 65536 rows, > 100 '
    'features, many classes, deep trees, partition priors whose powers underflow) and settings are drawn by Hypothesis; the unpruned tree is fitted and at every node all admissible '
    'thresholds of all features are enumerated and scored by an independent reference. Non-trivial: the tree splits, or the root holds at '
    'least two distinct targets.',
    [Part('small', SMALL, run, 4000), Part('medium', MEDIUM, run, 800), Part('big', big(), run, 40),
     Part('tiny partition priors', tiny(), run_stairs, 160)],
    ['A node whose best candidates differ by less than the rounding error of double precision counts as a tie: any of them is accepted.'],
    ref.selftest)
