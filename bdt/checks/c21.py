import numpy as np
from hypothesis import strategies as st
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver

from bdt import gen, ref, sut
from bdt.core import Check, Part, require

DEFAULTS = {'partition_prior': 0.99, 'prior': None, 'delta': 0, 'prune': False, 'split_precision': 0.0}


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    n, d = X.shape
    k = gen.n_classes(y) if task[1] == 'C' else 0
    T = sut.TYPES[task]
    given = {'partition_prior': c['par']['pp'], 'prior': c['par']['prior'], 'delta': c['par']['delta'], 'prune': c['par']['prune'], 'split_precision': c['par']['sp']}
    spelled = dict(DEFAULTS, prior=ref.default_prior(task, n, k))
    if task[0] == 'H':
        given['optimizer'] = sut.make_optimizer(c['par']['opt'])
        spelled['optimizer'] = sut.HO.ScipyOptimizer(DifferentialEvolutionSolver, 666)
    omit = sorted(spelled) if c['omit'] is None else sorted({sorted(spelled)[i % len(spelled)] for i in c['omit']})
    common = {p: v for p, v in given.items() if p not in omit}
    rep = c['rep']
    a = T(**common)
    b = T(**common, **{p: spelled[p] for p in omit})
    for p in omit:
        if p == 'prior' or p == 'optimizer':
            require(a.get_params()[p] is None, 'the default of {} is {}', p, a.get_params()[p])
        elif p == 'delta':
            require(not a.get_params()[p], 'the default of delta is {}', a.get_params()[p])
        else:
            require(a.get_params()[p] == DEFAULTS[p], 'the default of {} is {}', p, a.get_params()[p])
    a.fit(sut.represent(X, rep), y.copy())
    b.fit(sut.represent(X, rep), y.copy())
    ra, rb = sut.view(a, task), sut.view(b, task)
    if 'prior' in omit:  # the one visible difference: the constructor argument itself
        require(ra.prior is None, 'fit replaced the omitted prior by {}', ra.prior)
        ra.prior = rb.prior
    sa, sb = sut.snap(ra), sut.snap(rb)
    require(sa == sb, 'omitting {} gives another tree than passing {}: {}', omit, {p: spelled[p] for p in omit}, sut.first_diff(sa, sb))
    Q = gen.query_rows(ra, X, c['s'])
    width = k if k else 4
    require(np.array_equal(sut.checked_predict(a, Q, len(Q)), sut.checked_predict(b, Q, len(Q))), 'predictions differ')
    require(np.array_equal(sut.checked_raw(a, Q, len(Q), width), sut.checked_raw(b, Q, len(Q), width)), 'raw leaf data differ')
    if k:
        require(np.array_equal(sut.checked_proba(a, Q, len(Q), k), sut.checked_proba(b, Q, len(Q), k)), 'probabilities differ')
        require(list(a.classes_) == list(range(k)), 'classes_ is {}', a.classes_)
    require(str(a) == str(b), 'printed differently')
    # an explicit None is the same as omitting
    e = T(**common, **{p: None if p in ('prior', 'optimizer') else spelled[p] for p in omit})
    if c['s'] % 4 == 0:
        e.fit(sut.represent(X, rep), y.copy())
        re_ = sut.view(e, task)
        if 'prior' in omit:
            re_.prior = rb.prior
        require(sut.snap(re_) == sb, 'passing None gives another tree')
    rec.count()
    rec.label(task, 'all' if len(omit) == len(spelled) else ','.join(omit), 'n<100' if n < 100 else 'n<200' if n < 200 else 'n<400' if n < 400 else 'n>=400', 'pseudo count={}'.format(min(5, max(1, n // 100))))
    rec.nontriv(not ra.leaf or 'prior' in omit)


@st.composite
def long(draw):
    c = draw(gen.long_case(('PC', 'PR', 'PR'), none=False, ns=(4999, 9999, 10100, 10199, 20000, 65500, 100100, 110000), extra={'omit': st.lists(st.integers(0, 5), max_size=3), 's': st.integers(0, 999)}, reps=['C', 'C', 'csr', 'csc']))
    c['omit'] = sorted(set(c['omit'] + [2]))
    return c


@st.composite
def cases(draw, tasks, big):
    task = draw(st.sampled_from(tasks))
    hp = task[0] == 'H'
    if hp:
        d = draw(gen.rows(task, nmin=3, nmax=10, dmax=3, kinds=gen.HP_KINDS)) if draw(st.integers(0, 1)) else draw(gen.recipe(task, nmin=8, nmax=30, dmax=3, noises=(0, 3)))
        if big:
            d = draw(gen.recipe(task, nmin=95, nmax=320, dmax=2, noises=(0,), ymodes=('linear', 'step')))
            d['n'] = draw(st.sampled_from([99, 100, 101, 199, 200, 201, 300]))
    elif big:
        d = draw(gen.recipe(task, nmin=90, nmax=520, dmax=4))
        if draw(st.booleans()):
            d['n'] = draw(st.sampled_from([99, 100, 101, 199, 200, 201, 250, 299, 300, 999, 1000, 1001, 2500]))
    else:
        d = draw(gen.rows(task, nmin=2, nmax=14, kinds=gen.SAFE_KINDS))
    par = draw(gen.settings_for(task, d, deltas=(0, 1, 0.5), prunes=(False, True), none=False))
    if hp:
        par['opt'] = draw(gen.optimizer(task, ('list', 'rh', 'quasi')))
    omit = draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4)))
    return {'task': task, 'data': d, 'par': par, 'omit': omit, 's': draw(st.integers(0, 999)), 'rep': draw(st.sampled_from(['C', 'C', 'list', 'csr', 'csc', 'df']))}


@st.composite
def searches(draw):
    """The default optimizer on larger nodes."""
    task = draw(st.sampled_from(['HC', 'HC', 'HR']))
    d = draw(gen.recipe(task, nmin=60, nmax=400, dmin=3, dmax=6, noises=(3, 10), ymodes=('linear', 'step')))
    par = draw(gen.settings_for(task, d, deltas=(0,), prunes=(False,), none=False))
    par['pp'], par['opt'] = .5, {'o': 'rh', 'n': 3, 'seed': 1}
    return {'task': task, 'data': d, 'par': par, 'omit': [1], 's': 1 + 4 * draw(st.integers(0, 99)), 'rep': 'C'}


CHECK = Check(
    'C21',
    'All models on drawn data of 2 to 2500 rows (around the multiples of 100 where the default prior changes): any drawn subset of the '
    'constructor parameters is omitted and the result - tree, all queries, raw leaf data, text - compared exactly with passing the documented '
    'values explicitly. Non-trivial: the tree splits or the prior is among the omitted parameters.',
    [Part('perpendicular', cases(('PC', 'PR'), False), run, 2000), Part('perpendicular, large', cases(('PC', 'PR'), True), run, 700),
     Part('long', long(), run, 40),
     Part('hyperplane', cases(('HC', 'HR'), False), run, 320, 0.5), Part('hyperplane, large', cases(('HC', 'HR'), True), run, 64, 0.5), Part('search', searches(), run, 24, 0.5)],
    [])
