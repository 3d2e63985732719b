import contextlib
import random

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from bdt import gen, optuna_stub, sut
from bdt.core import Check, Part, require

CUBE = ('quasi', 'sa', 'gd', 'de', 'optuna')
SEEDED = ('rh', '2p', 'sa', 'de', 'optuna')


class Spy(sut.HO.HyperplaneOptimizer):
    """Hands the objective on to another optimizer and records every evaluation."""

    def __init__(self, inner, log):
        super().__init__(inner.search_space_is_unit_hypercube)
        self.inner, self.log = inner, log

    def __deepcopy__(self, memo):
        return self

    def solve(self, f):
        calls = []
        compute = f.compute

        def recorded(v):
            a = np.array(v, dtype=float, copy=True)
            r = compute(v)
            calls.append((a, float(r)))
            return r

        f.compute = recorded
        self.log.append((sut.dense(f.X).copy(), np.array(f.y, copy=True), calls))
        self.inner.solve(f)
        f.compute = compute


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tolist(), s[2:], random.getstate())


def fit(c, X, y, rep, opt=None):
    log = []
    m = sut.make_model(c['task'], c['par'], optimizer=Spy(sut.make_optimizer(opt or c['par']['opt']), log))
    studies = []
    with optuna_stub.installed(studies) if (opt or c['par']['opt'])['o'] == 'optuna' else contextlib.nullcontext():
        m.fit(sut.represent(X, rep), y.copy())
    for s in studies:
        require(s.direction == 'minimize', 'the negative log posterior is to be minimized, not to be {}d', s.direction)
    return m, log


def direction_key(v):
    n = np.linalg.norm(v)
    if n == 0:
        return tuple(np.zeros(len(v)))
    u = v / n
    s = u[np.argmax(np.abs(u))]
    return tuple(np.round(u * np.sign(s), 9) + 0.0)


def parallel(v, D):
    """Whether v is parallel to one of the rows of D (or both are zero)."""
    nv = np.linalg.norm(v)
    nd = np.linalg.norm(D, axis=1)
    if nv == 0:
        return bool(np.any(nd == 0))
    cos = np.abs(D @ v)
    return bool(np.any((nd > 0) & (cos >= (1 - 1e-12) * nd * nv)))


def check_calls(o, A, b, calls, where):
    n, d = A.shape
    k = o['o']
    for v, r in calls:
        require(not np.isnan(r), '{}: evaluation of {} returned {}', where, v.tolist(), r)
        if k in CUBE:
            require(v.shape == (d - 1,) and bool(np.all((v >= 0) & (v <= 1))), '{}: point {} outside of the unit hypercube in {} dimensions', where, v.tolist(), d - 1)
        else:
            require(v.shape == (d,) and bool(np.all(np.isfinite(v))), '{}: {} is not a direction in {} dimensions', where, v.tolist(), d)
    if k in ('quasi', 'rh', 'optuna'):
        require(len(calls) == o['n'], '{}: {} evaluations instead of {}', where, len(calls), o['n'])
    elif k == '2p':
        mixed = len(set(b.tolist())) > 1
        require(len(calls) == (o['n'] if mixed else 0), '{}: {} evaluations instead of {}', where, len(calls), o['n'] if mixed else 0)
        D = np.concatenate([(A[b == i][:, None] - A[b != i][None]).reshape(-1, d) for i in set(b.tolist())])
        for v, _ in calls:
            require(parallel(v, D), '{}: {} is not the direction between two points of different classes', where, v.tolist())
    elif k == 'sa':
        require(len(calls) >= o['n_scan'], '{}: {} evaluations although {} were asked for initially', where, len(calls), o['n_scan'])
    elif k == 'gd':
        require(len(calls) >= o['n_init'], '{}: {} evaluations although {} were asked for initially', where, len(calls), o['n_init'])
    else:
        require(len(calls) > 0, '{}: no evaluations', where)


def run(c, rec):
    try:
        run_searches(c, rec)
    except optuna_stub.Missing as e:
        rec.skip('the stand-in for optuna lacks {}'.format(e))


def run_searches(c, rec):
    task, par = c['task'], c['par']
    o = par['opt']
    X, y = gen.data(c['data'])
    n, d = X.shape
    np.random.seed(c['g'])
    random.seed(c['g'])
    before = global_state()
    m, log = fit(c, X, y, c['rep'])
    require(global_state() == before, 'fitting with {} changed the global random state', o['o'])
    root = sut.view(m, task)
    if sut.assign_train(root, X).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    rec.label(o['o'], task, 'd={}'.format(d), 'nodes={}'.format(min(len(log), 4)), 'sparse' if c['rep'] in ('csr', 'csc') else 'dense')
    if d == 1:
        require(sum(len(calls) for *_, calls in log) == 0 or all(len(v) == 1 for *_, calls in log for v, _ in calls), 'evaluations in the wrong dimension for a single feature')
        rec.nontriv(not root.leaf)
        return
    # every node that has something to split is searched, on its own data
    key = lambda A, b: (len(A), np.sort(np.ascontiguousarray(np.column_stack([A, b]) + 0.0).view([('', float)] * (A.shape[1] + 1)), axis=0).tobytes())
    logs = {}
    for A, b, calls in log:
        require(key(A, b) not in logs, 'the optimizer was run twice on the same {} points', len(A))
        logs[key(A, b)] = (A, b, calls)
    evals = 0
    for x in root.nodes():
        if x is not root and (x.n == 1 or len(set(y[x.train].tolist())) == 1):
            continue
        where = '{} at level {} with {} points'.format(o['o'], x.level, x.n)
        e = logs.pop(key(X[x.train], y[x.train]), None)
        require(e is not None, '{}: the optimizer was not run on the data of this node', where)
        check_calls(o, *e, where)
        evals += len(e[2])
        rec.count(len(e[2]))
        if not x.leaf and e[2]:
            best = -min(r for _, r in e[2])
            require(abs(best - x.lsp) <= 1e-9 * (1 + abs(best)), '{}: the split kept has log posterior {} but {} was evaluated', where, x.lsp, best)
    require(not logs, 'the optimizer was run on {} data sets that are no nodes of the tree', len(logs))
    # the same again, from another global random state
    np.random.seed(c['g'] + 1)
    m2, log2 = fit(c, X, y, c['rep'])
    same = len(log) == len(log2) and all(len(p[2]) == len(q[2]) and all(np.array_equal(u[0], v[0]) for u, v in zip(p[2], q[2])) for p, q in zip(log, log2))
    require(same, '{} is not deterministic', o['o'])
    require(sut.snap(sut.view(m2, task)) == sut.snap(root), '{} leads to different trees', o['o'])
    # another seed searches elsewhere
    if o['o'] in SEEDED and len(log[0][2]) >= (20 if o['o'] == '2p' else 1):
        if o['o'] == '2p':
            A, b, _ = log[0]
            pairs = {direction_key(p - q) for p, u in zip(A, b) for q, v in zip(A, b) if u != v}
            if len(pairs) < 12:
                rec.nontriv(evals > 0)
                return
        m3, log3 = fit(c, X, y, c['rep'], dict(o, seed=o['seed'] + 1 + c['g'] % 50))
        p, q = log[0][2], log3[0][2]
        require(len(p) != len(q) or any(not np.array_equal(u[0], v[0]) for u, v in zip(p, q)), '{} evaluates the same directions for different seeds', o['o'])
    rec.nontriv(evals > 0)


@st.composite
def cases(draw):
    task = draw(st.sampled_from(['HC', 'HC', 'HR']))
    o = draw(gen.optimizer(task, ('quasi', 'rh', '2p', '2p', 'sa', 'gd', 'de', 'optuna')))
    kinds = gen.HP_KINDS
    d = draw(gen.rows(task, nmin=2, nmax=12, dmax=5, kinds=kinds)) if draw(st.integers(0, 1)) else draw(gen.recipe(task, nmin=10, nmax=40, dmax=5))
    if task == 'HR' and draw(st.integers(0, 7)) == 0 and d['t'] == 'rows':
        d['y'] = [d['y'][0]] * len(d['y'])  # nothing to separate
    par = draw(gen.settings_for(task, d, deltas=(0, None, 1), sps=(0.0, 0.0, 0.5)))
    par['opt'] = o
    return {'task': task, 'data': d, 'par': par, 'rep': draw(st.sampled_from(['C', 'C', 'csr', 'csc', 'F'])), 'g': draw(st.integers(0, 10 ** 6))}


def run_coverage(c, rec):
    try:
        run_spread(c, rec)
    except optuna_stub.Missing as e:
        rec.skip('the stand-in for optuna lacks {}'.format(e))


def run_spread(c, rec):
    """The directions evaluated at the root are spread as they should be."""
    o, d = c['opt'], c['d']
    rs = np.random.RandomState(c['s'])
    if o['o'] == '2p':
        two_point(o, d, rs, rec)
        return
    X = rs.normal(size=(6, d))
    y = np.array([0., 1, 0, 1, 0, 1])
    log = []
    m = sut.make_model('HC', {'pp': 0.5, 'prior': [30.0, 30.0]}, optimizer=Spy(sut.make_optimizer(o), log))
    with optuna_stub.installed([]):
        m.fit(X, y)
    n = {'rh': o.get('n'), 'quasi': o.get('n'), 'sa': o.get('n_scan'), 'gd': o.get('n_init'), 'optuna': o.get('n')}[o['o']]
    V = np.array([v for v, _ in log[0][2]][:n])
    require(len(V) == n, '{}: {} evaluations instead of {}', o['o'], len(V), n)
    rec.label(o['o'], 'd={}'.format(d))
    rec.nontriv()
    if o['o'] == 'rh':
        U = V / np.linalg.norm(V, axis=1)[:, None]
        dirs = [np.eye(d)[i] for i in range(d)] + [v / np.linalg.norm(v) for v in rs.normal(size=(3, d))]
        for v in dirs:  # a hyperplane has two normals
            rec.count()
            p = stats.kstest((U @ v) ** 2, stats.beta(.5, (d - 1) / 2).cdf).pvalue
            require(p > 1e-10, 'random hyperplanes are not spread evenly over all directions: projections on {} (p={})', v.tolist(), p)
        rec.count()
    else:
        for i in range(d - 1):
            rec.count()
            inner = V[(V[:, i] > 0) & (V[:, i] < 1), i] if o['o'] == 'optuna' else V[:, i]
            p = stats.kstest(inner, 'uniform').pvalue
            require(p > 1e-10, '{}: coordinate {} of the points is not uniform (p={})', o['o'], i, p)
            for j in range(i):
                h = np.histogram2d(V[:, i], V[:, j], bins=4, range=[[0, 1], [0, 1]])[0]
                require(h.min() > 0, '{}: {} points leave parts of the hypercube empty', o['o'], n)
    require(len({tuple(v) for v in V}) == n or o['o'] == 'optuna', '{} evaluates the same direction repeatedly', o['o'])


def two_point(o, d, rs, rec):
    """Two-point search reaches every pair of points of different classes."""
    k = rs.randint(2, 5)
    y = rs.permutation(np.concatenate([np.arange(k), rs.randint(0, k, rs.randint(1, 5))])).astype(float)
    X = rs.normal(size=(len(y), d))
    log = []
    m = sut.make_model('HC', {'pp': 0.5, 'prior': [30.0] * k}, optimizer=Spy(sut.make_optimizer(o), log))
    m.fit(X, y)
    V = np.array([v for v, _ in log[0][2]])
    V = V / np.linalg.norm(V, axis=1)[:, None]
    rec.label('2p', 'd={}'.format(d), 'k={}'.format(k))
    rec.nontriv()
    pairs = {}
    for i in range(len(y)):
        for j in range(i):
            if y[i] != y[j]:
                u = (X[i] - X[j]) / np.linalg.norm(X[i] - X[j])
                pairs[i, j] = (np.abs(np.abs(V @ u) - 1) < 1e-12).sum()
    sizes = np.bincount(y.astype(int))
    for (i, j), c in pairs.items():
        rec.count()
        expected = len(V) / (k * (k - 1) / 2 * sizes[int(y[i])] * sizes[int(y[j])])
        require(c > expected / 4 or expected < 60, 'two-point search evaluates the direction between {} and {} {} times out of {}', X[i].tolist(), X[j].tolist(), c, len(V))


@st.composite
def coverage(draw):
    k = draw(st.sampled_from(['2p', '2p', 'rh', 'rh', 'quasi', 'sa', 'gd', 'optuna']))
    n = draw(st.sampled_from([400, 1500]))
    s = draw(st.integers(0, 2 ** 32 - 1))
    o = {'rh': {'o': 'rh', 'n': n, 'seed': s}, '2p': {'o': '2p', 'n': 3000, 'seed': s}, 'quasi': {'o': 'quasi', 'n': n}, 'sa': {'o': 'sa', 'n_scan': n, 'n_keep': 2, 'spread': 0.5, 'seed': s}, 'gd': {'o': 'gd', 'n_init': n, 'n_keep': 1},
         'optuna': {'o': 'optuna', 'n': n, 'seed': s}}[k]
    return {'opt': o, 'd': draw(st.integers(2, 6)), 's': draw(st.integers(0, 10 ** 6))}


class Enough(Exception):
    pass


class Pretend(sut.HO.HyperplaneOptimizer):
    """Lets another optimizer minimize a made-up objective."""

    def __init__(self, inner, obj):
        super().__init__(inner.search_space_is_unit_hypercube)
        self.inner, self.obj, self.calls, self.done = inner, obj, [], None

    def __deepcopy__(self, memo):
        return self

    def compute(self, v):
        a = np.array(v, dtype=float, copy=True)
        self.calls.append(a)
        if len(self.calls) > 6000:
            raise Enough
        return self.obj(a)

    def solve(self, f):
        f.compute = self.compute
        try:
            self.inner.solve(f)
            self.done = True
        except Enough:
            self.done = False


def landscape(c):
    rs = np.random.RandomState(c['s'])
    d, kind = c['d'], c['kind']
    w = rs.choice([-1.0, 1.0], d) * rs.uniform(.1, 3, d)
    m, k, size = rs.uniform(-.2, 1.2, d), rs.randint(1, 6), 10.0 ** rs.randint(-3, 5)
    f = {'linear': lambda v: w @ v, 'bowl': lambda v: ((v - m) ** 2).sum(), 'flat': lambda v: 0.0, 'steps': lambda v: w @ np.floor(v * k),
         'ridge': lambda v: w @ np.minimum(v, m), 'waves': lambda v: np.sin(9 * v + m).sum(), 'plateau': lambda v: max(0.0, float(w @ (v - m))),
         'far': lambda v: float(((v - m) ** 2).sum() > .5)}[kind]
    low = {'linear': np.minimum(w, 0).sum(), 'bowl': (np.maximum(0, np.maximum(-m, m - 1)) ** 2).sum()}.get(kind)
    span = {'linear': np.abs(w).sum(), 'bowl': float(d)}.get(kind)
    return lambda v: float(f(v)) * size, None if low is None else low * size, None if span is None else span * size


def run_landscape(c, rec):
    """The searches over the hypercube on a made-up objective: they stay inside, terminate, repeat themselves and go downhill."""
    o, d = c['opt'], c['d']
    obj, low, span = landscape(c)
    rs = np.random.RandomState(c['s'] + 1)
    X, y = rs.normal(size=(5, d + 1)), np.array([0., 1, 0, 1, 0])
    X = sut.represent(X, c['rep'])

    def search():
        p = Pretend(sut.make_optimizer(o), obj)
        with optuna_stub.installed([]):
            sut.make_model('HC', {'pp': 0.9, 'prior': [1.0, 1.0]}, optimizer=p).fit(X, y)
        return p.calls, p.done

    try:
        calls, done = search()
        again, _ = search()
    except optuna_stub.Missing as e:
        rec.skip('the stand-in for optuna lacks {}'.format(e))
        return
    rec.count(len(calls))
    rec.label(o['o'], c['kind'], 'd={}'.format(d + 1))
    rec.nontriv()
    require(calls, '{} evaluates nothing', o['o'])
    for v in calls:
        require(v.shape == (d,) and bool(np.all((v >= 0) & (v <= 1))), '{}: point {} outside of the unit hypercube in {} dimensions', o['o'], v.tolist(), d)
    require(len(calls) == len(again) and all(np.array_equal(u, v) for u, v in zip(calls, again)), '{} is not deterministic', o['o'])
    if o['o'] in ('quasi', 'optuna'):
        require(len(calls) == o['n'], '{}: {} evaluations instead of {}', o['o'], len(calls), o['n'])
    else:
        require(len(calls) >= o.get('n_scan', o.get('n_init', 1)), '{}: only {} evaluations', o['o'], len(calls))
    # (differential evolution may take its 1000 generations to converge)
    require(done or o['o'] == 'de' or c['kind'] in ('bowl', 'waves', 'plateau', 'ridge'), '{} does not terminate', o['o'])
    if span is None:
        return
    values = [obj(v) for v in calls]
    best = (min(values) - low) / span
    if o['o'] == 'gd':
        require(best <= (1e-9 if c['kind'] == 'linear' else 1e-3), 'descent ends {} (relative to the range of the objective) above the minimum', best)
    elif o['o'] == 'de':
        if not o.get('kw'):
            require(best <= 1e-2, 'differential evolution ends {} (relative to the range of the objective) above the minimum', best)
    elif o['o'] == 'sa':
        if o['spread'] >= .95 and o['n_keep'] >= 3:
            require(best <= (1e-4 if d <= 2 else 1e-2 if d <= 3 else .15), 'annealing ends {} (relative to the range of the objective) above the minimum', best)


@st.composite
def landscapes(draw):
    task = 'HC'
    o = draw(gen.optimizer(task, ('quasi', 'sa', 'gd', 'gd', 'gd', 'de', 'de', 'optuna')))
    if o['o'] == 'de' and draw(st.booleans()):
        o['kw'] = {}
    return {'opt': o, 'd': draw(st.integers(1, 5)), 's': draw(st.integers(0, 10 ** 6)), 'rep': draw(st.sampled_from(['C', 'csr'])),
            'kind': draw(st.sampled_from(['linear', 'linear', 'bowl', 'flat', 'steps', 'ridge', 'waves', 'plateau', 'far']))}


@st.composite
def corners(draw):
    nk = draw(st.integers(3, 6))
    o = {'o': 'sa', 'n_scan': nk + draw(st.integers(0, 10)), 'n_keep': nk, 'spread': .95, 'seed': draw(st.integers(0, 1000))}
    return {'opt': o, 'd': draw(st.integers(1, 2)), 's': draw(st.integers(0, 10 ** 6)), 'rep': 'C', 'kind': 'linear'}


CHECK = Check(
    'C19',
    'Hyperplane models fitted with each of the seven optimizers (OptunaOptimizer on a stand-in for the optuna package) (drawn parameters, one to five features, sparse, duplicate, '
    'constant, integer and pure data); every evaluation at every node is recorded and checked (search space, count, data of the node, pairs of '
    'different classes), repeated from another global random state, and with another seed; the spread of the directions is tested '
    'statistically; the searches over the hypercube are run on made-up objectives whose minimum is known. Non-trivial: at least one evaluation was made (single feature: the tree splits).',
    [Part('searches', cases(), run, 1300), Part('coverage', coverage(), run_coverage, 200), Part('landscapes', landscapes(), run_landscape, 700), Part('annealing', corners(), run_landscape, 60)],
    ['OptunaOptimizer needs the optuna package, which is not installed: it runs on a stand-in (bdt/optuna_stub.py) that suggests uniform points.',
     'Statistical tests reject at p < 1e-10 on fixed seeds.'])
