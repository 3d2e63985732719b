import numpy as np
from hypothesis import strategies as st

from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface
from bdt import gen, ref, sut
from bdt.common import classes_of
from bdt.core import Check, Part, require

LD = np.longdouble


class Recording(HyperplaneOptimizer):
    """Evaluates the given directions (or points of the unit hypercube) at every node and keeps what compute() returned."""

    def __init__(self, dirs, cube, log, length, buffer=False):
        super().__init__(search_space_is_unit_hypercube=cube)
        self.dirs, self.cube, self.log, self.length, self.buffer = dirs, cube, log, length, buffer

    def __deepcopy__(self, memo):
        return self

    def solve(self, f):
        d = f.X.shape[1]
        out = []
        buffer = np.empty(d - 1 if self.cube else d)
        for v in self.dirs:
            v = np.array([v[i % len(v)] for i in range(d - 1 if self.cube else d)], dtype=float)
            if not self.cube and 1e-30 < np.abs(v).max() < 1e30:
                v *= self.length
            if self.cube:
                v = np.abs(v) - np.floor(np.abs(v))
            buffer[:] = v
            value = f.compute(buffer if self.buffer else v.copy())
            out.append((np.asarray(hypercube_to_hypersphere_surface(v, half_hypersphere=True)).reshape(-1) if self.cube else v, value))
        self.log.append((sut.dense(f.X).copy(), np.array(f.y, copy=True), out))


def direction_scores(X, y, u, task, prior, pp, level, sp, ev):
    """Scores of all admissible positions along unit direction u: (mid projections, left counts, scores, err, order) or None if ambiguous."""
    p = (X.astype(LD) * u.astype(LD)).sum(axis=1)
    o = np.argsort(p, kind='stable')
    ps = p[o]
    gaps = (ps[1:] - ps[:-1]).astype(float)
    scale = float(np.abs(X).max(initial=0)) + 1e-300
    noise = 1e-10 * scale
    if np.any((gaps > 1e-17 * scale) & (gaps <= noise)) or np.any((np.abs(gaps - sp) <= noise) & (sp > 0)):
        return None
    cand = np.where(gaps > max(sp, noise))[0]
    if len(cand) == 0:
        return p, o, cand, np.zeros(0), 0.0
    s, e = ev.scan(y[o])
    e = np.broadcast_to(e, s.shape)
    return p, o, cand, s[cand] + ref.log_prior_split(pp, level) - np.log(len(cand) * X.shape[1]), float(e[cand].max())


def run(c, rec):
    task, par = c['task'], c['par']
    X, y = gen.data(c['data'])
    n, d = X.shape
    X[:, 0] *= c.get('col', 1)
    log = []
    m = sut.make_model(task, par, optimizer=Recording(c['dirs'], c['cube'], log, 10.0 ** c['length'], c.get('buffer', False)))
    m.fit(sut.represent(X, c.get('rep', 'C')), y.copy())
    root = sut.view(m, task)
    k = classes_of(c, y) if task[1] == 'C' else 0
    pp, sp = par['pp'], par['sp']
    amb = sut.assign_train(root, X)
    if amb.any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    key = lambda A, b: (len(A), np.sort(np.ascontiguousarray(np.column_stack([A, b]) + 0.0).view([('', float)] * (A.shape[1] + 1)), axis=0).tobytes())
    logs = {}
    for A, b, out in log:
        require(key(A, b) not in logs, 'the optimizer was run twice on the same {} points', len(A))
        logs[key(A, b)] = (A, b, out)
    inner = 0
    for x in root.nodes():
        idx = x.train
        Xi, yi = X[idx], y[idx]
        where = 'node at level {} with {} points'.format(x.level, len(idx))
        prior = sut.node_prior(x, task, k)
        if x is not root and (len(idx) == 1 or np.all(yi == yi[0])):
            require(x.leaf, '{}: split although there is nothing to split', where)
            continue
        if d > 1:
            entry = logs.pop(key(Xi, yi), None)
            require(entry is not None, '{}: the optimizer was not run on the data of this node', where)
            Xi, yi, out = entry
        else:
            out = [(np.ones(1), None)]
        ev = ref.evidence(task, prior, len(yi))
        t, te = ev.total(yi)
        no_split, nerr = t + ref.log_prior_no_split(pp, x.level), te + ref.err_no_split(pp, x.level)
        best, err, tried, undecided = -np.inf, nerr, [], False
        for v, value in out:
            if not np.any(v):
                v = np.eye(d)[0]
            u = v / np.linalg.norm(v)
            r = direction_scores(Xi, yi, u, task, prior, pp, x.level, sp, ev)
            if r is None:
                undecided = True
                rec.skip('direction with projections within rounding')
                continue
            p, o, cand, s, e = r
            err = max(err, e)
            rec.count()
            if value is not None:
                exp = -float(s.max()) if len(cand) else -no_split
                require(np.isfinite(value) and abs(value - exp) <= e + nerr, '{}: direction {} evaluates to {} instead of {}', where, u.tolist(), value, exp)
            if len(cand):
                best = max(best, float(s.max()))
                tried.append((u, p, o, cand, s, value))
        tol = err + nerr
        if tol > 1e-3:
            rec.skip('evidence not resolved in double precision')
            continue
        if x.leaf:
            require(best <= no_split + tol, '{}: leaf although a direction with log posterior {} beats not splitting ({})', where, best, no_split)
            continue
        inner += 1
        require(abs(np.linalg.norm(x.normal) - 1) < 1e-12, '{}: normal {} is not of unit length', where, x.normal.tolist())
        left = set(x.c1.train.tolist())
        pr = ((Xi.astype(LD) - x.origin.astype(LD)) * x.normal.astype(LD)).sum(axis=1)
        below, above = pr[pr < 0], pr[pr >= 0]
        require(len(below) == x.c1.n and len(above) == x.c2.n, '{}: children hold {} and {} points but the hyperplane separates {} and {}', where, x.c1.n, x.c2.n, len(below), len(above))
        scale = float(np.abs(Xi).max()) + 1e-300
        require(abs(float(below.max() + above.min())) <= 1e-9 * scale, '{}: origin {} is not midway: nearest points at {} and {}', where, x.origin.tolist(), float(below.max()), float(above.min()))
        P1, P2 = Xi[pr < 0][np.abs(pr[pr < 0] - below.max()) <= 1e-9 * scale], Xi[pr >= 0][np.abs(pr[pr >= 0] - above.min()) <= 1e-9 * scale]
        require(any(np.allclose(0.5 * (a + b), x.origin, rtol=1e-12, atol=1e-12 * scale) for a in P1 for b in P2), '{}: origin {} is not the middle of the two points next to the hyperplane', where, x.origin.tolist())
        # the score of the stored split
        y1, y2 = y[x.c1.train], y[x.c2.train]
        r = direction_scores(Xi, yi, x.normal, task, prior, pp, x.level, sp, ev)
        if r is None:
            continue
        _, _, cand, s, _ = r
        pos = np.where(cand + 1 == len(below))[0]
        require(len(pos) == 1, '{}: the split is not at an admissible position', where)
        score = float(s[pos[0]])
        require(score > no_split - tol, '{}: split with log posterior {} does not beat not splitting ({})', where, score, no_split)
        require(score >= best - tol, '{}: split with log posterior {} although a direction with {} was tried', where, score, best)
        require(abs(x.lsp - score) <= tol and abs(x.lns - no_split) <= tol, '{}: recorded log posteriors {} and {} instead of {} and {}', where, x.lsp, x.lns, score, no_split)
        if not undecided:
            require(any(np.allclose(u, x.normal, rtol=1e-9, atol=1e-12) for u, *_ in tried), '{}: normal {} is none of the directions tried', where, x.normal.tolist())
        # exact ties (decided by the values the optimizer saw): the one with the larger total distance is kept
        dist = float(np.abs(pr).sum())
        for u, p, o, cand, s, value in tried:
            top = np.where(s >= s.max() - tol)[0]
            if len(top) != 1 or value is None or -value != x.lsp:
                continue
            i = cand[top[0]]
            mid = (p[o[i]] + p[o[i + 1]]) / 2
            rec.label('tie') if not np.allclose(u, x.normal) else None
            require(float(np.abs(p - mid).sum()) <= dist * (1 + 1e-9) + 1e-12 * scale,
                    '{}: among equally good directions {} with total distance {} was kept, not {} with {}', where, x.normal.tolist(), dist, u.tolist(), float(np.abs(p - mid).sum()))
    rec.label(task, 'cube' if c['cube'] else 'directions', 'd={}'.format(d), 'splits={}'.format(min(inner, 4)), 'precision' if sp else 'exact')
    require(d == 1 or not logs, 'the optimizer was run on {} data sets that are no nodes of the tree', len(logs))
    rec.nontriv(inner > 0)


@st.composite
def cases(draw, wide=False):
    task = draw(st.sampled_from(['HC', 'HR']))
    if wide:
        d = draw(gen.wide_case((task,), ymodes=('step', 'interval', 'linear')))['data']
    elif draw(st.integers(0, 2)):
        d = draw(gen.rows(task, nmin=3, nmax=14, kinds=gen.HP_KINDS, ykinds=('dyadic', 'int', 'hetero')))
    else:
        d = draw(gen.recipe(task, nmax=60, dmax=6, noises=(0, 3, 10), ykinds=('dyadic', 'int', 'hetero')))
    par = draw(gen.settings_for(task, d, deltas=(0, 0, None, 1, 0.5)))
    return {'task': task, 'data': d, 'par': par, 'dirs': draw(gen.directions(nmax=14)), 'cube': draw(st.booleans()), 'buffer': draw(st.booleans()), 'length': draw(st.sampled_from([0, 0, 0, 0, -3, -9, -20, -80, 6, 40])),
            'col': draw(st.sampled_from([1.0] * 9 + [1e6, 1e7, 1e-6])), 'rep': draw(st.sampled_from(['C', 'csr', 'csc'] if wide else ['C', 'C', 'F', 'csr', 'csc']))}


CHECK = Check(
    'C10',
    'Hyperplane fits with a recording optimizer that evaluates drawn directions (or hypercube points) at every node; every returned value and '
    'the split kept at each node are compared with a reference that scores all positions along all directions in extended precision. '
    'Non-trivial: the tree has at least one split.',
    [Part('recorded', cases(), run, 4500), Part('wide', cases(wide=True), run, 400)],
    ['Directions whose projections differ by less than 1e-10 of the data range without being equal are not decided.'], ref.selftest)
