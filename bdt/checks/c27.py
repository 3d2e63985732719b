import contextlib
import importlib
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.boot import PKG
from bdt.core import Check, Part, Violation, require

KINDS = ['fit', 'predict', 'proba', 'raw', 'paths', 'importance', 'print', 'shape', 'params']


@contextlib.contextmanager
def fresh_package():
    """The package as just imported: nothing of what has been fitted so far can be known to it."""
    mine = lambda: [n for n in sys.modules if n.split('.')[0] == 'bayesian_decision_tree']
    old = {n: sys.modules.pop(n) for n in mine()}
    before = sut.TYPES, sut.HO
    try:
        cl, rg = (importlib.import_module('bayesian_decision_tree.' + n) for n in ('classification', 'regression'))
        sut.TYPES = {t: getattr(cl if t[1] == 'C' else rg, v.__name__) for t, v in before[0].items()}
        sut.HO = importlib.import_module('bayesian_decision_tree.hyperplane_optimization')
        yield
    finally:
        sut.TYPES, sut.HO = before
        for n in mine():
            del sys.modules[n]
        sys.modules.update(old)


class World:
    """Models with their data, which may be shared: the same arrays, priors and optimizer objects."""

    def __init__(self, c, cold=False):
        self.c = c
        self.tasks, self.X, self.y, self.kw, self.models, self.Q = [], [], [], [], [], []
        raw = None
        for i, mc in enumerate(c['models']):
            task, par = mc['task'], mc['par']
            if i and c['share']:
                X, y = self.X[0], self.y[0]
                kw = dict(self.kw[0])
                task, par = self.tasks[0], dict(c['models'][0]['par'], pp=mc['par']['pp'], prune=mc['par']['prune'], sp=mc['par']['sp'])
                kw.update(partition_prior=par['pp'], prune=par['prune'], split_precision=par['sp'])
            else:
                raw, y = gen.data(mc['data'])
                X = sut.represent(raw, mc.get('rep', 'C'))
                kw = dict(partition_prior=par['pp'], prior=sut.make_prior(par), delta=par['delta'], prune=par['prune'], split_precision=par['sp'])
                if task[0] == 'H':
                    kw['optimizer'] = sut.make_optimizer(par['opt'])
            self.tasks.append(task), self.X.append(X), self.y.append(y), self.kw.append(kw)
            if cold:
                self.Q.append(sut.represent(raw[:6], c['qrep']))
                continue
            m = sut.TYPES[task](**kw)
            m.fit(X, y)
            root = sut.view(m, task)
            Q = gen.query_rows(root, raw, c['q'] + i, m=6)
            amb = sut.leaf_of(root, Q)[1]
            self.models.append(m), self.Q.append(sut.represent(Q[~amb] if not amb.all() else Q[:0], c['qrep']))

    def op(self, i, kind):
        """-> function running the operation and returning everything it yields in comparable form"""
        i %= len(self.tasks)
        task, m, Q = self.tasks[i], self.models[i] if self.models else None, self.Q[i]
        kind = {'proba': 'proba' if task[1] == 'C' else 'predict', 'paths': 'paths' if task[0] == 'P' else 'raw'}.get(kind, kind)
        if kind == 'fit':
            def f():
                new = sut.TYPES[task](**self.kw[i])
                new.fit(self.X[i], self.y[i])
                return sut.snap(sut.view(new, task)), str(new), np.asarray(new.predict(Q)).tolist()
        else:
            f = {'predict': lambda: np.asarray(m.predict(Q)).tolist(), 'proba': lambda: np.asarray(m.predict_proba(Q)).tolist(),
                 'raw': lambda: np.asarray(m._get_raw_leaf_data(Q)).tolist(),
                 'paths': lambda: [[(int(s[0]), str(s[1]), float(s[2]), bool(s[3])) for s in p] for p in m.prediction_paths(Q)],
                 'importance': lambda: None if m.is_leaf() else np.asarray(m.feature_importance()).tolist(),
                 'print': lambda: str(m), 'shape': lambda: (m.get_depth(), m.get_n_leaves(), m.is_leaf()),
                 'params': lambda: (repr(sorted(m.get_params())), sut.snap(sut.view(m, task)))}[kind]
        f.what = '{} of model {} ({})'.format(kind, i, task)
        return f


def interrupted(op, points):
    """Runs op; when it is about to execute its k-th line within the package (for k in points), another operation runs from start to
    end first, as it would in another thread.  -> result, number of lines, results of the other operations"""
    count = [0]
    got = []

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            for other in points.get(count[0], ()):
                got.append((other, other()))
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        res = op()
    finally:
        sys.settrace(old)
    return res, count[0], got


def difference(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and isinstance(a[0], tuple) and a[0] != b[0]:
        return sut.first_diff(a[0], b[0])
    return '{} instead of {}'.format(str(b)[:400], str(a)[:400])


def run(c, rec):
    w = World(c)
    outer = w.op(*c['outer'])
    alone, lines, _ = interrupted(outer, {})
    rec.label(outer.what.split()[0], w.tasks[0], 'shared' if c['share'] else 'separate', c['qrep'])
    if not lines:
        return
    points = {}
    for frac, i, kind in c['inner']:
        f = w.op(i, kind)
        f.alone = f()
        points.setdefault(1 + int(frac * (lines - 1) / 1000), []).append(f)
    res, lines2, got = interrupted(outer, points)
    rec.count(1 + len(got))
    where = 'interrupted at line(s) {} of {} by {}'.format(sorted(points), lines, ', '.join(f.what for p in sorted(points) for f in points[p]))
    require(res == alone, '{}, {}, gives another result than alone: {}', outer.what, where, difference(alone, res))
    require(len(got) == len(c['inner']) or lines2 < max(points), '{} of {} operations ran', len(got), len(c['inner']))
    for f, r in got:
        require(r == f.alone, '{} running in between {} gives another result than alone: {}', f.what, outer.what, difference(f.alone, r))
    again = outer()
    require(again == alone, '{} is not the same afterwards ({}): {}', outer.what, where, difference(alone, again))
    rec.label('interrupts={}'.format(len(got)))
    rec.nontriv(len(got) > 0 and not all(m.is_leaf() for m in w.models))


def run_threads(c, rec):
    w = World(c)
    lists = [[w.op(i, kind) for i, kind in ops] for ops in c['threads']]
    for ops in lists:
        for f in ops:
            f.alone = f()
    at_once(lists, c['times'])
    rec.count(sum(len(o) for o in lists) * c['times'])
    rec.label('threads={}'.format(len(lists)), w.tasks[0], 'shared' if c['share'] else 'separate')
    rec.nontriv(len(lists) > 1 and not all(m.is_leaf() for m in w.models))


def at_once(lists, times):
    barrier = threading.Barrier(len(lists))
    problems = []

    def work(ops):
        try:
            barrier.wait(60)
            for _ in range(times):
                for f in ops:
                    r = f()
                    if r != f.alone:
                        problems.append(Violation('{} gives another result than alone: {}'.format(f.what, difference(f.alone, r))))
                        return
        except Exception as e:
            problems.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(ops,)) for ops in lists]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if problems:
        raise problems[0]


def run_cold(c, rec):
    """The first fits of a freshly imported package run at the same time; alone, each has a freshly imported package of its own."""
    ops = [t[0][0] for t in c['threads']] if 'threads' in c else [c['outer'][0]] + [i for _, i, _ in c['inner']]
    alone = []
    for i in ops:
        with fresh_package():
            alone.append(interrupted(World(c, True).op(i, 'fit'), {}))
    with fresh_package():
        w = World(c, True)
        fs = [w.op(i, 'fit') for i in ops]
        for f, (r, _, _) in zip(fs, alone):
            f.alone = r
        if 'threads' in c:
            at_once([[f] for f in fs], 1)
        else:
            points = {}
            for (frac, _, _), f in zip(c['inner'], fs[1:]):
                points.setdefault(1 + int(frac * (alone[0][1] - 1) / 1000), []).append(f)
            res, _, got = interrupted(fs[0], points)
            for f, r in [(fs[0], res)] + got:
                require(r == f.alone, '{} gives another result than alone when run first, interleaved at line(s) {} of {}: {}', f.what, sorted(points), alone[0][1], difference(f.alone, r))
        for f in fs:
            r = f()
            require(r == f.alone, '{} after others that ran at the same time gives another result than alone: {}', f.what, difference(f.alone, r))
    rec.count(2 * len(fs))
    rec.label('threads' if 'threads' in c else 'scheduled', w.tasks[0], 'shared' if c['share'] else 'separate')
    rec.nontriv(len(fs) > 1 and any(len(r[0][0]) > 1 for r in alone))


OP = st.tuples(st.integers(0, 2), st.sampled_from(KINDS + ['fit', 'fit', 'predict', 'paths'])).map(list)


@st.composite
def cases(draw, threads=False):
    n = draw(st.integers(1, 3))
    kw = dict(rows_kw=dict(nmin=4, nmax=12, dmax=3, kinds=gen.HP_KINDS), recipe_kw=dict(nmin=15, nmax=60, dmax=3, extremes=False), recipe_share=.3, prunes=(False, False, True),
              reps=['C', 'C', 'F', 'csr', 'csc', 'df'], scales=False)
    ms = []
    for _ in range(n):
        ms.append(draw(gen.case(draw(st.sampled_from([('PC',), ('PR',), ('HC',), ('HR',)])), opt_kinds=('list', 'rh', '2p', 'quasi', 'sa', 'gd'), **kw)))
        o = ms[-1]['par'].get('opt')
        if o and o['o'] == 'sa':
            o.update(n_scan=3, n_keep=2)
    c = {'models': ms, 'share': draw(st.booleans()), 'q': draw(st.integers(0, 999)), 'qrep': draw(st.sampled_from(['C', 'C', 'list', 'csr', 'csc', 'df']))}
    if threads:
        c.update(threads=draw(st.lists(st.lists(OP, min_size=1, max_size=3), min_size=2, max_size=4)), times=draw(st.integers(2, 6)))
    else:
        c.update(outer=draw(OP), inner=draw(st.lists(st.tuples(st.integers(0, 999), OP).map(lambda t: [t[0]] + t[1]), min_size=1, max_size=4)))
    return c


CHECK = Check(
    'C27',
    'One to three fitted models, which may share data arrays, prior and optimizer objects. Scheduled: an operation (fit or any query) is stopped '
    'in front of one to four drawn lines of its execution, other drawn operations run there from start to end, and then it continues. Threads: two to four '
    'threads run drawn operations at the same time with a switch interval of one microsecond. First fits: the same for fits that are the first ones of a freshly '
    'imported package. Every result is compared exactly with that of the operation alone. '
    'Non-trivial: an operation was interrupted (or there were several threads) and a tree splits.',
    [Part('scheduled', cases(), run, 2600), Part('threads', cases(True), run_threads, 320),
     Part('first fits', st.booleans().flatmap(cases), run_cold, 800)],
    ['Fitting a model while it is queried or fitted elsewhere is not claimed.', 'Scheduled interruptions happen between source lines of the package; the interrupting operation is not interrupted itself.'])
