import copy
import pickle

import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone

from bdt import elsewhere, gen, sut
from bdt.core import Check, Part, require


class Fault(Exception):
    """Injected failure inside fit."""


class BombNames(list):
    """Feature names whose n-th look-up fails, i.e. fit() breaks off in the middle of the tree."""
    fuse = 0

    def __getitem__(self, i):
        self.fuse -= 1
        if self.fuse < 0:
            raise Fault()
        return super().__getitem__(i)


class BombOptimizer(sut.HO.HyperplaneOptimizer):
    """Runs another optimizer; fails at the n-th node after the fuse was set."""

    def __init__(self, inner):
        super().__init__(inner.search_space_is_unit_hypercube)
        self.inner, self.fuse = inner, None

    def solve(self, f):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                self.fuse = None
                raise Fault()
        self.inner.solve(f)


class Slot:
    def __init__(self, model, par):
        self.model, self.par = model, par
        self.fit = None  # None: never fitted; 'unknown': after an injected failure; (data index, par index): fitted
        self.stale = False  # parameters were changed after fitting
        self.kept = None  # what was passed to the last fit


def bad_input(kind, X, y, task):
    """-> X, y of an invalid call, or None if the kind does not apply."""
    n, d = X.shape
    if kind == 'longer':
        return X, np.append(y, y[0])
    if kind == 'shorter':
        return X, y[:-1] if n > 2 else np.append(y, y[:2])
    if kind == '3d':
        return X.reshape(n, d, 1).repeat(2, axis=2), y
    if kind == 'y2d':
        return X, np.column_stack([y, y])
    if kind == 'text':
        return np.array([['a' * (1 + int(v > 0)) for v in r] for r in X], dtype=object), y
    if kind == 'ytext':
        return X, np.array(['yes' if v > y[0] else 'no' for v in y])
    if task[1] == 'R':
        return None
    if kind == 'negative':
        return X, np.where(y == 0, -1.0, y)
    if kind == 'gap':
        return X, np.where(y == y.max(), y + 1, y)
    if kind == 'fraction':
        return X, np.where(y == y.max(), y - 0.5, y)
    return None


BAD = ['longer', 'shorter', '3d', 'y2d', 'text', 'ytext', 'negative', 'gap', 'fraction']


def run(c, rec):
    task = c['task']
    D = [gen.data(d) for d in c['data']]
    P = list(c['pars'])
    opts = [BombOptimizer(sut.make_optimizer(p['opt'])) for p in P] if task[0] == 'H' else None  # shared by all models of the case
    priors = [sut.make_prior(p) for p in P]

    def params(i):
        p = P[i]
        kw = dict(partition_prior=p['pp'], prior=priors[i], delta=p['delta'], prune=p['prune'], split_precision=p['sp'])
        if opts:
            kw['optimizer'] = opts[i]
        return kw

    def valid(di, pi):
        return task[1] == 'R' or priors[pi] is None or len(priors[pi]) == gen.n_classes(D[di][1])

    reference = {}

    def ref_of(di, pi):
        """A fresh model, with its own optimizer and prior, fitted once."""
        if (di, pi) not in reference:
            X, y = D[di]
            m = sut.make_model(task, P[pi])
            m.fit(X.copy(), y.copy())
            root = sut.view(m, task)
            Q = gen.query_rows(root, X, c['q'])
            reference[di, pi] = (m, sut.snap(root), sut.snap(root, False), str(m), Q, answers(m, Q, len(root.posterior)))
        return reference[di, pi]

    def answers(m, Q, k):
        out = [sut.checked_predict(m, Q, len(Q)).tolist()]
        if task[1] == 'C':
            out.append(sut.checked_proba(m, Q, len(Q), k).tolist())
        if task[0] == 'P':
            out.append([[(int(s[0]), str(s[1]), float(s[2]), bool(s[3])) for s in p] for p in m.prediction_paths(Q)])
        out.append((m.get_depth(), m.get_n_leaves()))
        if m.get_n_leaves() > 1:
            out.append(m.feature_importance().tolist())
        return out

    def verify(s, i, what):
        rec.count()
        if s.fit == 'unknown':
            return
        if s.fit is None:
            require(not s.model.is_fitted(), 'slot {} became fitted by {}', i, what)
            require(str(s.model) == 'Unfitted model', 'unfitted slot {} prints as {!r} after {}', i, str(s.model), what)
            return
        m, full, partial, text, Q, ans = ref_of(*s.fit)
        require(s.model.is_fitted(), 'slot {} is no longer fitted after {}', i, what)
        root = sut.view(s.model, task)
        got, exp = (sut.snap(root, False), partial) if s.stale else (sut.snap(root), full)
        require(got == exp, 'slot {} after {} differs from a fresh model: {}', i, what, sut.first_diff(got, exp))
        require(str(s.model) == text, 'slot {} after {} prints as\n{}\ninstead of\n{}', i, what, str(s.model), text)
        a = answers(s.model, Q, len(root.posterior))
        for x, y in zip(a, ans):
            require(x == y, 'slot {} after {} answers {} instead of {}', i, what, x, y)
        if not s.stale:
            r1, r2 = (sut.checked_raw(z, Q, len(Q), len(root.posterior)) for z in (s.model, m))
            require(np.array_equal(r1, r2), 'slot {} after {}: raw leaf data differs', i, what)

    slots = [Slot(sut.TYPES[task](**params(i % len(P))), i % len(P)) for i in range(c['slots'])]
    fits = copies = bad = 0
    for op in c['ops']:
        i = op['s'] % len(slots)
        s, kind = slots[i], op['op']
        X, y = D[op['d'] % len(D)]
        if kind == 'fit':
            di = op['d'] % len(D)
            Xr, yr = X.copy() if op['v'] % 3 else X.tolist(), y.copy() if op['v'] % 2 else y.tolist()
            if valid(di, s.par):
                with sut.silent():
                    r = s.model.fit(Xr, yr, verbose=op['v'] % 5 == 0)
                require(r is s.model, 'fit did not return the model')
                s.fit, s.stale, s.kept = (di, s.par), False, (Xr, yr)
                if op['v'] % 4 == 1:  # the caller's arrays are used for something else right away
                    for a in s.kept:
                        if isinstance(a, np.ndarray):
                            a[...] = 77.0 + op['v']
                fits += 1
            else:
                kind = 'fit with the wrong number of classes'
                rejected(s.model, Xr, yr, kind)
                bad += 1
        elif kind == 'badfit':
            b = bad_input(op['b'], X, y, task)
            if b is None:
                continue
            kind += ' ' + op['b']
            rejected(s.model, b[0], b[1], kind)
            bad += 1
        elif kind == 'crash':
            if not valid(op['d'] % len(D), s.par):
                continue
            names = BombNames('f%d' % j for j in range(X.shape[1]))
            names.fuse = op['v'] % 4
            if opts:
                names.fuse = 10 ** 9
                opts[s.par].fuse = op['v'] % 4
                own = s.model.optimizer
                if own is not None and own is not opts[s.par]:
                    own.fuse = op['v'] % 4
            try:
                s.model.fit(X.copy(), y.copy(), feature_names=names)
                s.fit = 'unknown'  # fitted with other names
                kind = 'completed fit'
            except Fault:
                s.fit = 'unknown'
                rec.label('failure inside fit')
            if opts:
                opts[s.par].fuse = None
                if s.model.optimizer is not None:
                    s.model.optimizer.fuse = None
        elif kind == 'badquery':
            d = (D[s.fit[0]][0].shape[1] if isinstance(s.fit, tuple) else X.shape[1]) + 1 + op['v'] % 2
            if s.fit == 'unknown':
                continue
            for f in (s.model.predict, s.model._get_raw_leaf_data) + ((s.model.predict_proba,) if task[1] == 'C' else ()) + ((s.model.prediction_paths,) if task[0] == 'P' else ()):
                try:
                    f(np.zeros((2, d)))
                    require(False, '{} accepted rows of the wrong size', f.__name__)
                except ValueError:
                    pass
        elif kind == 'set':
            s.par = op['v'] % len(P)
            names = sorted(params(s.par))
            if op['b'] == 'gap':  # one by one
                for name in names:
                    s.model.set_params(**{name: params(s.par)[name]})
            else:
                s.model.set_params(**params(s.par))
            s.stale = True
        elif kind == 'tune':
            own = s.model.optimizer if opts else None
            o = P[s.par]['opt'] if opts else None
            if own is None or o['o'] not in ('quasi', 'rh', '2p', 'sa', 'de'):
                continue
            o = dict(o, **({'n': 1 + (o['n'] + op['v']) % 12} if 'n' in o else {'seed': o['seed'] + 1 + op['v']}))
            P.append(dict(P[s.par], opt=o))
            priors.append(priors[s.par])
            vars(own.inner).update(vars(sut.make_optimizer(o)))  # the optimizer object stays the same but gets other parameters
            opts.append(own)
            old = s.par
            if opts[old] is own:
                opts[old] = BombOptimizer(sut.make_optimizer(P[old]['opt']))
            for z in slots:
                if z.model.optimizer is own:
                    z.par, z.stale = len(P) - 1, z.stale
        elif kind == 'scribble':
            if s.kept is None:
                continue
            for a in s.kept:
                if isinstance(a, np.ndarray):
                    a[...] = 77.0 + op['v']
                else:
                    a.clear()
            s.kept = None
        else:
            j = op['v'] % (len(slots) + 1) if len(slots) < 4 else op['v'] % len(slots)
            if kind == 'clone':
                t = Slot(clone(s.model), s.par)
                a, b = t.model.get_params(), s.model.get_params()
                require(set(a) == set(b) and all(same_value(a[k], b[k]) for k in a), 'clone has other settings: {} != {}', a, b)
            else:
                f = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda z: pickle.loads(pickle.dumps(z, op['v'] % (pickle.HIGHEST_PROTOCOL + 1)))}[kind]
                t = Slot(f(s.model), s.par)
                t.fit, t.stale, t.kept = s.fit, s.stale, None
                copies += t.fit is not None
            if j == len(slots):
                slots.append(t)
            else:
                slots[j] = t
        for k, z in enumerate(slots):
            verify(z, k, kind + (' of slot %d' % i))
    # whatever happened before, a fit now gives what a fresh model gives
    for i, s in enumerate(slots):
        di = next((k for k in range(len(D)) if valid((c['q'] + k) % len(D), s.par)), None)
        if di is None:
            continue
        di = (c['q'] + di) % len(D)
        s.model.fit(D[di][0].copy(), D[di][1].copy())
        s.fit, s.stale = (di, s.par), False
        verify(s, i, 'a final fit')
    rec.label(task, 'fits={}'.format(min(fits, 4)), 'copies={}'.format(min(copies, 3)), 'rejected={}'.format(min(bad, 3)), 'slots={}'.format(len(slots)))
    rec.nontriv(fits > 0 and len(c['ops']) > 1 and any(not sut.view(m[0], task).leaf for m in reference.values()))


def rejected(m, X, y, what):
    try:
        m.fit(X, y)
    except ValueError:
        return
    require(False, '{} was accepted', what)


def same_value(a, b):
    if isinstance(a, BombOptimizer):
        return type(b) is BombOptimizer and str(a.inner) == str(b.inner)
    return type(a) is type(b) and bool(np.all(np.asarray(a == b)))


@st.composite
def cases(draw, tasks):
    task = draw(st.sampled_from(tasks))
    hp = task[0] == 'H'
    big = draw(st.integers(0, 3)) == 0  # sizes for which the default prior differs
    data = [draw(gen.rows(task, nmin=3, nmax=12, dmax=3, kinds=gen.HP_KINDS if hp else gen.SAFE_KINDS, kmax=3)) if draw(st.integers(0, 1)) else
            draw(gen.recipe(task, **(dict(nmin=100, nmax=420) if big and i else dict(nmin=12, nmax=40 if hp else 60)), dmax=2 if hp else 4, kmax=3)) for i in range(draw(st.integers(1, 3)))]
    pars = []
    for i in range(draw(st.integers(1, 3))):
        par = draw(gen.settings_for(task, data[i % len(data)], deltas=(0, 0, 1, 0.5), prunes=(False, True), sps=(0.0, 0.0, 0.5)))
        if draw(st.integers(0, 4)) == 0:
            par['prior'] = None
            par.pop('ptype', None)
        if hp:
            par['opt'] = draw(gen.optimizer(task, ('list', 'list', 'quasi', 'rh', '2p', 'sa', 'de')))
            if par['opt']['o'] in ('rh', 'quasi', '2p'):
                par['opt']['n'] = min(par['opt']['n'], 10)
        pars.append(par)
    kinds = ['fit'] * 6 + ['badfit'] * 4 + ['crash', 'badquery', 'set', 'set', 'tune', 'scribble', 'clone', 'copy', 'deepcopy', 'pickle']
    op = st.fixed_dictionaries({'op': st.sampled_from(kinds), 's': st.integers(0, 3), 'd': st.integers(0, 2), 'v': st.integers(0, 30), 'b': st.sampled_from(BAD)})
    ops = draw(st.lists(op, min_size=1, max_size=14))
    if not any(o['op'] == 'fit' for o in ops):
        ops[0]['op'] = 'fit'
    return {'task': task, 'data': data, 'pars': pars, 'slots': draw(st.integers(1, 3)), 'ops': ops, 'q': draw(st.integers(0, 99))}


def run_elsewhere(c, rec):
    """Models fitted in, or pickled and loaded by, another process with another hash seed."""
    task = c['task']
    X, y = gen.data(c['data'])
    names = None if c['h'] % 2 else ['n%d' % (i * 7919 % 31) for i in range(X.shape[1])]
    numbers, X = X, sut.represent(X, c['rep'])
    m = sut.make_model(task, c['par']).fit(X, y, feature_names=names)
    root = sut.view(m, task)
    Q = gen.query_rows(root, numbers, c['q'])
    Q = Q[~sut.leaf_of(root, Q)[1]]
    if not len(Q):
        return
    here = elsewhere.results(m, task, Q)
    there = elsewhere.ask(c['h'] // 2, (task, c['par'], X, y, names, Q, pickle.dumps(m, c['v'])))
    require('error' not in there, 'in another process: {}', there.get('error'))
    there['sent back'] = elsewhere.results(pickle.loads(there.pop('pickled')), task, Q)
    for how, r in there.items():
        for k in here:
            rec.count()
            require(r[k] == here[k], '{} of a model {} in another process: {} instead of {}', k, how, r[k], here[k])
    rec.label(task)
    rec.nontriv(not root.leaf)


CHECK = Check(
    'C14',
    'Histories of up to 14 operations (fit on one of up to three data sets, nine kinds of rejected fit, failures injected inside fit, rejected '
    'queries, set_params, other parameters for an optimizer in use, clone, copy, deepcopy, pickle of every protocol, overwriting the arrays passed to fit) on up to four models sharing '
    'prior and optimizer objects. After every operation every model is compared, exactly, with a fresh model fitted once. Models fitted in another process with another hash seed, '
    'or pickled and loaded there and back, are compared likewise. Non-trivial: at '
    'least one successful fit among several operations, and one of the trees splits.',
    [Part('perpendicular', cases(('PC', 'PR')), run, 1600), Part('hyperplane', cases(('HC', 'HR')), run, 480),
     Part('processes', gen.case(('PC', 'PR', 'HC', 'HR'), rows_kw=dict(nmax=16), recipe_kw=dict(nmax=60), reps=['C', 'csr', 'csc', 'df'], prunes=(False, True), opt_kinds=('list', 'quasi', 'rh', 'sa', 'de'),
                                extra={'h': st.integers(0, 3), 'v': st.integers(0, pickle.HIGHEST_PROTOCOL), 'q': st.integers(0, 999)}), run_elsewhere, 240)],
    ['After set_params on a fitted model the priors stored in its nodes are not compared.'])
