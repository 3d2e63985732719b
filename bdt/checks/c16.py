import inspect
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.sparse import csr_matrix
from sklearn import metrics
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.compose import TransformedTargetRegressor
from sklearn.ensemble import BaggingClassifier, BaggingRegressor, VotingClassifier, VotingRegressor
from sklearn.inspection import permutation_importance
from sklearn.model_selection import GridSearchCV, StratifiedKFold, KFold, cross_val_predict, cross_val_score, cross_validate, learning_curve, validation_curve
from sklearn.multiclass import OneVsRestClassifier
from sklearn.multioutput import MultiOutputRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import FunctionTransformer, StandardScaler

from bdt import gen, sut
from bdt.common import close
from bdt.core import Check, Part, require

warnings.simplefilter('ignore')


def container(X, y, kind):
    if kind == 'pandas':
        ix = np.arange(len(y))[::-1] * 2 + 3
        return pd.DataFrame(X, columns=['f%d' % j for j in range(X.shape[1])], index=ix), pd.Series(y, index=ix)
    if kind == 'sparse':
        return csr_matrix(X), y
    if kind == 'int':
        return X, y.astype(int) if np.all(y == np.round(y)) else y
    if kind == 'lists':
        return X.tolist(), y.tolist()
    return X, y


def splitter(task, c):
    return (StratifiedKFold if task[1] == 'C' else KFold)(c['folds'], shuffle=True, random_state=c['s'])


def setup(c):
    X, y = gen.data(c['data'])
    task = c['task']
    if task[1] == 'C':  # every class in every fold
        need = c['folds']
        extra = [k for k in range(gen.n_classes(y)) for _ in range(max(0, need - int(np.sum(y == k))))]
        rs = np.random.RandomState(c['s'])
        X = np.concatenate([X] + [X[rs.randint(len(X))][None] + rs.randint(-2, 3, X.shape[1]) for _ in extra])
        y = np.concatenate([y, np.array(extra, dtype=float)])
    return X, y, task


def build(c, **over):
    return sut.make_model(c['task'], c['par'], **over)


def by_hand(c, X, y, test, train, **over):
    return build(c, **over).fit(X[train].copy(), y[train].copy())


def same_setting(a, b):
    if isinstance(a, sut.HO.HyperplaneOptimizer):
        return type(a) is type(b) and str(a) == str(b)
    if a is None or b is None:
        return a is b
    return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))


ARGS = {'P': ['partition_prior', 'prior', 'delta', 'prune', 'split_precision'], 'H': ['partition_prior', 'prior', 'delta', 'prune', 'optimizer', 'split_precision']}


def run_params(c, rec):
    """Constructor, get_params, set_params and clone."""
    X, y, task = setup(c)
    args = {'partition_prior': c['par']['pp'], 'prior': sut.make_prior(c['par']), 'delta': c['par']['delta'], 'prune': c['par']['prune'], 'split_precision': c['par']['sp']}
    if task[0] == 'H':
        args['optimizer'] = sut.make_optimizer(c['par']['opt'])
    T = sut.TYPES[task]
    names = list(inspect.signature(T.__init__).parameters)[1:]
    require(set(args) <= set(names), 'constructor parameters are {}', names)
    require(names[:len(ARGS[task[0]])] == ARGS[task[0]], 'the order of constructor parameters is {}', names)
    m = T(**args)
    positional = T(*[args[n] for n in ARGS[task[0]]])
    for z, how in ((m, 'keywords'), (positional, 'positions')):
        got = z.get_params()
        for n, v in args.items():
            rec.count()
            require(n in got and got[n] is v, 'parameter {} passed by {} reads {!r} instead of {!r}', n, how, got.get(n), v)
    # parameters that are not passed read as the documented defaults, in the model, in its clone and after being reset
    defaults = {n: v.default for n, v in list(inspect.signature(T.__init__).parameters.items())[1:]}
    some = {n: v for i, (n, v) in enumerate(sorted(args.items())) if (c['s'] >> i) % 2}
    part = T(**some)
    reset = T(**args).set_params(**{n: defaults[n] for n in args if n not in some and defaults[n] is not inspect.Parameter.empty})
    for z, how in ((part, 'omitted'), (clone(part), 'omitted and cloned'), (reset, 'reset')):
        got = z.get_params()
        require(set(args) <= set(got), 'get_params() lacks {}', set(args) - set(got))
        for n in args:
            exp = some[n] if n in some else defaults[n]
            require(exp is inspect.Parameter.empty or same_setting(got[n], exp), 'parameter {} ({}) reads {!r} instead of {!r}', n, how, got[n], exp)
    q = clone(m)
    require(type(q) is T and not q.is_fitted(), 'clone is of type {} or fitted', type(q))
    require(all(same_setting(q.get_params()[n], v) for n, v in args.items()), 'clone has settings {} instead of {}', q.get_params(), args)
    require(is_classifier(m) == (task[1] == 'C') and is_regressor(m) == (task[1] == 'R'), 'wrong kind of estimator')
    # set_params on a default model (fitted before, on half of the cases) has the effect of passing the same values to the constructor
    other = T(prior=sut.make_prior(c['par']) if c['s'] % 2 else None, **({'optimizer': sut.ListOptimizer([[1.0, 0.5]])} if task[0] == 'H' else {}))
    if c['s'] % 3:
        other.fit(X.copy(), y.copy())
    for n in sorted(args) if c['s'] % 2 else sorted(args, reverse=True):
        r = other.set_params(**{n: args[n]})
        require(r is other and other.get_params()[n] is args[n], 'set_params({}) has no effect', n)
    try:
        other.set_params(no_such_parameter=1)
        require(False, 'set_params accepts unknown parameters')
    except ValueError:
        pass
    # parameters may be NumPy numbers, such as those from a parameter grid made with np.linspace
    numpyish = T(**{n: np.array([v])[0] if n in ('partition_prior', 'delta', 'prune', 'split_precision') else v for n, v in args.items()})
    # and whatever numbers they are, they are kept as they are
    odd = {'partition_prior': [np.float32(0.75), np.float64(0.9), Fraction(9, 10), Decimal('0.9'), np.float16(0.5)][c['s'] % 5], 'delta': [np.int64(1), np.float32(0.5), Fraction(1, 3), True, None][c['s'] % 7 % 5],
           'prune': [np.bool_(True), 1, 0, np.int8(1)][c['s'] % 4], 'split_precision': [np.float32(0), 0, Fraction(1, 8), np.int32(2)][c['s'] % 11 % 4],
           'prior': [(1, 2.0), np.array([1, 2], dtype=np.int16), [np.float32(1), 3], (Fraction(1, 2), 1)][c['s'] % 13 % 4]}
    for z, how in ((T(**odd), 'keywords'), (T().set_params(**odd), 'set_params')):
        for n, v in odd.items():
            rec.count()
            require(z.get_params()[n] is v and getattr(z, n) is v, 'parameter {} set to {!r} by {} reads {!r}', n, v, how, z.get_params()[n])
    clone(T(**{n: v for n, v in odd.items() if n != 'prior'}))
    # or anything else: values are used by fit only, so that searches may put them in place later
    for n in args:
        v = [object(), 'auto', ('auto',), None, len, {'a': 1}, float('nan')][(c['s'] + ord(n[1])) % 7]
        for z, how in ((T(**{n: v}), 'keyword'), (T().set_params(**{n: v}), 'set_params')):
            rec.count()
            require(z.get_params()[n] is v and getattr(z, n) is v, 'parameter {} set to {!r} by {} reads {!r}', n, v, how, z.get_params()[n])
    if c['par']['prior'] is not None:
        numpyish.set_params(prior=[np.float64(v) for v in c['par']['prior']])
    snaps = [sut.snap(sut.view(z.fit(X.copy(), y.copy()), task)) for z in (build(c), m, q, other, clone(other), positional, numpyish, clone(numpyish))]
    for s, how in zip(snaps[1:], ('keywords', 'clone', 'set_params', 'clone after fit', 'positions', 'NumPy numbers', 'a clone with NumPy numbers')):
        require(s == snaps[0], 'settings passed by {} lead to another tree: {}', how, sut.first_diff(s, snaps[0]))
    rec.label(task)
    rec.nontriv(not sut.view(m, task).leaf)
    # score
    p = np.asarray(m.predict(X))
    exp = float(np.mean(p == y)) if task[1] == 'C' else (1 - float(((y - p) ** 2).sum() / ((y - y.mean()) ** 2).sum()) if np.ptp(y) > 0 else None)
    if exp is not None:
        for kind in ('arrays', 'pandas', 'sparse', 'lists') if task[0] == 'P' else ('arrays', 'lists'):
            got = m.score(*container(X, y, kind))
            require(abs(got - exp) <= 1e-9 * (1 + abs(exp)), 'score is {} instead of {} ({})', got, exp, kind)
        w = np.random.RandomState(c['s']).randint(0, 5, len(y)) + (0.5 if c['s'] % 3 else 0.0)
        if w.sum() > 0 and (task[1] == 'C' or np.ptp(y[w > 0]) > 0):
            exp = float((w * (p == y)).sum() / w.sum()) if task[1] == 'C' else 1 - float((w * (y - p) ** 2).sum() / (w * (y - (w * y).sum() / w.sum()) ** 2).sum())
            got = m.score(X, y, sample_weight=w) if c['s'] % 2 else m.score(X, y, w)
            rec.count()
            require(abs(got - exp) <= 1e-9 * (1 + abs(exp)), 'score with sample weights is {} instead of {}', got, exp)


CLS_SCORERS = {
    'accuracy': lambda m, X, y: metrics.accuracy_score(y, m.predict(X)),
    'f1_macro': lambda m, X, y: metrics.f1_score(y, m.predict(X), average='macro'),
    'balanced_accuracy': lambda m, X, y: metrics.balanced_accuracy_score(y, m.predict(X)),
    'neg_log_loss': lambda m, X, y: -metrics.log_loss(y, m.predict_proba(X)),
    'roc_auc_ovr': lambda m, X, y: metrics.roc_auc_score(y, m.predict_proba(X), multi_class='ovr') if m.predict_proba(X).shape[1] > 2 else metrics.roc_auc_score(y, m.predict_proba(X)[:, 1]),
}
BIN_SCORERS = {
    'roc_auc': lambda m, X, y: metrics.roc_auc_score(y, m.predict_proba(X)[:, 1]),
    'average_precision': lambda m, X, y: metrics.average_precision_score(y, m.predict_proba(X)[:, 1]),
    'neg_brier_score': lambda m, X, y: -metrics.brier_score_loss(y, m.predict_proba(X)[:, 1]),
    'f1': lambda m, X, y: metrics.f1_score(y, m.predict(X)),
}
REG_SCORERS = {
    'r2': lambda m, X, y: metrics.r2_score(y, m.predict(X)),
    'neg_mean_squared_error': lambda m, X, y: -metrics.mean_squared_error(y, m.predict(X)),
    'neg_mean_absolute_error': lambda m, X, y: -metrics.mean_absolute_error(y, m.predict(X)),
    'explained_variance': lambda m, X, y: metrics.explained_variance_score(y, m.predict(X)),
}


def scorers(task, y):
    return REG_SCORERS if task[1] == 'R' else {**CLS_SCORERS, **(BIN_SCORERS if gen.n_classes(y) == 2 else {})}


def run_cv(c, rec):
    X, y, task = setup(c)
    cv = splitter(task, c)
    Xc, yc = container(X, y, c['kind'])
    folds = list(cv.split(X, y))
    models = [(by_hand(c, X, y, te, tr), tr, te) for tr, te in folds]
    names = sorted(scorers(task, y))
    chosen = [names[(c['s'] + i) % len(names)] for i in range(2)]
    m = build(c)
    for name in chosen:
        exp = [scorers(task, y)[name](z, X[te], y[te]) for z, tr, te in models]
        got = cross_val_score(m, Xc, yc, cv=cv, scoring=name, error_score='raise')
        rec.count(len(exp))
        require(close(got, exp, 1e-9, 1e-12), 'cross_val_score({}) gives {} but fitting by hand {}', name, got.tolist(), exp)
    require(not m.is_fitted(), 'cross-validation fitted the model it was given')
    exp = [scorers(task, y)['accuracy' if task[1] == 'C' else 'r2'](z, X[te], y[te]) for z, tr, te in models]
    got = cross_val_score(m, Xc, yc, cv=cv, error_score='raise')
    require(close(got, exp, 1e-9, 1e-12), 'cross_val_score gives {} but fitting by hand {}', got.tolist(), exp)
    exp_p = np.empty(len(y))
    for z, tr, te in models:
        exp_p[te] = z.predict(X[te])
    got = cross_val_predict(m, Xc, yc, cv=cv)
    require(close(got, exp_p, 1e-12), 'cross_val_predict differs from predicting by hand')
    if task[1] == 'C':
        exp_q = np.empty((len(y), gen.n_classes(y)))
        for z, tr, te in models:
            exp_q[te] = z.predict_proba(X[te])
        got = cross_val_predict(m, Xc, yc, cv=cv, method='predict_proba')
        require(close(got, exp_q, 1e-12), 'cross_val_predict of probabilities differs from predicting by hand')
    r = cross_validate(m, Xc, yc, cv=cv, scoring=chosen, return_train_score=True, return_estimator=True, error_score='raise')
    for name in chosen:
        exp = [scorers(task, y)[name](z, X[tr], y[tr]) for z, tr, te in models]
        require(close(r['train_' + name], exp, 1e-9, 1e-12), 'cross_validate: training {} is {} but by hand {}', name, r['train_' + name].tolist(), exp)
    for e, (z, tr, te) in zip(r['estimator'], models):
        a, b = sut.snap(sut.view(e, task)), sut.snap(sut.view(z, task))
        if c['kind'] not in ('pandas',):
            require(task[0] == 'H' or a == b, 'cross_validate fitted another tree: {}', sut.first_diff(a, b))
    rec.label(task, c['kind'], 'folds={}'.format(c['folds']), *chosen)
    rec.nontriv(any(not sut.view(z, task).leaf for z, _, _ in models))


def run_search(c, rec):
    X, y, task = setup(c)
    cv = splitter(task, c)
    Xc, yc = container(X, y, c['kind'])
    k = gen.n_classes(y) if task[1] == 'C' else 0
    grid = {'partition_prior': [0.3, 0.9, 0.99], 'prune': [False, True], 'delta': [0, 0.5], 'split_precision': [0.0, 1.0],
            'prior': ([[1.0] * k, [0.1] * k, None] if k else [[0, .1, 1., 1.], [1., 1., .5, 3.], None])}
    use = sorted(grid)
    use = [use[c['s'] % 5], use[(c['s'] // 5) % 5]]
    if c['s'] % 2:
        grid = {n: v if n == 'prior' else np.array(v) for n, v in grid.items()}
        rec.label('NumPy grid')
    grid = {n: grid[n] for n in use}
    name = sorted(scorers(task, y))[c['s'] % len(scorers(task, y))]
    m = build(c)
    gs = GridSearchCV(m, grid, cv=cv, scoring=name, error_score='raise').fit(Xc, yc)
    mean = []
    for p in gs.cv_results_['params']:
        mean.append(np.mean([scorers(task, y)[name](by_hand(c, X, y, te, tr, **p), X[te], y[te]) for tr, te in cv.split(X, y)]))
        rec.count()
    require(close(gs.cv_results_['mean_test_score'], mean, 1e-9, 1e-12), 'GridSearchCV scores {} but by hand {}', gs.cv_results_['mean_test_score'].tolist(), mean)
    best = build(c, **gs.best_params_).fit(X.copy(), y.copy())
    require(close(gs.predict(Xc), best.predict(X), 1e-12), 'the refitted best estimator predicts differently from a model fitted by hand')
    require(max(mean) - mean[gs.best_index_] <= 1e-9 * (1 + abs(max(mean))), 'best_index_ is not the best')
    # validation and learning curves use set_params/clone in other ways
    tr, te = validation_curve(build(c), Xc, yc, param_name='partition_prior', param_range=[0.3, 0.99], cv=cv, scoring=name, error_score='raise')
    for i, pp in enumerate([0.3, 0.99]):
        exp = [scorers(task, y)[name](by_hand(c, X, y, b, a, partition_prior=pp), X[b], y[b]) for a, b in cv.split(X, y)]
        require(close(te[i], exp, 1e-9, 1e-12), 'validation_curve gives {} but by hand {}', te[i].tolist(), exp)
    rec.label(task, c['kind'], *use)
    rec.nontriv(len(set(np.round(mean, 12))) > 1)


def run_meta(c, rec):
    X, y, task = setup(c)
    n, d = X.shape
    kind = c['kind'] if c['kind'] != 'lists' else 'arrays'
    what = c['what']
    cls = task[1] == 'C'
    P = lambda z, A: z.predict_proba(A) if cls else z.predict(A)
    rec.label(task, what, kind)
    hand = build(c).fit(X.copy(), y.copy())
    rec.nontriv(not sut.view(hand, task).leaf)
    if what == 'pipeline':
        if kind == 'sparse':
            kind = 'arrays'
        Xc, yc = container(X, y, kind)
        A = StandardScaler().fit_transform(X)
        p = make_pipeline(StandardScaler(), build(c)).fit(Xc, yc)
        z = build(c).fit(A, y)
        require(np.array_equal(P(p, Xc), P(z, A)), 'a pipeline with scaling predicts differently from scaling by hand')
        last = p.steps[-1][0]
        p.set_params(**{last + '__partition_prior': 0.4}).fit(Xc, yc)
        z = build(c, partition_prior=0.4).fit(A, y)
        require(np.array_equal(P(p, Xc), P(z, A)), 'a nested parameter has no effect')
        p = make_pipeline(FunctionTransformer(lambda B: B * 2.0), build(c)).fit(Xc, yc)
        require(np.array_equal(P(p, Xc), P(build(c).fit(X * 2.0, y), X * 2.0)), 'a pipeline with a function predicts differently')
    elif what == 'bagging':
        # without replacement every class stays present; the feature subsets make the members differ
        nf = 1 + c['s'] % d
        B = (BaggingClassifier if cls else BaggingRegressor)(build(c), n_estimators=3, bootstrap=False, max_features=nf, random_state=c['s'])
        Xc, yc = container(X, y, kind)
        B.fit(Xc, yc)
        A = X.toarray() if hasattr(X, 'toarray') else X
        members = [build(c).fit(A[:, f], y.copy()) for f in B.estimators_features_]
        exp = np.mean([P(z, A[:, f]) for z, f in zip(members, B.estimators_features_)], axis=0)
        require(close(P(B, Xc), exp, 1e-9, 1e-12), 'bagging predicts differently from averaging by hand')
    elif what == 'voting':
        Xc, yc = container(X, y, kind)
        V = VotingClassifier([('a', build(c)), ('b', build(c, partition_prior=0.5))], voting='soft') if cls else VotingRegressor([('a', build(c)), ('b', build(c, partition_prior=0.5))])
        V.fit(Xc, yc)
        exp = np.mean([P(hand, X), P(build(c, partition_prior=0.5).fit(X, y), X)], axis=0)
        require(close(P(V, Xc), exp, 1e-9, 1e-12), 'voting predicts differently from averaging by hand')
    elif what == 'wrapped':
        if cls:
            prior = None if c['par']['prior'] is None else c['par']['prior'][:2]
            if prior is not None and len(prior) < 2:
                prior = [1.0, 1.0]
            base = lambda: build(c, prior=prior)
            k = gen.n_classes(y)
            if k < 2:
                return
            O = OneVsRestClassifier(base()).fit(X, y)
            if k == 2:
                exp = base().fit(X, y).predict_proba(X)
            else:
                exp = np.column_stack([base().fit(X, (y == i).astype(float)).predict_proba(X)[:, 1] for i in range(k)])
                exp /= exp.sum(axis=1, keepdims=True)
            require(close(O.predict_proba(X), exp, 1e-9, 1e-12), 'one-versus-rest predicts differently from fitting by hand')
        else:
            Y = np.column_stack([y, y[::-1], 2 * y + 1])
            M = MultiOutputRegressor(build(c)).fit(X, Y)
            exp = np.column_stack([build(c).fit(X, Y[:, i].copy()).predict(X) for i in range(3)])
            require(close(M.predict(X), exp, 1e-12), 'multi-output regression predicts differently from fitting by hand')
            T = TransformedTargetRegressor(build(c), func=lambda v: v * 4.0, inverse_func=lambda v: v / 4.0).fit(X, y)
            require(close(T.predict(X), build(c).fit(X, 4.0 * y).predict(X) / 4.0, 1e-12), 'a transformed target predicts differently from transforming by hand')
    else:
        Xc, yc = container(X, y, kind if kind != 'sparse' else 'arrays')
        r = permutation_importance(hand, Xc, yc, n_repeats=2, random_state=c['s'])
        used = {x.dim for x in sut.view(hand, task).nodes() if not x.leaf} if task[0] == 'P' else set(range(d))
        for j in range(d):
            require(j in used or np.all(r.importances[j] == 0), 'permuting the unused feature {} changes the score', j)
    rec.count()


@st.composite
def cases(draw, extra=None):
    task = draw(st.sampled_from(['PC', 'PC', 'PR', 'PR', 'HC', 'HR']))
    hp = task[0] == 'H'
    d = draw(gen.recipe(task, nmin=14, nmax=40 if hp else 60, dmax=4, kmax=3, kinds=['normal', 'grid', 'binary', 'ints', 'sparse', 'uniform']))
    par = draw(gen.settings_for(task, d, deltas=(0, 0, 1, 0.5), prunes=(False, True), sps=(0.0, 0.0, 0.5)))
    if hp:
        par['opt'] = draw(gen.optimizer(task, ('list', 'quasi', 'rh')))
    c = {'task': task, 'data': d, 'par': par, 's': draw(st.integers(0, 200)), 'folds': draw(st.integers(2, 5)),
         'kind': draw(st.sampled_from(['arrays', 'pandas', 'int', 'sparse', 'lists']))}
    if hp and c['kind'] in ('pandas', 'sparse'):  # matrix products round differently in other memory layouts
        c['kind'] = 'arrays'
    for name, s in (extra or {}).items():
        c[name] = draw(s)
    return c


CHECK = Check(
    'C16',
    'Drawn data, settings and fold assignments for all models in arrays, integer arrays, lists, pandas objects and sparse matrices: '
    'parameters by keyword, position, clone and set_params; score; cross_val_score, cross_val_predict and cross_validate with thirteen '
    'scorers; grid search, validation curves; pipelines, bagging, voting, one-versus-rest, multi-output, transformed targets, permutation '
    'importance - each compared with fitting and evaluating models by hand. Non-trivial: some tree splits (search: the settings compared differ).',
    [Part('parameters', cases(), run_params, 1000), Part('cross-validation', cases(), run_cv, 240), Part('search', cases(), run_search, 96),
     Part('meta-estimators', cases({'what': st.sampled_from(['pipeline', 'bagging', 'voting', 'wrapped', 'importance'])}), run_meta, 600)],
    ['Folds in which a class is missing from the training part are outside the claim (labels must be exactly 0..k-1).',
     'Hyperplane models are compared on C-ordered arrays and lists only: matrix products round differently in other layouts.',
     'The installed scikit-learn (1.5.2) is the reference.'])
