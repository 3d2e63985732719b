import decimal
import fractions
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.core import Check, Part, Violation, require

Y_REPS = {'array': lambda y: y.copy(), 'list': lambda y: y.tolist(), 'tuple': lambda y: tuple(y.tolist()), 'column': lambda y: y.reshape(-1, 1),
          'series': lambda y: pd.Series(y, index=np.arange(len(y))[::-1]), 'df': lambda y: pd.DataFrame({'t': y})}

ODD = {  # objects that are no number, or that no double equals
    'decimal': decimal.Decimal('0.1'), 'fraction': fractions.Fraction(1, 3), 'bigint': 2 ** 53 + 1, 'hugeint': 10 ** 25 + 1, 'none': None,
    'text': 'abc', 'empty': ''}


def spoil(A, kind, pos):
    """A copy of A with one entry that cannot be converted to a float without loss."""
    A = np.asarray(A, dtype=float)
    i = np.unravel_index(pos % A.size, A.shape)
    if kind == 'longdouble':
        B = A.astype(np.longdouble)
        B[i] = np.longdouble(1) / 3
        return B
    if kind == 'complexarray':
        B = A.astype(complex)
        B[i] += 1j
        return B
    if kind == 'textarray':
        B = A.astype(str).astype('U32')
        B[i] = 'x1'
        return B
    if kind == 'bytes':
        B = A.astype('S32')
        B[i] = b'no'
        return B
    B = A.astype(object)
    B[i] = ODD[kind]
    return B


def lossy_list(A, kind):
    """NumPy itself rounds these when it builds an array from a list."""
    return A.dtype == np.longdouble or kind in ('bigint', 'hugeint')


SPOIL = sorted(ODD) + ['longdouble', 'complexarray', 'textarray', 'bytes']


def rejects(f, what, *args):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = f()
        except ValueError:
            return
        except Exception as e:
            raise Violation('{} raises {} ({}) instead of ValueError'.format(what.format(*args), type(e).__name__, e))
    raise Violation('{} is accepted{}'.format(what.format(*args), '' if r is None or hasattr(r, 'fit') else ' and returns {!r}'.format(r)[:200]))


def queries(m, task):
    q = [('predict', m.predict), ('_get_raw_leaf_data', m._get_raw_leaf_data)]
    if task[1] == 'C':
        q.append(('predict_proba', m.predict_proba))
    if task[0] == 'P':
        q.append(('prediction_paths', m.prediction_paths))
    return q


def unfitted(m, task, X, rep, how):
    for name, f in queries(m, task):
        rejects(lambda: f(sut.represent(X, rep)), '{} on a model {}', name, how)
    for name in ('feature_importance', 'get_depth', 'get_n_leaves'):
        rejects(getattr(m, name), '{} on a model {}', name, how)
    require(m.is_fitted() is False, 'is_fitted() on a model {} returns {}', how, m.is_fitted())
    require(str(m) == 'Unfitted model', 'a model {} prints as {!r}', how, str(m))


def wrong_rows(kind, rep, d, n, seed):
    """Query rows with a number of features other than d (or of too many dimensions)."""
    rs = np.random.RandomState(seed)
    if kind == '3d':
        A = rs.randint(-3, 4, (n, [d, 1, 3][seed % 3], [1, d, 2][seed % 3])).astype(float)
        return A if seed % 2 else A.tolist()
    dd = {'more': d + 1 + seed % 3, 'fewer': max(1, d - 1 - seed % 2), 'double': 2 * d, 'samples': n}[kind]
    if dd == d:
        dd = d + 1
    A = rs.randint(-3, 4, (n, dd)).astype(float)
    if n == 1 and seed % 2:
        return A[0] if seed % 4 == 1 else A[0].tolist()
    return sut.represent(A, rep)


def bad_labels(kind, y, k):
    """Labels other than exactly 0..k-1 (k > 1)."""
    y = y.copy()
    last = np.where(y == k - 1)[0]
    if kind == 'negative':
        return y - 1
    if kind == 'one negative':
        y[np.where(y == 0)[0][-1]] = -1
        return y
    if kind == 'shifted':
        return y + 1
    if kind == 'gap':
        y[last] = k
        return y
    if kind == 'fraction':
        y[last] -= 0.5
        return y
    if kind == 'tiny fraction':
        y[last] = np.nextafter(k - 1, 0)
        return y
    if kind == 'one fraction':
        y[0] += 0.25
        return y
    if kind == 'nan':
        y[last[0]] = np.nan
        return y
    if kind == 'inf':
        y[last[-1]] = np.inf
        return y
    if kind == 'doubled':
        return 2 * y
    if kind == 'huge':
        y[last] = 1e18
        return y
    raise KeyError(kind)


LABELS = ['negative', 'one negative', 'shifted', 'gap', 'fraction', 'tiny fraction', 'one fraction', 'nan', 'inf', 'doubled', 'huge']


def bad_fit(kind, c, X, y, task, prior):
    """-> (X, y, description) or None"""
    n, d = X.shape
    s = c['s']
    xr, yr = c['rep'], Y_REPS[c['yrep']]
    if kind == 'longer y':
        return sut.represent(X, xr), yr(np.concatenate([y, y[:1 + s % 3]])), None
    if kind == 'shorter y':
        m = 1 + s % max(1, n - 2)
        if n - m < 2:
            return None
        return sut.represent(X, xr), yr(y[:n - m]), None
    if kind == 'transposed X':
        return None if d == n else (sut.represent(X.T, xr), yr(y), None)
    if kind == 'one row':
        return (X[0] if s % 2 else X[0].tolist()), yr(y), None
    if kind == '3d X':
        shape = [(n, d, 2), (n, d, 1), (n, 1, d), (1, n, d), (n, 1, 1, d)][s % 5]
        A = np.broadcast_to(X.reshape(n, d, 1), (n, d, 2)) if shape == (n, d, 2) else X.reshape(shape)
        return (A.copy() if s % 2 else A.tolist()), yr(y), None
    if kind == '2d y':
        A = [np.column_stack([y, y]), np.column_stack([y, 1 - y, y]), np.eye(n)[:, :max(2, n // 2)], np.dstack([y.reshape(-1, 1)] * 2)][s % 4]
        return sut.represent(X, xr), (A if s % 3 else A.tolist()), None
    if kind == 'y row of rows':
        return sut.represent(X, xr), np.vstack([y, y]), None
    if kind == 'odd X':
        A = spoil(X, c['odd'], s)
        rep = s % 4
        return (A if rep < 2 else A.tolist() if rep == 2 and not lossy_list(A, c['odd']) else pd.DataFrame(A, columns=['c%d' % j for j in range(d)])), yr(y), c['odd']
    if kind == 'odd y':
        A = spoil(y, c['odd'], s)
        rep = s % 4
        return sut.represent(X, xr), (A if rep < 2 else A.tolist() if rep == 2 and not lossy_list(A, c['odd']) else pd.Series(A)), c['odd']
    if kind == 'ragged':
        A = X.tolist()
        A[s % n] = A[s % n] + [1.0]
        return A, yr(y), None
    if task[1] == 'R':
        return None
    k = gen.n_classes(y)
    if kind == 'labels':
        return sut.represent(X, xr), yr(bad_labels(c['lab'], y, k)), c['lab']
    if kind == 'class missing':  # the prior knows more or fewer classes than there are
        if prior is None:
            return None
        y2 = np.where(y == s % k, (s + 1) % k, y) if k > 2 or s % 2 else np.zeros(n) + s % k
        if s % 3 == 0:
            y2 = y.copy()
            y2[s % n] = k
        return sut.represent(X, xr), yr(y2), None
    return None


KINDS = ['longer y', 'shorter y', 'transposed X', 'one row', '3d X', '2d y', 'y row of rows', 'odd X', 'odd X', 'odd y', 'ragged', 'labels', 'labels', 'labels', 'class missing']


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    n, d = X.shape
    m = sut.make_model(task, c['par'])
    unfitted(m, task, X[:2], c['qrep'], 'that was never fitted')
    if c['order'] == 0:
        m.fit(sut.represent(X, c['rep']), Y_REPS[c['yrep']](y))
    for kind in c['kinds']:
        b = bad_fit(kind, c, X, y, task, c['par'].get('prior'))
        if b is None:
            continue
        rec.count()
        rec.label(kind if b[2] is None else '{} ({})'.format(kind, b[2]))
        rec.nontriv()
        rejects(lambda: m.fit(b[0], b[1]), 'fit with {}{}', kind, '' if b[2] is None else ' (' + b[2] + ')')
        if c['order']:
            unfitted(m, task, X[:2], c['qrep'], 'whose fit was rejected')
    if c['order']:
        m.fit(sut.represent(X, c['rep']), Y_REPS[c['yrep']](y))
    root = sut.view(m, task)
    for kind in c['wrong']:
        nq = 1 + c['s'] % 4
        for name, f in queries(m, task):
            rec.count()
            rejects(lambda: f(wrong_rows(kind, c['qrep'], d, nq, c['s'])), '{} of rows of the wrong shape ({}, {} features expected)', name, kind, d)
    for name, f in queries(m, task):  # data without a float equivalent is no better as a query
        A = spoil(X[:3], c['odd'], c['s'])
        rejects(lambda: f(A), '{} of unconvertible rows ({})', name, c['odd'])
        if d > 1:
            rejects(lambda: f(7.5), '{} of a single number with {} features', name, d)
    # valid use never raises (any exception of the code under test is reported by the runner)
    Q = sut.represent(gen.query_rows(root, X, c['s']), c['qrep'])
    for name, f in queries(m, task):
        f(Q)
    m.get_depth(), m.get_n_leaves(), str(m), repr(m), m.is_leaf()
    if not root.leaf:
        m.feature_importance()
    require(m.is_fitted() is True, 'is_fitted() of a fitted model returns {}', m.is_fitted())
    rec.label(task, 'fitted before' if c['order'] == 0 else 'unfitted before')


@st.composite
def cases(draw, tasks):
    task = draw(st.sampled_from(tasks))
    hp = task[0] == 'H'
    d = draw(gen.rows(task, nmin=3, nmax=12, kinds=gen.HP_KINDS if hp else gen.SAFE_KINDS, kmax=4)) if draw(st.integers(0, 3)) else \
        draw(gen.recipe(task, nmin=5, nmax=40, kmax=5))
    par = draw(gen.settings_for(task, d, deltas=(0, 0, 1, 0.5), prunes=(False, True)))
    if hp:
        par['opt'] = draw(gen.optimizer(task, ('list', 'quasi', 'rh')))
    return {'task': task, 'data': d, 'par': par, 'rep': draw(st.sampled_from(['C', 'F', 'list', 'csr', 'csc', 'df', 'object', 'tuple'])),
            'qrep': draw(st.sampled_from(['C', 'list', 'csr', 'csc', 'df', 'object', 'tuple'])), 'yrep': draw(st.sampled_from(sorted(Y_REPS))),
            's': draw(st.integers(0, 200)), 'odd': draw(st.sampled_from(SPOIL)), 'lab': draw(st.sampled_from(LABELS)), 'order': draw(st.integers(0, 1)),
            'kinds': draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=5)),
            'wrong': draw(st.lists(st.sampled_from(['more', 'fewer', 'double', 'samples', '3d']), min_size=1, max_size=3, unique=True))}


CHECK = Check(
    'C15',
    'Models of all kinds, before and after fitting; drawn invalid fits (lengths, dimensions, eleven kinds of wrong labels, eleven kinds of '
    'entries without an equal float, ragged rows, classes unknown to the prior) and invalid queries of every query method, in all '
    'representations, must raise ValueError; the valid calls in between must not raise anything. Non-trivial: at least one invalid fit was made.',
    [Part('perpendicular', cases(('PC', 'PR')), run, 2600), Part('hyperplane', cases(('HC', 'HR')), run, 900)],
    ['64-bit integers beyond 2^53, empty data and single-sample data are outside the claim.'])
