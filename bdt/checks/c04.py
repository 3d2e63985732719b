import numpy as np
import pandas as pd
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.common import same_tree
from bdt.core import Check, Part, require

# value pools per dtype: extremes included, so that arithmetic in that type (differences, mid-points, squares) would overflow
POOL = {
    'int8': [-128, -127, -100, -3, 0, 1, 2, 90, 126, 127], 'uint8': [0, 1, 2, 3, 100, 128, 200, 254, 255],
    'int16': [-32768, -32767, -200, -1, 0, 1, 300, 20000, 32766, 32767], 'uint16': [0, 1, 2, 255, 256, 40000, 65534, 65535],
    'int32': [-2**31, -2**31 + 1, -70000, 0, 1, 5, 50000, 2**30, 2**31 - 1], 'uint32': [0, 1, 7, 65536, 2**31, 2**32 - 2, 2**32 - 1],
    'int64': [-2**53, -2**40, -1, 0, 1, 2, 2**33, 2**52, 2**53], 'uint64': [0, 1, 2, 2**31, 2**40, 2**53 - 1, 2**53],
    'bool': [0, 1], 'float16': [-65504.0, -2.5, -0.125, 0.0, 0.5, 1.0, 2048.0, 65504.0, 60000.0],
    'float32': [-3.0e38, -1e5, -0.5, 0.0, 0.25, 1.0, 16777216.0, 1e30, 3.0e38],
    'float64': [-1e5, -2.25, 0.0, 0.1, 0.2, 0.3, 1.0, 7.0, 1e10],
}
for _k in ('float16', 'float32'):
    POOL[_k] = [float(np.dtype(_k).type(v)) for v in POOL[_k]]
FLOATS = ('float16', 'float32', 'float64')
X_DTYPES = sorted(POOL)
Y_POOL = {k: [v for v in vs if abs(v) < 2**34] if k != 'float32' else [-1e5, -0.5, 0.0, 0.25, 1.0, 3e3, 16777216.0] for k, vs in POOL.items()}
Y_POOL['float32'] = [float(np.float32(v)) for v in Y_POOL['float32']]
Y_REPS = ['array', 'list', 'tuple', 'column', 'series', 'series_index', 'df', 'readonly', 'strided', 'object', 'bigendian', 'squeezable', 'nullable', 'category', 'index', 'memmap']


def y_represent(y, rep):
    n = len(y)
    return {'array': lambda: y.copy(), 'list': lambda: y.tolist(), 'tuple': lambda: tuple(y.tolist()), 'column': lambda: y.reshape(-1, 1).copy(),
            'series': lambda: pd.Series(y), 'series_index': lambda: pd.Series(y, index=np.arange(n)[::-1] * 2 + 1),
            'df': lambda: pd.DataFrame({'target': y}, index=np.roll(np.arange(n), 1)), 'readonly': lambda: sut_readonly(y),
            'bigendian': lambda: y.astype(y.dtype.newbyteorder('>')), 'squeezable': lambda: y.reshape(1, -1, 1).copy(),
            'nullable': lambda: pd.Series(single(y)).convert_dtypes(), 'category': lambda: pd.Series(single(y)).astype('category'), 'index': lambda: pd.Index(single(y)),
            'memmap': lambda: y.copy().view(np.memmap), 'strided': lambda: np.repeat(y, 3)[::3], 'object': lambda: y.astype(object)}[rep]()


def single(a):
    """pandas knows no half precision"""
    return a.astype(np.float32) if a.dtype == np.float16 else a


def sut_readonly(y):
    y = y.copy()
    y.flags.writeable = False
    return y


def x_represent(X, rep, names):
    """X has its final dtype (the sparse and DataFrame variants keep it where the container supports it)."""
    if rep in sut.SPARSE and X.dtype == np.float16:
        X = X.astype(np.float32)
    if rep in ('csr_raw', 'csc_raw', 'csr_dup', 'csc_dup'):
        return sut.represent(X.astype(float), rep)
    if rep == 'df':
        return pd.DataFrame(X, columns=names)
    if rep in ('df_null', 'df_cat', 'df_sparse'):
        df = pd.DataFrame(single(X), columns=names)
        return df.convert_dtypes() if rep == 'df_null' else df.astype('category') if rep == 'df_cat' else df.astype(pd.SparseDtype(df.dtypes.iloc[0], fill_value=df.dtypes.iloc[0].type(0)))
    if rep == 'memmap':
        return np.ascontiguousarray(X).copy().view(np.memmap)
    if rep == 'df_mixed':  # columns of different types
        types = [np.float64, object, np.float32, np.int64]
        df = pd.DataFrame({j: pd.Series(X[:, j]) for j in range(X.shape[1])})
        for j in range(X.shape[1]):
            t = types[j % 4]
            if np.array_equal(X[:, j].astype(t).astype(float), X[:, j].astype(float)):
                df[j] = df[j].astype(t)
        df.columns = names
        return df
    return sut.represent(X, rep)


REPS = sorted(set(sut.X_REPS) - {'df_index', 'df_object'}) + ['df', 'df_mixed', 'df_mixed', 'df_null', 'df_cat', 'df_sparse', 'memmap']


@st.composite
def cases(draw, tasks):
    task = draw(st.sampled_from(tasks))
    hp = task[0] == 'H'
    n, d = draw(st.integers(3, 14)), draw(st.integers(1, 4))
    dt = draw(st.sampled_from(X_DTYPES if not hp else ['float64', 'float64', 'float32', 'int8', 'int32', 'uint8', 'bool', 'float16']))
    pool = POOL[dt] if not hp or dt not in ('float32', 'int32', 'float16') else POOL[dt][1:-1]
    if hp and dt == 'float32':
        pool = [-100.5, -3.25, 0.0, 0.5, 1.0, 2.75, 17.0, 1e3]
    if dt in FLOATS and draw(st.booleans()) or (hp and dt == 'float64'):
        pool = [float(np.dtype(dt).type(v)) for v in np.random.RandomState(draw(st.integers(0, 99))).normal(0, 3, 24)]
    X = [[draw(st.sampled_from(pool)) for _ in range(d)] for _ in range(n)]
    k = draw(st.integers(2, 4))
    lab = gen.rule_labels(X, draw(st.sampled_from(['threshold', 'interval', 'xor', 'sum'])), draw(st.integers(0, 400)), k)
    if task[1] == 'C':
        if len(set(lab)) < 2:
            lab[0] += 1
        y = gen.dense_labels(lab)
        ydt = draw(st.sampled_from(['float64', 'int64', 'int8', 'uint8', 'int32', 'float32', 'uint64'] + (['bool'] * 2 if max(y) == 1 else [])))
    else:
        ydt = draw(st.sampled_from(X_DTYPES if not hp else ['float64', 'int8', 'uint8', 'float16', 'bool']))
        yp = Y_POOL[ydt] if not (hp and ydt == 'float64') else [-2.0, -1.5, 0.25, 1.0, 3.0]
        y = [yp[(l * 2 + draw(st.integers(0, 1))) % len(yp)] for l in lab]
    data = {'t': 'rows', 'X': [[float(v) for v in r] for r in X], 'y': [float(v) for v in y]}
    par = draw(gen.settings_for(task, data, prunes=(False, True), sps=(0.0, 0.0, 0.5)))
    if task[1] == 'R' and par['prior'] and draw(st.booleans()):  # a prior on the scale of the targets
        s = max(1.0, max(abs(v) for v in y))
        par['prior'][3] = par['prior'][3] * s * s / 100
    if hp:
        par['opt'] = draw(gen.optimizer(task, ['list', 'quasi', 'rh', '2p']))
    return {'task': task, 'data': data, 'par': par, 'xdt': dt, 'ydt': ydt, 'xrep': draw(st.sampled_from(REPS)), 'qrep': draw(st.sampled_from(REPS)),
            'yrep': draw(st.sampled_from(Y_REPS)), 'names': draw(st.sampled_from(['none', 'list', 'array', 'tuple', 'intcols', 'long', 'uneven'])),
            'verbose': draw(st.booleans())}


def fit_one(c, X, y, Xr, yr, names, verbose):
    m = sut.make_model(c['task'], c['par'])
    with sut.silent():
        m.fit(Xr, yr, verbose=verbose, **({} if names is None else {'feature_names': names}))
    return m, sut.view(m, c['task'])


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    n, d = X.shape
    Xt, yt = X.astype(c['xdt']), y.astype(c['ydt'])
    assert np.array_equal(Xt.astype(float), X) and np.array_equal(yt.astype(float), y), 'not representable'
    base, root = fit_one(c, X, y, X.copy(), y.copy(), None, False)
    cols = [i + 10 for i in range(d)] if c['names'] == 'intcols' else ['col %d' % i for i in range(d)]
    given = {'none': None, 'intcols': None, 'list': ['g%d' % i for i in range(d)], 'tuple': tuple('t%d' % i for i in range(d)),
             'array': np.array(['a%d' % i for i in range(d)]),
             'uneven': ['f' * (1 + (7 * i + n) % 5 * 6) + str(i) for i in range(d)],
             'long': ['{a rather %long} name of a feature, repeated ' * 3 + str(i) for i in range(d)]}[c['names']]
    m, other = fit_one(c, X, y, x_represent(Xt, c['xrep'], cols), y_represent(yt, c['yrep']), given, c['verbose'])
    rec.label(task, 'X ' + c['xrep'], 'X ' + c['xdt'], 'y ' + c['yrep'], 'y ' + c['ydt'])
    rec.nontriv(not root.leaf)
    same = same_tree(root, other, rec, rel=0.0 if task[0] == 'P' else 1e-9)
    # names
    expected = [str(v) for v in (given if given is not None else cols if c['xrep'].startswith('df') else ['x%d' % i for i in range(d)])]
    if task[0] == 'P':
        for x in other.nodes():
            if not x.leaf:
                require(str(x.name) == expected[x.dim], 'feature {} is called {} instead of {}', x.dim, x.name, expected[x.dim])
    if not same:
        return
    # queries in a third representation
    between = np.array([l.thr for l in root.nodes() if not l.leaf and l.dim is not None] + [0.0])[:6]
    between = between[between == between.astype(c['xdt']).astype(float)]  # rows at thresholds, as far as this type can represent them
    Q = np.concatenate([X, X[::-1][:3], X[:1], np.repeat(between[:, None], d, axis=1), np.zeros((1, d))])
    Qr = x_represent(Q.astype(c['xdt']), c['qrep'], cols[::-1])
    exact = task[0] == 'P'
    res = [('predict', sut.checked_predict(base, Q, len(Q)), sut.checked_predict(m, Qr, len(Q))),
           ('raw leaf data', sut.checked_raw(base, Q, len(Q), len(root.posterior)), sut.checked_raw(m, Qr, len(Q), len(root.posterior)))]
    if task[1] == 'C':
        k = len(root.posterior)
        res.append(('predict_proba', sut.checked_proba(base, Q, len(Q), k), sut.checked_proba(m, Qr, len(Q), k)))
    if not root.leaf:
        res.append(('feature_importance', base.feature_importance(), m.feature_importance()))
    for name, a, b in res:
        rec.count()
        ok = np.array_equal(a, b) if exact else np.allclose(a, b, rtol=1e-9, atol=1e-9)
        require(ok, '{} differs between X as {}/{} and as float64 array: {} != {}', name, c['xdt'], c['qrep'], np.asarray(b).tolist(), np.asarray(a).tolist())
    if task[0] == 'P':
        pa, pb = base.prediction_paths(Q), m.prediction_paths(Qr)
        strip = lambda ps: [[(int(s[0]), float(s[2]), bool(s[3])) for s in p] for p in ps]
        require(strip(pa) == strip(pb), 'prediction_paths differ: {} != {}', strip(pb), strip(pa))
        require(all(str(s[1]) == expected[s[0]] for p in pb for s in p), 'prediction_paths use names {} instead of {}', sorted({str(s[1]) for p in pb for s in p}), expected)
        # a single row as a plain list
        one = np.asarray(m.predict(Q[0].tolist()))
        require(one.shape == (1,) and one[0] == res[0][1][0], 'predict of a single row given as a list: {}', one)


CHECK = Check(
    'C04',
    'The same numbers are fitted once as float64 C-ordered array and once in a drawn representation (29 containers for X and 16 for y in all dtypes, '
    'explicit or implicit names, verbose) and queried in a third; values include the extremes of every dtype. Trees, predictions, paths, raw '
    'data, importances and names are compared. Non-trivial: the tree has at least one split.',
    [Part('perpendicular', cases(('PC', 'PR')), run, 5000), Part('hyperplane', cases(('HC', 'HR')), run, 1200)],
    ['Hyperplane trees: directions that tie exactly may be resolved differently when the memory layout changes the rounding of projections.'])
