"""Generators.  Every case is a JSON-able dict; data() turns its 'data' entry into arrays deterministically.

'rows'   : small explicit data drawn by Hypothesis value by value (shrinks well);
'recipe' : larger data expanded from a drawn seed and drawn shape/distribution parameters."""
import math

import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------ columns of explicit data
ULP_BASES = [1.0, 0.1, -3.0, 1e16, 1e-300, 0.0, 1e308, -7.3e5]


def ulp_step(base, k):
    v = base
    for _ in range(abs(k)):
        v = float(np.nextafter(v, np.inf if k > 0 else -np.inf))
    return v


COL = {
    'binary': lambda c, a: float(c % 2),
    'grid': lambda c, a: float(c % 5),
    'dyadic': lambda c, a: (c - 16) / 8.0,
    'int': lambda c, a: float((c - 16) * (1 + a % 50)),
    'const': lambda c, a: float(a % 3 - 1),
    'signs': lambda c, a: [-1.0, 1.0, -2.0, 2.0][c % 4 if a % 2 else c % 2],
    'ulp': lambda c, a: ulp_step(ULP_BASES[a % len(ULP_BASES)], c % 4),
    'huge': lambda c, a: [-1.7e308, -1e308, -9e307, 0.0, 9e307, 1e308, 1.6e308, 1.7e308][c % 8],
    'tiny': lambda c, a: [0.0, 5e-324, 1e-323, -5e-324, 1e-310, 2.2e-308][c % 6],
    'offset': lambda c, a: 1e6 + c * 0.25,
    'exp': lambda c, a: float(10.0 ** ((c - 16) / 3)),
    'sparse': lambda c, a: 0.0 if c % 4 else (c - 16) / 4.0,
}
SAFE_KINDS = ['binary', 'signs', 'grid', 'dyadic', 'int', 'const', 'offset', 'exp', 'sparse', 'float']
ALL_KINDS = SAFE_KINDS + ['ulp', 'huge', 'tiny']


def codes(n):
    return st.lists(st.integers(0, 32), min_size=n, max_size=n)


@st.composite
def column(draw, n, kinds):
    kind = draw(st.sampled_from(kinds))
    if kind == 'float':
        return draw(st.lists(st.floats(-1000, 1000, width=32), min_size=n, max_size=n))
    a = draw(st.integers(0, 63))
    return [COL[kind](c, a) for c in draw(codes(n))]


def dense_labels(lab):
    """Relabels to 0..k-1 in order of appearance of the values."""
    m = {v: i for i, v in enumerate(sorted(set(lab)))}
    return [m[v] for v in lab]


def rank(col):
    m = {v: i for i, v in enumerate(sorted(set(col)))}
    return [m[v] for v in col]


def rule_labels(X, mode, a, k):
    """Structured targets: they make the tree split, and in specific ways."""
    n, d = len(X), len(X[0])
    j, j2 = a % d, (a // 7) % d
    r = rank([row[j] for row in X])
    r2 = rank([row[j2] for row in X])
    w = 1 + a % 4
    if mode == 'threshold':
        return [int(v * k // (max(r) + 1)) for v in r]
    if mode == 'interval':
        return [(v // w) % k for v in r]
    if mode == 'xor':
        return [(int(v > max(r) / 2) + int(u > max(r2) / 2)) % k for v, u in zip(r, r2)]
    return [(v + u) % k for v, u in zip(r, r2)]


MODES = ['threshold', 'interval', 'interval', 'xor', 'sum', 'free']


@st.composite
def rows(draw, task, nmin=1, nmax=14, dmax=4, kinds=ALL_KINDS, kmax=4, ykinds=('dyadic', 'int', 'float', 'hetero'), dmin=1, multiclass=True):
    n = draw(st.integers(nmin, nmax))
    d = draw(st.integers(dmin, dmax))
    cols = [draw(column(n, kinds)) for _ in range(d)]
    X = [list(r) for r in zip(*cols)]
    if n > 1 and draw(st.integers(0, 3)) == 0:  # repeated rows
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)):
            X[i] = list(X[(i * 7 + 1) % n])
    mode = draw(st.sampled_from(MODES))
    k = draw(st.integers(2, kmax)) if multiclass else 2
    lab = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)) if mode == 'free' \
        else rule_labels(X, mode, draw(st.integers(0, 400)), k)
    if mode != 'free':
        for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
            lab[i] = (lab[i] + 1) % k
    if task[1] == 'C':
        if len(set(lab)) < 2 <= n:
            lab[n // 2] = 1 + lab[n // 2]
        return {'t': 'rows', 'X': X, 'y': dense_labels(lab)}
    yk = draw(st.sampled_from(ykinds))
    noise = draw(codes(n))
    if yk == 'dyadic':
        y = [2.0 * l + (c - 16) / 32 for l, c in zip(lab, noise)]
    elif yk == 'int':
        y = [float(5 * l + c % 3) for l, c in zip(lab, noise)]
    elif yk == 'hetero':  # equal means, different spread: splits whose sides predict the same value
        y = [float((1 if i % 2 else -1) * (l * 8 + 1)) for i, l in enumerate(lab)]
    else:
        y = [v + 3 * l for v, l in zip(draw(st.lists(st.floats(-10, 10, width=32), min_size=n, max_size=n)), lab)]
    return {'t': 'rows', 'X': X, 'y': y}


# ------------------------------------------------------------------ recipes
R_KINDS = ['normal', 'grid', 'binary', 'uniform', 'const', 'sparse', 'dup', 'offset', 'ints', 'signs']


@st.composite
def recipe(draw, task, nmin=15, nmax=200, dmax=6, kinds=R_KINDS, kmax=5, ymodes=('interval', 'noise', 'linear', 'xor', 'step'),
           noises=(0, 0, 3, 10, 30), ykinds=('dyadic', 'float', 'int', 'hetero'), dmin=1, extremes=True):
    n, d, k = draw(st.integers(nmin, nmax)), draw(st.integers(dmin, dmax)), draw(st.integers(2, kmax))
    special = draw(st.integers(0, 39)) if extremes and dmax > 2 and nmax >= 40 else 0
    if special == 38:  # many features
        d = draw(st.sampled_from([8, 12, 17, 33, 65, 130, 260, 300, 520] if task[0] == 'P' else [7, 9, 12, 17, 25, 40]))
        n = min(n, 60) if d > 100 else n
    elif special == 39 and kmax > 4 and task == 'PC':  # many classes
        k = draw(st.sampled_from([11, 17, 33, 65, 129, 259]))
        n, d = min(3 * k, 400) + draw(st.integers(0, 40)), min(d, 3 if k < 200 else 1)
    elif special in (36, 37) and nmax >= 60:  # lengths next to powers of two
        n = 2 ** draw(st.integers(6, 12 if task[0] == 'P' else 10)) + draw(st.sampled_from([-1, 0, 1, 1, 3]))
        d = min(d, 3)
    return {'t': 'recipe', 'task': task, 'n': n, 'd': d, **({'j': draw(st.integers(0, d - 1))} if d > 8 else {}),
            'seed': draw(st.integers(0, 10 ** 6)), 'x': draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=4)),
            'ym': draw(st.sampled_from(ymodes)), 'a': draw(st.integers(0, 60)), 'k': k,
            'noise': draw(st.sampled_from(noises)), 'yk': draw(st.sampled_from(ykinds)) if task[1] == 'R' else 'class'}


def expand(r):
    rs = np.random.RandomState(r['seed'])
    n, d, k = r['n'], r['d'], r['k']
    X = np.empty((n, d))
    for j in range(d):
        kind = r['x'][j % len(r['x'])]
        if kind == 'normal':
            c = rs.normal(0, 2, n)
        elif kind == 'grid':
            c = rs.randint(0, 6, n).astype(float)
        elif kind == 'binary':
            c = rs.randint(0, 2, n).astype(float)
        elif kind == 'uniform':
            c = rs.uniform(-1, 1, n)
        elif kind == 'signs':
            c = rs.choice([-1.5, 1.5, -3.0, 3.0], n)
        elif kind == 'const':
            c = np.full(n, 3.5)
        elif kind == 'sparse':
            c = np.where(rs.uniform(size=n) < .7, 0.0, np.round(rs.normal(0, 3, n) * 8) / 8)
        elif kind == 'dup':
            c = rs.choice(rs.normal(0, 2, max(1, n // 4)), n)
        elif kind == 'offset':
            c = 1e7 + rs.randint(0, 1000, n) / 16
        else:
            c = rs.randint(-40, 41, n).astype(float)
        X[:, j] = c
    j, j2, a = r.get('j', r['a']) % d, (r['a'] // 3) % d, r['a']
    order = np.argsort(np.argsort(X[:, j], kind='stable'), kind='stable')
    rk, rk2 = np.unique(X[:, j], return_inverse=True)[1].reshape(-1), np.unique(X[:, j2], return_inverse=True)[1].reshape(-1)
    if r['ym'] == 'interval':
        lab = (rk * (2 + a % 7) // (rk.max() + 1)) % k
    elif r['ym'] == 'noise':
        lab = rs.randint(0, k, n)
    elif r['ym'] == 'linear':
        v = X @ rs.normal(size=d)
        lab = np.argsort(np.argsort(v)) * k // n
    elif r['ym'] == 'xor':
        lab = ((rk > rk.max() / 2).astype(int) + (rk2 > rk2.max() / 2)) % k
    elif r['ym'] == 'rare':  # all but a few rows are of one class
        lab = (order >= n - 1 - a).astype(int)
    elif r['ym'] == 'uneven':  # every class everywhere, but not equally often
        lab = np.where(rs.uniform(size=n) < np.where(rk * 2 > rk.max(), .4, .05), 1 + rk % (k - 1), 0)
    elif r['ym'] == 'alternate':
        lab = rk % k
    else:
        lab = rk * k // (rk.max() + 1)
    flip = rs.uniform(size=n) * 100 < r['noise']
    lab = np.where(flip, rs.randint(0, k, n), lab).astype(int)
    if r['task'][1] == 'C':
        lab[:k] = np.arange(k)[:n]
        return X, np.unique(lab, return_inverse=True)[1].reshape(-1).astype(float)
    if r['yk'] == 'dyadic':
        y = 2.0 * lab + rs.randint(-32, 33, n) / 64
    elif r['yk'] == 'int':
        y = (5 * lab + rs.randint(0, 3, n)).astype(float)
    elif r['yk'] == 'hetero':
        y = (2 * rs.randint(0, 2, n) - 1) * (8.0 * lab + 1)
    else:
        y = 3 * lab + rs.normal(0, 1, n)
    return X, y


def data(d):
    """-> X (float64, C order), y (float64)"""
    if d['t'] == 'rows':
        X, y = np.array(d['X'], dtype=float), np.array(d['y'], dtype=float)
    else:
        X, y = expand(d)
    if d.get('ys'):
        y = y * 2.0 ** d['ys'][0] + d['ys'][1]
    return (X * 2.0 ** d['e'], y) if d.get('e') else (X, y)


def n_classes(y):
    return int(y.max()) + 1


# ------------------------------------------------------------------ model settings
def pps():
    return st.one_of(st.sampled_from([0.5, 0.9, 0.99, 0.99, 0.9, 0.999, 0.3, 0.05, 0.95]), st.sampled_from([0.9, 0.99, 0.999]), st.floats(0.02, 0.9995), st.sampled_from([1e-9, 1e-3, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12, 0.9, 0.99, 0.99, 0.95]))


ALPHAS = [1.0, 1.0, 0.5, 0.5, 0.1, 0.2, 0.3, 2.0, 1.0, 0.1, 5.0, 3.7, 30.0, 0.01, 1e-3, 1e-6, 250.0]


@st.composite
def prior_for(draw, task, k, none=True, mus=(0.0, 0.0, 1.5, -3.0, 2.0), symmetric=None, integral=False):
    """k: number of classes (classification only)."""
    if none and draw(st.integers(0, 7)) == 0:
        return None
    if task[1] == 'C':
        al = [1.0, 2.0, 5.0, 30.0] if integral else ALPHAS
        if symmetric if symmetric is not None else draw(st.booleans()):
            return [draw(st.sampled_from(al))] * k
        if not integral and draw(st.integers(0, 3)) == 0:  # almost, but not quite, symmetric
            a, e = draw(st.sampled_from(al)), draw(st.sampled_from([1e-10, 1e-7, 1e-5, 1e-3]))
            return [a * (1 + e * draw(st.integers(-2, 3))) for _ in range(k)]
        return [draw(st.sampled_from(al)) for _ in range(k)]
    return [draw(st.sampled_from(mus)), draw(st.sampled_from([1.0, 0.1, 0.1, 0.5, 0.2, 0.01, 3.0, 20.0])),
            draw(st.sampled_from([0.5, 1.0, 2.0, 10.0, 0.3, 0.01, 100.0])), draw(st.sampled_from([0.5, 1.0, 0.1, 3.0, 20.0, 0.01, 1e-6, 1e4]))]


def k_of(d):
    if d['t'] == 'rows':
        return int(max(d['y'])) + 1
    return n_classes(data(d)[1])


@st.composite
def settings_for(draw, task, d, deltas=(0, 0, 0, 1, 0.5, 0.1), prunes=(False,), sps=(0.0, 0.0, 0.0, 0.0, 0.0, 0.5, 1.0, 2.0, 0.1), none=True, **kw):
    par = {'pp': draw(pps()), 'prior': draw(prior_for(task, k_of(d) if task[1] == 'C' else 0, none, **kw)),
           'delta': draw(st.sampled_from(deltas)), 'prune': draw(st.sampled_from(prunes)), 'sp': draw(st.sampled_from(sps))}
    if d['t'] == 'recipe' and d['n'] > 700:
        par['pp'] = min(par['pp'], 0.9995)  # no hopelessly deep trees: there is a recursion per level
    if par['prior'] is not None:
        par['ptype'] = draw(st.sampled_from(['list', 'tuple', 'array', 'list']))
    return par


# ------------------------------------------------------------------ optimizers
@st.composite
def directions(draw, nmax=12):
    """Random (distinct) directions, unit vectors and repeated/mirrored ones."""
    rs = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    m = draw(st.integers(1, nmax))
    out = []
    for i in range(m):
        kind = draw(st.integers(0, 7))
        if kind == 7 and out:  # next to another one
            v = list(out[draw(st.integers(0, len(out) - 1))])
            v[draw(st.integers(0, 1))] += draw(st.sampled_from([1e-6, -1e-7, 3e-8, 1e-9])) * max(map(abs, v))
        elif kind == 6:  # nearly along an axis
            e = draw(st.sampled_from([1e-2, 9e-4, 1e-4, 1e-5]))
            v = [float(c) for c in np.round(rs.normal(size=6), 3) * e]
            v[draw(st.integers(0, 1))] = draw(st.sampled_from([1.0, -1.0]))
        elif kind == 0:
            v = [0.0] * 6
            v[draw(st.integers(0, 5))] = draw(st.sampled_from([1.0, -1.0, 3.0]))
            v = v if any(v[:2]) else [1.0] + v[1:]
        elif kind == 1 and out:
            v = [-c for c in out[draw(st.integers(0, len(out) - 1))]]
        else:
            v = [round(float(c), 3) for c in rs.normal(size=6)]
        out.append(v)
    if draw(st.integers(0, 5)) == 0:  # the length of a direction does not matter
        i, e = draw(st.integers(0, m - 1)), draw(st.sampled_from([1e-110, 1e-40, 1e-12, 1e9, 1e60, 1e110]))
        out[i] = [c * e for c in out[i]]
    return out


@st.composite
def optimizer(draw, task, kinds=('list', 'list', 'quasi', 'rh', '2p', 'sa', 'gd', 'de')):
    k = draw(st.sampled_from(kinds))
    if k == '2p' and task[1] == 'R':
        k = 'rh'
    if k == 'list':
        return {'o': 'list', 'dirs': draw(directions())}
    if k == 'quasi':
        return {'o': 'quasi', 'n': draw(st.integers(1, 40))}
    if k in ('rh', '2p', 'optuna'):
        return {'o': k, 'n': draw(st.integers(1, 40)), 'seed': draw(st.integers(0, 1000))}
    if k == 'sa':
        nk = draw(st.integers(1, 6))
        return {'o': 'sa', 'n_scan': nk + draw(st.integers(0, 10)), 'n_keep': nk, 'spread': draw(st.sampled_from([0.5, 0.8, 0.95])), 'seed': draw(st.integers(0, 1000))}
    if k == 'gd':
        nk = draw(st.integers(1, 3))
        return {'o': 'gd', 'n_init': nk + draw(st.integers(0, 5)), 'n_keep': nk}
    return {'o': 'de', 'seed': draw(st.integers(0, 1000)), 'kw': {'maxiter': draw(st.integers(1, 3)), 'popsize': draw(st.integers(2, 5))}}


HP_KINDS = ['grid', 'signs', 'dyadic', 'int', 'float', 'const', 'sparse', 'binary', 'offset']


@st.composite
def case(draw, tasks=('PC', 'PR'), rows_kw=None, recipe_kw=None, recipe_share=0.4, opt_kinds=None, extra=None, reps=None, scales=True, yscales=True, **set_kw):
    """The standard case: task, data, settings (and optimizer), representation."""
    task = draw(st.sampled_from(tasks))
    hp = task[0] == 'H'
    rkw, ckw = dict(rows_kw or {}), dict(recipe_kw or {})
    if hp:
        rkw.setdefault('kinds', HP_KINDS)
        ckw.setdefault('nmax', 70)
        set_deltas = set_kw.get('deltas', (0, None, 0, 1, 0.5))
    else:
        set_deltas = set_kw.get('deltas', (0, 0, 0, 1, 0.5, 0.1))
    kw = dict(set_kw)
    kw['deltas'] = tuple(x for x in set_deltas if hp or x is not None)
    d = draw(recipe(task, **ckw)) if draw(st.integers(0, 99)) < 100 * recipe_share else draw(rows(task, **{'nmin': 2, **rkw}))
    c = {'task': task, 'data': d, 'par': draw(settings_for(task, d, **kw))}
    if scales and draw(st.integers(0, 7)) == 0:  # features measured on another scale altogether
        e = draw(st.sampled_from([-100, -50, -40, -30, -12, 12, 30, 60]))
        if d['t'] == 'recipe' or max(abs(v) for r in d['X'] for v in r) < 1e200:
            d['e'] = e
    if scales and yscales and task[1] == 'R' and draw(st.integers(0, 6)) == 0:  # and targets
        t, o = d['ys'] = draw(st.sampled_from([[0, 2.0 ** 10], [0, -2.0 ** 20], [0, 1e6], [0, 2.0 ** 30], [-30, 0.0], [30, 0.0], [-10, 1.0], [10, -1e8], [-4, 3e5], [3, 2.0 ** 36]]))
        if c['par']['prior'] is not None:
            mu, kappa, alpha, beta = c['par']['prior']
            c['par']['prior'] = [mu * 2.0 ** t + o, kappa, alpha, beta * 4.0 ** t]
    if hp:
        c['par']['opt'] = draw(optimizer(task, opt_kinds) if opt_kinds else optimizer(task))
    if reps:
        c['rep'] = draw(st.sampled_from(reps))
    if extra:
        for name, s in extra.items():
            c[name] = draw(s)
    return c


@st.composite
def long_case(draw, tasks=('PC', 'PR'), extra=None, reps=None, ns=(1000, 1001, 2049, 4097, 9000, 32769, 65536, 66001, 70001, 131073), **set_kw):
    """Many rows, shallow trees."""
    task = draw(st.sampled_from(tasks))
    d = draw(recipe(task, dmax=2, noises=(0, 0, 1), kmax=4, ymodes=('interval', 'step', 'xor', 'rare', 'rare', 'uneven'), kinds=['normal', 'grid', 'uniform', 'dup', 'ints', 'const'], ykinds=('dyadic', 'int', 'float')))
    d['n'] = draw(st.sampled_from(ns)) + draw(st.integers(0, 99))
    if d['n'] > 20000:
        d['noise'] = 0
    if task[0] == 'P' and 'deltas' in set_kw:
        set_kw = dict(set_kw, deltas=tuple(v for v in set_kw['deltas'] if v is not None))
    c = {'task': task, 'data': d, 'par': draw(settings_for(task, d, **set_kw))}
    if reps:
        c['rep'] = draw(st.sampled_from(reps))
    for name, s in (extra or {}).items():
        c[name] = draw(s)
    return c


@st.composite
def wide_case(draw, tasks=('PC', 'PR'), extra=None, reps=None, opt_kinds=None, ymodes=('step', 'step', 'interval'), ds=None, nmax=60, **set_kw):
    """Many features, any of which may be the one that matters."""
    task = draw(st.sampled_from(tasks))
    if task[0] == 'P' and 'deltas' in set_kw:
        set_kw = dict(set_kw, deltas=tuple(v for v in set_kw['deltas'] if v is not None))
    d = draw(recipe(task, nmin=16, nmax=nmax, noises=(0, 0, 3), kmax=3, ymodes=ymodes, kinds=['normal', 'grid', 'uniform', 'dup', 'ints', 'sparse', 'binary'], ykinds=('dyadic', 'int', 'float'), extremes=False))
    d['d'] = draw(st.sampled_from(ds or ([33, 65, 129, 130, 200, 257, 300, 400, 520] if task[0] == 'P' else [7, 9, 12, 13, 17, 25, 40])))
    d['j'] = draw(st.one_of(st.integers(0, d['d'] - 1), st.sampled_from([0, d['d'] // 2, d['d'] - 2, d['d'] - 1])))
    c = {'task': task, 'data': d, 'par': draw(settings_for(task, d, **set_kw))}
    if task[0] == 'H':
        c['par']['opt'] = draw(optimizer(task, **({'kinds': opt_kinds} if opt_kinds else {})))
    if reps:
        c['rep'] = draw(st.sampled_from(reps))
    for name, s in (extra or {}).items():
        c[name] = draw(s)
    return c


@st.composite
def class_case(draw, extra=None, reps=None, ks=(11, 33, 65, 100, 129, 130, 200, 257, 259, 300), **set_kw):
    """Many classes, some of them with many points."""
    k = draw(st.sampled_from(ks))
    d = draw(recipe('PC', dmax=2, noises=(0, 0, 3), ymodes=('step', 'step', 'uneven', 'uneven', 'interval'), kinds=['normal', 'grid', 'uniform', 'ints'], extremes=False))
    d['k'], d['n'] = k, 2 * k + draw(st.integers(0, 40)) + draw(st.sampled_from([0, 0, 300, 700, 1500]))
    if 'deltas' in set_kw:
        set_kw = dict(set_kw, deltas=tuple(v for v in set_kw['deltas'] if v is not None))
    c = {'task': 'PC', 'data': d, 'par': draw(settings_for('PC', d, **set_kw))}
    c['par']['pp'] = min(c['par']['pp'], .99)
    if reps:
        c['rep'] = draw(st.sampled_from(reps))
    for name, s in (extra or {}).items():
        c[name] = draw(s)
    return c


# ------------------------------------------------------------------ query rows
def query_rows(root, X, seed, m=12):
    """Training rows, rows exactly at / next to thresholds, and random rows within and outside the range of the data."""
    rs = np.random.RandomState(seed)
    n, d = X.shape
    out = [X[rs.randint(0, n, min(n, m))]]
    lo, hi = X.min(axis=0), X.max(axis=0)
    span = np.where(np.isfinite(hi - lo), hi - lo, 1.0)
    out.append(lo + span * rs.uniform(-0.3, 1.3, (m, d)))
    out.append(rs.normal(0, 10, (2, d)))
    out.append(np.zeros((1, d)))
    out.append(np.where(rs.uniform(size=(2, d)) < .5, 0.0, X[rs.randint(0, n, 2)]))
    inner = [x for x in root.nodes() if not x.leaf]
    if inner and inner[0].dim is not None:
        for i in range(m):
            x = inner[rs.randint(len(inner))]
            row = X[rs.randint(n)].copy()
            for z in [x] + [inner[rs.randint(len(inner))] for _ in range(rs.randint(0, 2))]:
                v = [z.thr, np.nextafter(z.thr, -np.inf), np.nextafter(z.thr, np.inf)][rs.randint(3)]
                row[z.dim] = v
            out.append(row[None])
    elif inner:
        out.append(X.mean(axis=0)[None] + rs.normal(0, 1, (m, d)) * (span / 3))
    Q = np.concatenate(out)
    Q = np.where(np.isfinite(Q), Q, 0.0)
    return Q[rs.permutation(len(Q))]
