import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.core import Check, Part, require

SIDES = {'P': ('LHS', 'RHS'), 'H': ('back', 'front')}


@contextlib.contextmanager
def captured():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    Xr = sut.represent(X, c['rep'])
    m = sut.make_model(task, c['par'])
    with captured() as (out, err):
        r = m.fit(Xr, y.copy(), True) if c['q'] % 2 else m.fit(Xr, y.copy(), verbose=True)
    require(r is m, 'fit did not return the model')
    text, noise = out.getvalue(), err.getvalue()
    quiet = sut.make_model(task, c['par'])
    with captured() as (out, err):
        quiet.fit(Xr, y.copy())
    require(not out.getvalue() and not err.getvalue(), 'fit without verbose prints {!r}', out.getvalue() + err.getvalue())
    require(not noise, 'verbose fit writes to standard error: {!r}', noise)
    a, b = sut.snap(sut.view(m, task)), sut.snap(sut.view(quiet, task))
    require(a == b, 'verbose changes the tree: {}', sut.first_diff(a, b))
    # the nodes that are searched: those of the unpruned tree with several points of different targets, and the root
    whole = sut.view(sut.make_model(task, dict(c['par'], prune=False)).fit(Xr, y.copy()), task)
    if sut.assign_train(whole, X).any():
        rec.skip('training rows within rounding of a hyperplane')
        return
    exp = []

    def walk(x, side):
        if x is whole or (x.n > 1 and len(np.unique(y[x.train])) > 1):
            exp.append((x.level, side, x.n))
        if not x.leaf:
            walk(x.c1, SIDES[task[0]][0])
            walk(x.c2, SIDES[task[0]][1])

    walk(whole, 'root')
    got = []
    for line in text.splitlines():
        v = re.fullmatch(r'Training level (\d+) (\w+) +with +(\d+) data points', line.rstrip())
        require(v, 'verbose fit prints {!r}', line)
        got.append((int(v[1]), v[2], int(v[3])))
    rec.count(len(exp))
    require(sorted(got) == sorted(exp) and all(g[0] == 0 or g[0] - 1 in {h[0] for h in got[:i]} for i, g in enumerate(got)), 'verbose fit reports (level, side, points) {} instead of {}', got, exp)
    # queries print nothing
    Q = gen.query_rows(whole, X, c['q'])[:20]
    with captured() as (out, err):
        m.predict(Q), m._get_raw_leaf_data(Q), m.get_depth(), m.get_n_leaves(), str(m), repr(m), m.is_fitted(), m.is_leaf(), m.get_params()
        if task[1] == 'C':
            m.predict_proba(Q)
        if task[0] == 'P':
            m.prediction_paths(Q)
        if not m.is_leaf():
            m.feature_importance()
    require(not out.getvalue() and not err.getvalue(), 'queries print {!r}', out.getvalue() + err.getvalue())
    rec.label(task, 'lines={}'.format(min(len(exp), 8)))
    rec.nontriv(len(exp) > 1)


KW = dict(reps=['C', 'C', 'csr', 'csc', 'df', 'list'], prunes=(False, True), extra={'q': st.integers(0, 999)})
CHECK = Check(
    'C29',
    'Fits of all four models on drawn data in several representations with verbose on and off, standard output and standard error captured; the '
    'lines are compared with the nodes that had to be searched. Non-trivial: more than the root is searched.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(nmax=18), recipe_kw=dict(nmax=200), **KW), run, 2400),
     Part('hyperplane', gen.case(('HC', 'HR'), recipe_kw=dict(nmax=60), **KW), run, 800)])
