import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from bdt import gen, sut
from bdt.core import Check, Part, Violation, require

LINE = re.compile(r'^((?: │|   )*) ([├└]) (.*)$')
COND = re.compile(r'^(<|≥)(\S+): (.*)$')
SIDE = re.compile(r'^(back |front): (.*)$')
LEAF = re.compile(r'^y=(\S+), n=(\d+)(?:, p\(y\)=\[([^\]]*)\])?$')
ARRAY = re.compile(r'(, p\(y\)=|HP\(origin=|, normal=)\[[^\]]*$')
HP = re.compile(r'^HP\(origin=\[([^\]]*)\], normal=\[([^\]]*)\]\)$')


def vector(s):
    return np.array([float(v) for v in s.split()])


def parse(text, task):
    """-> nested dicts; raises Violation if the text is not a well-formed rendering of a binary tree."""
    lines = []
    for l in text.split('\n'):  # NumPy breaks long vectors into several lines
        if lines and ARRAY.search(lines[-1]):
            lines[-1] += ' ' + l
        else:
            lines.append(l)
    pos = [0]

    def body(s):
        m = LEAF.match(s)
        if m and (m.group(3) is not None) == (task[1] == 'C'):
            return {'y': float(m.group(1)), 'n': int(m.group(2)), 'p': None if m.group(3) is None else vector(m.group(3)), 'line': s}
        if task[0] == 'H':
            m = HP.match(s)
            require(m is not None, 'neither a leaf nor a hyperplane: {!r}', s)
            return {'origin': vector(m.group(1)), 'normal': vector(m.group(2)), 'line': s}
        name, sep, value = s.rpartition('=')
        require(sep == '=', 'neither a leaf nor a split: {!r}', s)
        return {'name': name, 'thr': float(value), 'line': s}

    def node(prefix, s):
        x = body(s)
        pos[0] += 1
        if 'y' in x:
            return x
        for i, marker in enumerate('├└'):
            require(pos[0] < len(lines), 'the text ends before both children of {!r}', s)
            m = LINE.match(lines[pos[0]])
            require(m is not None, 'malformed line {!r}', lines[pos[0]])
            require(m.group(1) == prefix and m.group(2) == marker, 'line {!r} should be the {} child of {!r}', lines[pos[0]], ('first', 'second')[i], s)
            rest = m.group(3)
            c = (SIDE if task[0] == 'H' else COND).match(rest)
            require(c is not None, 'line {!r} has no condition', lines[pos[0]])
            if task[0] == 'H':
                require(c.group(1) == ('back ', 'front')[i], 'child {} of {!r} is labelled {!r}', i + 1, s, c.group(1))
            else:
                require(c.group(1) == '<≥'[i] and float(c.group(2)) == x['thr'], 'child {} of {!r} has the condition {}{}', i + 1, s, c.group(1), c.group(2))
            x[i] = node(prefix + (' │' if i == 0 else '   '), c.groups()[-1])
        return x

    try:
        m = node('', lines[0])
    except ValueError as e:
        raise Violation('{} in the text {!r}'.format(e, text[:2000]))
    require(pos[0] == len(lines), '{} lines left over', len(lines) - pos[0])
    return m


def match(p, x, names, path='root'):
    """Compares the parsed text with the tree itself."""
    if 'y' in p:
        require(x.leaf, '{}: printed as a leaf but is a split', path)
        return 1
    require(not x.leaf, '{}: printed as a split but is a leaf', path)
    if x.dim is not None:
        require(p['thr'] == x.thr and p['name'] == str(names[x.dim]), '{}: printed as {!r} but is {} at {}', path, p['line'], names[x.dim], x.thr)
    else:
        for w in ('origin', 'normal'):
            v = getattr(x, w)
            require(np.allclose(p[w], v, rtol=1e-6, atol=1e-8 + 1e-7 * np.abs(v).max()), '{}: {} printed as {} but is {}', path, w, p[w].tolist(), v.tolist())
    return match(p[0], x.c1, names, path + '.1') + match(p[1], x.c2, names, path + '.2')


def follow(p, row, names):
    """The line reached by a row; None if it comes too close to a hyperplane printed with limited precision."""
    while 'y' not in p:
        if 'thr' in p:
            p = p[0] if row[names.index(p['name'])] < p['thr'] else p[1]
        else:
            v = float((row - p['origin']) @ p['normal'])
            if abs(v) <= 1e-5 * (np.abs(row).max() + np.abs(p['origin']).max()) * len(row) + 1e-7:
                return None
            p = p[0] if v < 0 else p[1]
    return p


def make_names(kind, d):
    return {'default': None, 'given': ['age %d' % j for j in range(d)], 'odd': ['a=b:c<%d' % j for j in range(d)], 'unicode': ['größe│%d' % j for j in range(d)],
            'tuple': tuple('t%d' % j for j in range(d)), 'array': np.array(['n%d' % j for j in range(d)]), 'ints': list(range(10, 10 + d)),
            'uneven': ['f' * (1 + j % 3 * 9) + str(j) for j in range(d)][::-1],
            'braces': ['{%d}%%s{x} {{y}}' % j for j in range(d)], 'long': ['a rather long name of a feature ' * 4 + str(j) for j in range(d)], 'short': ['' if j == d // 2 else ' ' * (j + 1) for j in range(d)],
            'df': ['col%d' % j for j in range(d)], 'df_given': ['other%d' % j for j in range(d)]}[kind]


def run(c, rec):
    task = c['task']
    X, y = gen.data(c['data'])
    n, d = X.shape
    m = sut.make_model(task, c['par'])
    require(str(m) == 'Unfitted model', 'an unfitted model prints as {!r}', str(m))
    given = make_names(c['names'], d)
    if c['names'] == 'df':
        m.fit(pd.DataFrame(X, columns=given), y.copy())
    elif c['names'] == 'df_given':
        m.fit(pd.DataFrame(X, columns=['hidden%d' % j for j in range(d)]), y.copy(), feature_names=given)
    else:
        m.fit(X.copy(), y.copy(), feature_names=given)
    names = [str(s) for s in (given if given is not None else ['x%d' % j for j in range(d)])]
    root = sut.view(m, task)
    text = str(m)
    require(repr(m) == text, 'repr and str differ')
    p = parse(text, task)
    leaves = match(p, root, names)
    require(leaves == m.get_n_leaves(), '{} leaves are printed but there are {}', leaves, m.get_n_leaves())
    Q = np.concatenate([X if n <= 700 else X[np.random.RandomState(c['q']).randint(0, n, 300)], gen.query_rows(root, X, c['q'])])
    owner, amb = sut.leaf_of(root, Q)
    pred = sut.checked_predict(m, Q, len(Q))
    proba = sut.checked_proba(m, Q, len(Q), len(root.posterior)) if task[1] == 'C' else None
    for i, row in enumerate(Q):
        l = follow(p, row, names)
        if l is None or amb[i]:
            rec.skip('row within printing precision of a hyperplane')
            continue
        rec.count()
        require(l['n'] == owner[i].n, 'row {} reaches the line {!r} but its leaf holds {} points', row.tolist(), l['line'], owner[i].n)
        require(l['y'] == float(pred[i]), 'row {} reaches the line {!r} but is predicted as {}', row.tolist(), l['line'], pred[i])
        if task[1] == 'C':
            require(l['p'].shape == proba[i].shape and np.allclose(l['p'], proba[i], rtol=1e-6, atol=2e-8), 'row {} reaches the line {!r} but has probabilities {}', row.tolist(), l['line'], proba[i].tolist())
    depth = root.depth()
    rec.label(task, 'names ' + c['names'], 'depth={}'.format(min(depth, 5)), 'pruned' if c['par']['prune'] else 'unpruned')
    rec.nontriv(depth > 1)


EXTRA = {'names': st.sampled_from(['default', 'default', 'given', 'odd', 'unicode', 'tuple', 'array', 'ints', 'df', 'df_given', 'braces', 'long', 'short', 'uneven']), 'q': st.integers(0, 999)}
KW = dict(prunes=(False, False, True), extra=EXTRA)
CHECK = Check(
    'C17',
    'Fitted models over drawn data, settings and feature names; str(model) is parsed by an independent parser (nesting bars, markers, '
    'conditions, leaves), compared with the tree node by node, and followed for training rows, threshold values and random rows to a line that '
    'must show the leaf\'s count, the prediction and the class probabilities. Non-trivial: the tree has nested splits.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(nmax=18), recipe_kw=dict(nmax=150, kmax=4), recipe_share=.5, **KW), run, 2400),
     Part('wide', gen.wide_case(**KW), run, 96),
     Part('long', gen.long_case(**KW), run, 40),
     Part('hyperplane', gen.case(('HC', 'HR'), rows_kw=dict(nmax=16, dmax=4), recipe_kw=dict(nmax=60, dmax=4, kmax=4), recipe_share=.5,
                                 opt_kinds=('list', 'list', 'rh', 'quasi', 'sa'), **KW), run, 900)],
    ['Hyperplanes are printed with 8 digits: rows closer to one than 1e-5 of the data range are not followed.',
     'Lines of long vectors, which NumPy wraps, are joined before parsing.'])
