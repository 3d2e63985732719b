import numpy as np

from bdt import gen, ref, sut
from bdt.common import fitted, classes_of, split_scores
from bdt.core import Check, Part, require


def run(c, rec):
    X, y, m, root = fitted(c, rec)
    task = c['task']
    k = classes_of(c, y) if task[1] == 'C' else 0
    pp, sp = c['par'].get('pp', 0.99), c['par'].get('sp', 0.0)
    amb = sut.assign_train(root, X).any()
    for x in root.nodes():
        if x.leaf:
            require(x.lns is None and x.lsp is None, 'leaf at level {} records log probabilities {} {}', x.level, x.lns, x.lsp)
            continue
        require(x.lns is not None and x.lsp is not None and np.isfinite(x.lns) and np.isfinite(x.lsp), 'split node at level {} records {} {}', x.level, x.lns, x.lsp)
        require(x.lsp > x.lns, 'split node at level {}: best split {} does not exceed no split {}', x.level, x.lsp, x.lns)
        if amb:
            rec.skip('training rows within rounding of a hyperplane')
            continue
        s = split_scores(x, X, y, task, sut.node_prior(x, task, k), pp, sp)
        if s is None:
            rec.skip('admissible positions along a direction within rounding')
            continue
        no, sp_, t1, t2 = s
        rec.count()
        require(abs(x.lns - no) <= t1, 'split node at level {} with {} points: log probability of not splitting {} instead of {}', x.level, x.n, x.lns, no)
        require(abs(x.lsp - sp_) <= t2, 'split node at level {} with {} points: log probability of the split {} instead of {}', x.level, x.n, x.lsp, sp_)
    rec.label('depth={}'.format(min(6, root.depth())), 'k={}'.format(min(k, 6)), 'delta' if c['par'].get('delta') else 'no delta')
    rec.nontriv(not root.leaf)


KW = dict(prunes=(False, False, True))
CHECK = Check(
    'C13',
    'Fits of all four models; at every split node the recorded log probabilities are compared with the reference evidence (rising factorials '
    'in extended precision / closed Normal-gamma form, itself tested against the chain of Student-t predictives at start-up) of the training '
    'targets of the node and of its children. Non-trivial: the tree has at least one split.',
    [Part('perpendicular', gen.case(('PC', 'PR'), rows_kw=dict(kinds=gen.SAFE_KINDS, nmin=4, nmax=20, kmax=6), recipe_kw=dict(nmax=400, kmax=12), recipe_share=.6, **KW), run, 4500),
     Part('hyperplane', gen.case(('HC', 'HR'), recipe_share=.6, recipe_kw=dict(nmax=70, kmax=6), **KW), run, 900),
     Part('wide', gen.wide_case(**KW), run, 96),
     Part('long', gen.long_case(**KW), run, 40)],
    [], ref.selftest)
