"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

PBT = 'property-based testing (Hypothesis generators, shrinking, fixed seed)'
T = {
    'C01': 'differential against an exhaustive reference scorer of all thresholds at every node',
    'C02': 'differential against conjugate updates in extended precision',
    'C03': 'structural invariants and independent routing of the training rows',
    'C04': 'metamorphic: same numbers in different containers, dtypes and layouts',
    'C05': 'metamorphic: batches against single rows; before/after comparison of inputs and model',
    'C06': 'invariants over predictions and probabilities',
    'C07': 'differential against reference pruning of the unpruned tree',
    'C08': 'differential against gains recomputed from the training partition',
    'C09': 'replay of every reported path by independent comparison',
    'C10': 'recording optimizer; differential against an extended-precision scorer of all positions along each direction',
    'C11': 'invariants, numerical Jacobians and Kolmogorov-Smirnov tests of the mapped points',
    'C12': 'model-based: interleaved generators against a 60-digit recurrence; discrepancy bounds',
    'C13': 'differential against chain-rule marginal likelihoods',
    'C14': 'model-based operation histories with rejected and failing calls; differential against fresh models',
    'C15': 'structured invalid-input fuzzing of every entry point',
    'C16': 'differential: scikit-learn utilities against fitting and scoring by hand',
    'C17': 'round-trip: parsing the printed tree back',
    'C18': 'metamorphic: row, column, mirror and monotone transforms',
    'C19': 'recorded optimizer evaluations: invariants, determinism, statistical coverage',
    'C20': 'differential against a reference propagation of priors down the tree',
    'C21': 'metamorphic: omitted against explicit settings',
    'C22': 'invariants of every split against the gaps of the data; exhaustive scoring of leaves',
    'C23': 'metamorphic: affine transforms of targets and class permutations',
    'C24': 'differential: perpendicular trees against hyperplane trees restricted to axis directions',
    'C25': 'metamorphic: rotations, reflections, scaling, shifts and row order',
    'C26': 'metamorphic: increasing partition priors',
    'C28': 'simulation-based calibration: statistical identities of the Bayesian model on data drawn from its prior',
    'C29': 'differential: captured output against the nodes of the fitted tree',
    'C27': 'generated schedules (an operation interrupted at drawn source lines by others) and real threads; differential against running alone',
}
NOTE = ('No violation among the generated cases (counts and distribution in the evidence file); never proves absence. '
        'Trusts NumPy/SciPy/scikit-learn and the reference computations in bdt/ref.py (self-tested at start-up); '
        'exact ties and differences within floating-point rounding are not decided. ')
EXTRA = {'C19': 'OptunaOptimizer is only driven through a stand-in for the missing optuna package (bdt/optuna_stub.py).',
         'C16': 'Reference is the installed scikit-learn 1.5.2.', 'C11': 'Statistical tests reject at p < 1e-10.', 'C28': 'Statistical tests with fixed seeds reject at about 1e-12.'}
PY = '/opt/venv/bin/python'
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    'version': 1,
    'setup_cmd': PY + ' bdt/run.py --self-test',
    'checks': [{'property': c, 'quick_cmd': '{} bdt/run.py {} --tier quick'.format(PY, c), 'thorough_cmd': '{} bdt/run.py {} --tier thorough'.format(PY, c),
                'evidence_file': 'evidence/{}.json'.format(c), 'technique': '{}: {}'.format(PBT, T[c]), 'level': 'exploration',
                'level_note': NOTE + EXTRA.get(c, '')} for c in sorted(T)],
    'not_applicable': [],
    'notes': 'No hooks in /repo: everything is observed through the public API and the fitted tree. Repairs of genuine defects are the fix: commits '
             'listed in known_findings.txt. Exit code 2 means the harness itself failed.',
}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
