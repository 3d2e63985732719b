"""Another Python process (other hash seed, other interpreter state) that fits and queries on request.

Run as a program it reads pickled requests from standard input and answers on standard output."""
import os
import pickle
import subprocess
import sys

_procs = {}


def ask(hash_seed, request):
    """-> the answer to (task, par, X, y, Q, pickled model) of a process with the given hash seed"""
    if hash_seed not in _procs or _procs[hash_seed].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        _procs[hash_seed] = subprocess.Popen([sys.executable, '-m', 'bdt.elsewhere'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    p = _procs[hash_seed]
    pickle.dump(request, p.stdin)
    p.stdin.flush()
    return pickle.load(p.stdout)


def results(m, task, Q):
    from bdt import sut
    out = {'str': str(m), 'tree': sut.snap(sut.view(m, task)), 'predict': m.predict(Q).tolist(), 'raw': m._get_raw_leaf_data(Q).tolist(), 'leaves': m.get_n_leaves()}
    if task[1] == 'C':
        out['proba'] = m.predict_proba(Q).tolist()
    if task[0] == 'P':
        out['paths'] = [[(int(s[0]), str(s[1]), float(s[2]), bool(s[3])) for s in p] for p in m.prediction_paths(Q)]
    if not m.is_leaf():
        out['importance'] = m.feature_importance().tolist()
    return out


def answer(request):
    from bdt import sut
    task, par, X, y, names, Q, pickled = request
    out = {'loaded': results(pickle.loads(pickled), task, Q)}
    m = sut.make_model(task, par)
    m.fit(X, y, feature_names=names)
    out['fitted'] = results(m, task, Q)
    out['pickled'] = pickle.dumps(m)
    return out


if __name__ == '__main__':
    stdin, stdout = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import bdt.boot  # noqa: F401
    import bdt.sut  # noqa: F401
    while True:
        try:
            request = pickle.load(stdin)
        except EOFError:
            break
        try:
            a = answer(request)
        except Exception as e:  # noqa: BLE001 (reported by the other side)
            a = {'error': '{}: {}'.format(type(e).__name__, e)}
        pickle.dump(a, stdout)
        stdout.flush()
