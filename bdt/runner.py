"""Runs one check: forked workers driving Hypothesis, shrinking, replay files, evidence."""
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from bdt.boot import PKG, REPO, VERIF
from bdt.core import CaseTimeout, Recorder, StopRun, Violation

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.errors

N_WORKERS = int(os.environ.get('BDT_WORKERS', '8'))
CASE_CPU_S = 120
SHRINK_S = 20
UNREPRODUCED_LIMIT = 2
QUICK_WALL_S = 240
SLOW = float(os.environ.get('BDT_SLOW', '0'))  # report cases that take more CPU time
THOROUGH_WALL_S = int(os.environ.get('BDT_THOROUGH_S', '600'))


def mix(*parts):
    import hashlib
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:7], 'big')


def classify_exception(e):
    """Exceptions raised by the code under test on valid input violate the property; everything else is an error of the harness."""
    if isinstance(e, Violation):
        return 'violation', str(e)
    if isinstance(e, CaseTimeout):
        return 'violation', 'did not finish within {} s of CPU time: {}'.format(CASE_CPU_S, ''.join(traceback.format_tb(e.__traceback__)[-3:]))
    files = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
    here = os.path.join(VERIF, 'bdt')
    last_repo = max([i for i, f in enumerate(files) if os.path.realpath(f).startswith(PKG)], default=-1)
    last_here = max([i for i, f in enumerate(files) if os.path.realpath(f).startswith(here)], default=-1)
    if last_repo > last_here and not isinstance(e, MemoryError):
        return 'violation', 'unexpected {}: {}\n{}'.format(type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-4:]))
    return 'error', ''.join(traceback.format_exception(type(e), e, e.__traceback__))


def run_case(part, case, rec):
    """Runs one case under a CPU time limit; returns None or ('violation'|'error', text)."""
    def on_timeout(*a):
        raise CaseTimeout()

    old = signal.signal(signal.SIGVTALRM, on_timeout)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    t = time.process_time()
    try:
        rec.start()
        part.run(case, rec)
        rec.finish(part.name, case)
        if SLOW and time.process_time() - t > SLOW:
            print('{:.1f} s: part {} {}'.format(time.process_time() - t, part.name, json.dumps(case, default=str)[:1000]), file=sys.stderr)
        return None
    except StopRun:
        raise
    except Exception as e:
        kind, text = classify_exception(e)
        return kind, text
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class PartRun:
    def __init__(self, part, rec, stop, deadline):
        self.part, self.rec, self.stop, self.deadline = part, rec, stop, deadline
        self.failure = None  # (size, case, text)
        self.error = None
        self.first_failure = None
        self.truncated = False

    def reproducible(self, case):
        """Whether a failure shows again; a last bit that differs between two identical computations is no violation."""
        return any(run_case(self.part, case, Recorder()) is not None for _ in range(4))

    def body(self, case):
        if self.first_failure is None:
            if self.stop.is_set():
                raise StopRun()
            if time.monotonic() > self.deadline:
                self.truncated = True
                raise StopRun()
        elif time.monotonic() > self.first_failure + SHRINK_S:
            raise StopRun()
        res = run_case(self.part, case, self.rec)
        if res is None:
            return
        kind, text = res
        if kind == 'error':
            self.error = 'case {}\n{}'.format(json.dumps(case, default=str)[:3000], text)
            raise StopRun()
        if self.first_failure is None and 'did not finish within' not in text and not self.reproducible(case):
            self.rec.unreproduced += 1
            if self.rec.unreproduced < UNREPRODUCED_LIMIT:
                return
        size = len(json.dumps(case, default=str))
        if self.failure is None or size < self.failure[0]:
            self.failure = (size, case, text)
        if self.first_failure is None:
            self.first_failure = time.monotonic()
            self.stop.set()
        if 'did not finish within' in text:
            raise StopRun()
        raise Violation(text)

    def run(self, seed, n_examples):
        @hypothesis.seed(seed)
        @settings(database=None, deadline=None, max_examples=max(1, n_examples), print_blob=False, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
        @given(self.part.strategy)
        def test(case):
            self.body(case)

        try:
            test()
        except (Violation, StopRun):
            pass
        except hypothesis.errors.HypothesisException as e:  # e.g. Flaky: a recorded failure is still a failure
            if self.failure is None:
                self.error = traceback.format_exc()
        except BaseException as e:
            if isinstance(e, (SystemExit, KeyboardInterrupt)):
                raise
            if self.failure is None and self.error is None:
                self.error = traceback.format_exc()


def worker(check, tier, seed, w, stop, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rec = Recorder()
    out = {'failure': None, 'error': None, 'truncated': [], 'rounds': 0}
    start = time.monotonic()
    try:
        wall = QUICK_WALL_S if tier == 'quick' else THOROUGH_WALL_S
        rnd = 0
        while True:
            for part in check.parts:
                n = part.quick // N_WORKERS + (1 if w < part.quick % N_WORKERS else 0)
                if rnd > 0 and part.thorough_weight != 1.0:
                    n = int(n * part.thorough_weight)
                if n <= 0:
                    continue
                pr = PartRun(part, rec, stop, start + wall)
                pr.run(mix(seed, check.id, part.name, w, rnd), n)
                if pr.truncated:
                    out['truncated'].append(part.name)
                if pr.failure is not None:
                    out['failure'] = (pr.failure[0], part.name, pr.failure[1], pr.failure[2])
                if pr.error is not None:
                    out['error'] = 'part {}: {}'.format(part.name, pr.error)
                if out['failure'] or out['error'] or stop.is_set():
                    break
            rnd += 1
            out['rounds'] = rnd
            if out['failure'] or out['error'] or stop.is_set() or tier == 'quick' or time.monotonic() > start + wall:
                break
    except BaseException:
        out['error'] = traceback.format_exc()
    out['rec'] = {'evaluations': rec.evaluations, 'labels': rec.labels, 'nontrivial': rec.nontrivial,
                  'samples': rec.samples, 'checks': rec.checks, 'skipped': rec.skipped, 'unreproduced': rec.unreproduced}
    conn.send(out)
    conn.close()
    os._exit(0)


def abbreviate(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + '...'


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, path)


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    part = next(p for p in check.parts if p.name == d['part'])
    res = run_case(part, d['case'], Recorder())
    if res is None:
        print('replay: property {} holds on this case'.format(check.id))
        return 0
    if res[0] == 'error':
        print(res[1])
        return 2
    print(res[1])
    print('VIOLATION property={} replay={}'.format(check.id, path))
    return 1


def main(check, tier, seed, out_dir=None):
    t0 = time.monotonic()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if check.selftest is not None:
        check.selftest()
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    procs = []
    for w in range(N_WORKERS):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(check, tier, seed, w, stop, b))
        p.start()
        b.close()
        procs.append((p, a))
    outs = []
    hard = t0 + (QUICK_WALL_S if tier == 'quick' else THOROUGH_WALL_S) + CASE_CPU_S * 2 + SHRINK_S
    for p, a in procs:
        try:
            if a.poll(max(0.1, hard - time.monotonic())):
                outs.append(a.recv())
            else:
                outs.append({'hung': True})
        except EOFError:
            outs.append({'error': 'worker died', 'rec': None, 'failure': None, 'truncated': [], 'rounds': 0})
        if p.is_alive():
            p.join(2)
        if p.is_alive():
            p.kill()
    errors = [o['error'] for o in outs if o.get('error')]
    failures = sorted([o['failure'] for o in outs if o.get('failure')], key=lambda f: (f[0], f[1], str(f[3])))
    ev, labels, nontrivial, samples, checks, skipped, unreproduced = 0, {}, set(), [], 0, {}, 0
    for o in outs:
        r = o.get('rec')
        if not r:
            continue
        ev += r['evaluations']
        checks += r['checks']
        unreproduced += r['unreproduced']
        nontrivial |= r['nontrivial']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['skipped'].items():
            skipped[k] = skipped.get(k, 0) + v
        for s in r['samples']:
            if len([x for x in samples if x['part'] == s['part']]) < 2:
                samples.append({'part': s['part'], 'labels': s['labels'], 'case': abbreviate(s['case'])})
    wall = time.monotonic() - t0
    evidence = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(nontrivial), 'rule': check.rule, 'samples': samples,
                     'comparisons': checks, 'cases_by_label': dict(sorted(labels.items())), 'not_claimed': skipped,
                     'failures_not_reproduced': unreproduced, 'workers': N_WORKERS, 'rounds': max([o.get('rounds', 0) for o in outs] + [0]),
                     'cut_short_by_time': sorted({t for o in outs for t in o.get('truncated', [])}),
                     'workers_without_result': sum(1 for o in outs if o.get('hung'))},
        'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if failures else 0}
    write_json(os.path.join(out_dir or os.path.join(VERIF, 'evidence'), check.id + '.json'), evidence)
    print('{} {}: {} cases ({} distinct non-trivial), {} comparisons, {:.1f} s'.format(check.id, tier, ev, len(nontrivial), checks, wall))
    if failures:
        size, part, case, text = failures[0]
        path = os.path.join(VERIF, 'replays', check.id + '.json')
        write_json(path, {'property': check.id, 'part': part, 'case': case, 'message': text, 'seed': seed, 'tier': tier})
        print(text)
        print('replay with: /opt/venv/bin/python bdt/run.py {} --replay {}'.format(check.id, path))
        print('VIOLATION property={} replay={}'.format(check.id, path))
        return 1
    if errors:
        print('HARNESS ERROR\n' + errors[0])
        return 2
    return 0
