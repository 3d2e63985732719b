"""Checks, parts, violations and recording of what was generated."""
import hashlib
import json


class Violation(Exception):
    """The property under test does not hold for the current case."""


class StopRun(KeyboardInterrupt):
    """Ends a Hypothesis run early (time limit or another worker found a violation)."""


class CaseTimeout(Exception):
    """A single case used an absurd amount of CPU time."""


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt.format(*args) if args else fmt)


class Part:
    """One generator together with the check that decides the property on its cases.

    quick: number of cases (over all workers) in the quick tier.  The thorough tier repeats rounds of the same size with fresh seeds
    and 'deep' generators until its time is up."""

    def __init__(self, name, strategy, run, quick, thorough_weight=1.0):
        self.name, self.strategy, self.run, self.quick, self.thorough_weight = name, strategy, run, quick, thorough_weight


class Check:
    def __init__(self, id, rule, parts, assumptions=(), selftest=None):
        self.id, self.rule, self.parts, self.assumptions, self.selftest = id, rule, parts, list(assumptions), selftest


def case_key(part, case):
    return hashlib.sha1((part + json.dumps(case, sort_keys=True, default=str)).encode()).digest()[:8]


class Recorder:
    """Collects counts, labels and samples of the cases a worker evaluated."""

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.checks = 0
        self.unreproduced = 0
        self.skipped = {}
        self.case_labels = None
        self.is_nontrivial = False

    # --- used by checks -------------------------------------------------
    def label(self, *names):
        for n in names:
            self.case_labels.add(n)

    def nontriv(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def count(self, n=1):
        """Number of individual comparisons made."""
        self.checks += n

    def skip(self, why):
        """Something the property makes no claim about (e.g. an exact tie)."""
        self.skipped[why] = self.skipped.get(why, 0) + 1

    # --- used by the runner ---------------------------------------------
    def start(self):
        self.case_labels = set()
        self.is_nontrivial = False

    def finish(self, part, case):
        self.evaluations += 1
        self.labels[part] = self.labels.get(part, 0) + 1
        for n in self.case_labels:
            n = part + ': ' + n
            self.labels[n] = self.labels.get(n, 0) + 1
        if self.is_nontrivial:
            k = case_key(part, case)
            if k not in self.nontrivial:
                self.nontrivial.add(k)
                mine = [s for s in self.samples if s['part'] == part]
                if len(mine) < 3:
                    self.samples.append({'part': part, 'labels': sorted(self.case_labels), 'case': case})
