"""A stand-in for the optuna package (not installed here), with the part of its interface that OptunaOptimizer needs.

It is only put into sys.modules while a model is being fitted.  Anything of the interface it lacks raises Missing, upon which a case is skipped."""
import contextlib
import sys
import types

import numpy as np

NAMES = ('optuna', 'optuna.logging', 'optuna.samplers', 'optuna.study', 'optuna.trial', 'optuna.exceptions')


class Missing(Exception):
    pass


class Strict:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Missing('{}.{}'.format(type(self).__name__, name))


class Sampler(Strict):
    def __init__(self, seed=None, **kw):
        self.seed = seed
        self.rand = np.random.RandomState(seed if seed is not None else np.random.randint(2 ** 31))


class Trial(Strict):
    def __init__(self, study, number):
        self.study, self.number, self.params, self.value = study, number, {}, None

    def suggest_float(self, name, low, high, *, step=None, log=False):
        if name not in self.params:
            # optuna suggests the limits themselves only now and then
            r = self.study.sampler.rand.uniform()
            self.params[name] = low + (high - low) * (0.0 if r < .03 else 1.0 if r > .97 else float(self.study.sampler.rand.uniform()))
        return self.params[name]

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)


class Study(Strict):
    def __init__(self, direction, sampler):
        self.direction, self.sampler, self.trials = direction, sampler, []

    def ask(self, *a, **kw):
        t = Trial(self, len(self.trials))
        self.trials.append(t)
        return t

    def tell(self, trial, value, **kw):
        trial.value = float(value)

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, catch=(), callbacks=None, gc_after_trial=False, show_progress_bar=False):
        if n_trials is None:
            raise Missing('unlimited trials')
        for _ in range(n_trials):
            t = self.ask()
            self.tell(t, func(t))

    @property
    def best_trial(self):
        return min(self.trials, key=lambda t: t.value)

    @property
    def best_params(self):
        return self.best_trial.params

    @property
    def best_value(self):
        return self.best_trial.value


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Missing('{}.{}'.format(self.__name__, name))


@contextlib.contextmanager
def installed(studies):
    """studies: list that the studies created are appended to"""
    def create_study(*, storage=None, sampler=None, pruner=None, study_name=None, direction=None, load_if_exists=False, directions=None):
        s = Study(str(direction or 'minimize').lower(), sampler or Sampler())
        studies.append(s)
        return s

    mods = {n: Module(n) for n in NAMES}
    root = mods['optuna']
    for n in NAMES[1:]:
        setattr(root, n.split('.')[1], mods[n])
    root.create_study = mods['optuna.study'].create_study = create_study
    root.Study = mods['optuna.study'].Study = Study
    root.Trial = mods['optuna.trial'].Trial = Trial
    log = mods['optuna.logging']
    log.set_verbosity = lambda v: None
    log.get_verbosity = lambda: 0
    log.disable_default_handler = log.enable_default_handler = log.disable_propagation = log.enable_propagation = lambda: None
    log.CRITICAL, log.FATAL, log.ERROR, log.WARNING, log.WARN, log.INFO, log.DEBUG = 50, 50, 40, 30, 30, 20, 10
    sam = mods['optuna.samplers']
    sam.TPESampler, sam.RandomSampler, sam.BaseSampler = Sampler, Sampler, Sampler
    old = {n: sys.modules.get(n) for n in NAMES}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
