"""An experimental trial over a small data set, with a scripted modeling strategy."""
import numpy as np
import pandas as pd


def _read_csv(f):
    """pandas' C parser aborts the process when PyPy frees it: read with pandas' Python parser."""

    def read_csv(*a, **kw):
        for k in ("float_precision", "low_memory", "memory_map", "engine"):
            kw.pop(k, None)
        return f(*a, engine="python", **kw)

    read_csv.kept = f
    return read_csv


if not hasattr(pd.read_csv, "kept"):
    pd.read_csv = _read_csv(pd.read_csv)

from symex.api import *
from checks.memfs import MemFS
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.privacy_tracker import NoisingEvent, PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters


class Design(object):
    """A data design held in memory."""

    def __init__(self, sets):
        self.sets = {d.name: d for d in sets}

    @property
    def names(self):
        return sorted(self.sets)

    @property
    def count(self):
        return len(self.sets)

    def by_name(self, name):
        return self.sets[name]


class Strategy(object):
    """What a trial is to run: fit(halo, params, budget) is given by the harness."""

    def __init__(self, fit, name="scripted", single="curve", multi="surface"):
        self.fit_fn, self.strategy, self.single_pub_model, self.multi_pub_model = fit, name, single, multi
        self.strategy_kwargs = self.single_pub_model_kwargs = self.multi_pub_model_kwargs = {}
        self.fits = 0

    def __deepcopy__(self, memo):
        return self

    def instantiate_strategy(self):
        return self

    def fit(self, halo, params, budget):
        self.fits += 1
        return self.fit_fn(halo, params, budget)

    def __str__(self):
        return "%s,%s,%s" % (self.strategy, self.single_pub_model, self.multi_pub_model)


class Params(ExperimentParameters):
    """Experiment parameters whose test points are given by the harness."""

    script = None

    def generate_test_points(self, data_set, rng):
        return type(self).script(data_set, rng)

    def update_from_dataset(self, dataset):
        return self


class Surface(object):
    """A fitted model with the reaches the harness wants; every question is recorded."""

    def __init__(self, answer, data=None):
        self.answer, self.asked, self._data = answer, [], data or [ReachPoint([1], [1], [1.0])]

    def by_spend(self, spends, max_frequency=1):
        self.asked.append((list(spends), max_frequency))
        r = self.answer(list(spends), max_frequency)
        return ReachPoint([1] * len(list(spends)), r, list(spends))


def data_set(sizes=(3,), name="ds"):
    """Publishers sharing user 1; each log has its users twice for every other event, prices 0.5, 1, 1.5 ..."""
    logs = []
    for p, n in enumerate(sizes):
        users = [1] + [10 * (p + 1) + i // 2 for i in range(n - 1)]
        logs.append([(u, 0.5 * (i + 1)) for i, u in enumerate(users)])
    ds = DataSet([PublisherData(list(l), "pub%d" % p) for p, l in enumerate(logs)], name)
    ds.logs_given = logs
    return ds


def true_counts(ds, spends, F):
    """k+ reaches by counting events."""
    seen = {}
    for log, s in zip(ds.logs_given, spends):
        for u, price in log:
            if price <= s:
                seen[u] = seen.get(u, 0) + 1
    return [len([1 for c in seen.values() if c >= k]) for k in range(1, F + 1)]


def cell(df, name):
    return df[name].tolist()[0]


def isnan(v):
    return not is_sym(v) and isinstance(v, float) and v != v
