"""A Halo simulator over small logs, with stand-ins for sketching, noise and randomness."""
import numpy as np

from symex.api import *
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

BIG = 10 ** 6


class Generator(object):
    """Stands for the numpy random generator of the simulation; every use is recorded."""

    def __init__(self, ctx, sample=None, normal=None):
        self.ctx, self.sample, self.mean, self.uses = ctx, sample, normal, []

    def integers(self, low=0, high=None, *a, **kw):
        self.uses.append("integers")
        return 1000 + len(self.uses)

    def multinomial(self, n, pvals, *a, **kw):
        """n items over the registers: as many singly-hit registers as the harness asks for."""
        self.uses.append("multinomial")
        n = int(n)
        k = n if self.sample is None else self.sample(n)
        out = [1] * k + [0] * (len(pvals) - k)
        if k < n:
            out[-1] = n - k if n - k > 1 else 2
        self.registers = len(pvals)
        return np.array(out)

    def multivariate_hypergeometric(self, colors, nsample, *a, **kw):
        """Any split of the sample over the regions, none beyond its population."""
        self.uses.append("hypergeometric")
        colors = list(colors)
        self.population, self.sample_size = colors, nsample
        if self.sample is None:
            self.drawn = colors
        else:
            self.drawn = [self.ctx.int("drawn%d" % i, 0, BIG) for i in range(len(colors))]
            for d, c in zip(self.drawn, colors):
                self.ctx.assume(d <= c)
            self.ctx.assume(ssum(self.drawn) == nsample)
        return np.array(self.drawn, dtype=object if self.ctx.sym else None)

    def normal(self, loc=0.0, scale=1.0, *a, **kw):
        self.uses.append("normal")
        self.loc, self.scale = loc, scale
        return loc if self.mean is None else self.mean(loc)


def logs(ctx, cfg):
    """cfg['ids']: per publisher the users in order; '?' is an arbitrary user."""
    out = []
    for p, ids in enumerate(cfg["ids"]):
        evs = []
        for i, u in enumerate(ids):
            if u == "?":
                u = ctx.int("u%d_%d" % (p, i), 0, 9)
            else:
                u = const(ctx, u) if any(["?" in x for x in cfg["ids"]]) else u
            evs.append((u, 0.5 * (i + 1)))
        out.append(evs)
    return out


def build(ctx, cfg, gen=None, fractions=None):
    ctx.hash_mode = "const"
    ls = logs(ctx, cfg)
    ds = DataSet([PublisherData(l, "pub%d" % p) for p, l in enumerate(ls)], "ds")
    fr = fractions or [1.0] * len(ls)
    params = SystemParameters(fr, LiquidLegionsParameters(cfg.get("decay", 12), cfg.get("size", 32), cfg.get("seed", 5)), gen or Generator(ctx))
    t = PrivacyTracker()
    return ls, ds, params, t, HaloSimulator(ds, params, t)


def bought(l, spend):
    return [u for u, s in l if s <= spend]


def spent(ctx, tracker):
    c = tracker.privacy_consumption
    return c.epsilon, c.delta
