"""C19: the privacy tracker reports what the most exposed user has been charged."""
from symex.api import *
from wfa_planning_evaluation_framework.simulator.privacy_tracker import NoisingEvent, PrivacyBudget, PrivacyTracker, SamplingBucketIndices


def covers(start, rate, b):
    """b in [start, start + rate) modulo 1."""
    return lor(land(start <= b, b < start + rate), land(b < start, b + 1 < start + rate))


def events(ctx, cfg):
    out = []
    for i in range(cfg["n"]):
        eps = ctx.real("eps%d" % i, 0, 100) if i in cfg.get("sym_eps", range(cfg["n"])) else 0.5 * (i + 1)
        dlt = ctx.real("delta%d" % i, 0, 1) if i in cfg.get("sym_delta", range(cfg["n"])) else 0.125 * (i + 1)
        if i in cfg.get("whole", ()):
            out.append((eps, dlt, None, None))
            continue
        if i in cfg.get("sym_iv", range(cfg["n"])):
            st, rt = ctx.real("start%d" % i, 0, 1, hi_strict=True), ctx.real("rate%d" % i, 0, 1)
        else:
            st, rt = cfg["fixed"](i) if "fixed" in cfg else ((0.25 * i) % 1, 0.5)
        out.append((eps, dlt, st, rt))
    return out


def tracked(evs):
    t = PrivacyTracker()
    for i, (e, d, st, rt) in enumerate(evs):
        if st is None:
            t.append(NoisingEvent(PrivacyBudget(e, d), "mechanism%d" % i, {}))
        else:
            t.append(NoisingEvent(PrivacyBudget(e, d), "mechanism%d" % i, {}, SamplingBucketIndices(st, rt)))
    return t


def charged(evs, b, which):
    return ssum([ite(True if st is None else covers(st, rt, b), ev[which], 0) for ev in evs for st, rt in [ev[2:]]])


def user(ctx, cfg):
    """One user anywhere in the unit interval."""
    evs = events(ctx, cfg)
    b = ctx.real("b", 0, 1, hi_strict=True)
    t = tracked(evs)
    c = t.privacy_consumption_for_sampling_bucket(b)
    ctx.check_eq(c.epsilon, charged(evs, b, 0), "privacy: a user is charged the epsilon of exactly the events that sampled it")
    ctx.check_eq(c.delta, charged(evs, b, 1), "privacy: a user is charged the delta of exactly the events that sampled it")
    ctx.check(t.mechanisms == ["mechanism%d" % i for i in range(cfg["n"])], "privacy: every event's mechanism is listed in order")


def most(ctx, cfg):
    """The total is what the most exposed user has been charged."""
    evs = events(ctx, cfg)
    t = tracked(evs)
    total = t.privacy_consumption
    if cfg.get("user", True):
        b = ctx.real("b", 0, 1, hi_strict=True)
        ctx.check_le(charged(evs, b, 0), total.epsilon, "privacy: no user has been charged more epsilon than the total reported")
        ctx.check_le(charged(evs, b, 1), total.delta, "privacy: no user has been charged more delta than the total reported")
    starts = [0] + [st for _, _, st, _ in evs if st is not None]
    ctx.check_eq(total.epsilon, smax(*[charged(evs, s, 0) for s in starts]), "privacy: some user has been charged the epsilon reported")
    ctx.check_eq(total.delta, smax(*[charged(evs, s, 1) for s in starts]), "privacy: some user has been charged the delta reported")


def growing(ctx, cfg):
    """Appending an event never lowers the total; trackers are independent."""
    evs = events(ctx, cfg)
    t, other = PrivacyTracker(), PrivacyTracker()
    last = t.privacy_consumption
    ctx.check_eq(last.epsilon, 0, "privacy: nothing is consumed before the first event")
    ctx.check_eq(last.delta, 0, "privacy: nothing is consumed before the first event")
    for i, (e, d, st, rt) in enumerate(evs):
        t.append(NoisingEvent(PrivacyBudget(e, d), "m", {}) if st is None else NoisingEvent(PrivacyBudget(e, d), "m", {}, SamplingBucketIndices(st, rt)))
        now = t.privacy_consumption
        ctx.check_le(last.epsilon, now.epsilon, "privacy: consumption never goes down")
        ctx.check_le(last.delta, now.delta, "privacy: consumption never goes down")
        again = t.privacy_consumption
        ctx.check_eq(now.epsilon, again.epsilon, "privacy: asking does not change the answer")
        last = now
    z = other.privacy_consumption
    ctx.check_eq(z.epsilon + z.delta, 0, "privacy: trackers do not share events")
    ctx.check(len(other.mechanisms) == 0, "privacy: trackers do not share events")


OUTSIDE = "more than 4 events with arbitrary sampling intervals (12 events with three arbitrary, 40 with one)"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("user-1", user, {"n": 1}, "1 event"),
        Scenario("user-3", user, {"n": 3}, "3 events"),
        Scenario("user-12", user, {"n": 12, "sym_iv": (0, 5, 11), "sym_eps": (0, 11), "sym_delta": (5,)}, "12 events, 3 arbitrary intervals"),
        Scenario("user-whole", user, {"n": 3, "whole": (0, 2)}, "2 events over everyone, 1 sampled"),
        Scenario("most-1", most, {"n": 1}, "1 event"),
        Scenario("most-2", most, {"n": 2}, "2 events"),
        Scenario("most-3", most, {"n": 3, "sym_eps": (), "sym_delta": ()}, "3 events, arbitrary intervals"),
        Scenario("most-whole", most, {"n": 3, "whole": (0, 1)}, "2 events over everyone, 1 sampled"),
        Scenario("most-all", most, {"n": 6, "whole": range(6)}, "6 events over everyone"),
        Scenario("user-20", user, {"n": 20, "sym_iv": (17,), "sym_eps": (17,), "sym_delta": (19,), "fixed": lambda i: ((23 * i % 64) / 64.0, (7 * i % 32) / 64.0)}, "20 events, 1 arbitrary interval"),
        Scenario("most-6", most, {"n": 6, "sym_iv": (4,), "sym_eps": (4,), "sym_delta": (), "fixed": lambda i: ((23 * i % 64) / 64.0, (7 * i % 32) / 64.0)}, "6 events, 1 arbitrary interval"),
        Scenario("most-40", most, {"n": 40, "sym_iv": (), "sym_eps": (3, 31), "sym_delta": (7,), "fixed": lambda i: ((23 * i % 64) / 64.0, (7 * i % 32) / 64.0)}, "40 events, arbitrary budgets"),
        Scenario("growing-2", growing, {"n": 2}, "2 events"),
        Scenario("growing-4", growing, {"n": 4, "whole": (0, 1, 3)}, "4 events"),
    ]
    if T:
        out.append(Scenario("user-40", user, {"n": 40, "sym_iv": (17,), "sym_eps": (17,), "sym_delta": (39,), "fixed": lambda i: ((23 * i % 64) / 64.0, (7 * i % 32) / 64.0)}, "40 events, 1 arbitrary interval"))
        out.append(Scenario("most-12", most, {"n": 12, "sym_iv": (7,), "sym_eps": (7,), "sym_delta": (), "fixed": lambda i: ((23 * i % 64) / 64.0, (7 * i % 32) / 64.0)}, "12 events, 1 arbitrary interval"))
        out.append(Scenario("most-4", most, {"n": 4, "sym_eps": (), "sym_delta": ()}, "4 events, arbitrary intervals"))
        out.append(Scenario("most-3s", most, {"n": 3}, "3 events, everything arbitrary"))
    return out
