"""What every fitted reach curve owes its user."""
from symex.api import *


def well_formed(ctx, m, point, x, F, label, top=None, cpi=None):
    """k+ reaches: as many as asked for, non-negative, non-increasing in k, at most the maximum."""
    ctx.check(point.max_frequency == F, label + ": as many k+ reaches as asked for")
    ctx.check(len(point.impressions) == 1, label + ": one publisher")
    ctx.check_eq(point.impressions[0], x, label + ": reports the impressions asked about")
    for k in range(1, F):
        ctx.check_le(point.reach(k + 1), point.reach(k), label + ": k+ reach does not increase with k")
    ctx.check_le(0, point.reach(F), label + ": reach is not negative")
    if top is not None:
        ctx.check_le(point.reach(1), top, label + ": reach is at most the maximum reach")
    if cpi is not None:
        ctx.check(point.spends is not None and len(point.spends) == 1, label + ": reports the spend")
        ctx.check_eq(point.spends[0], x * cpi, label + ": reports the spend at the training cost per impression")


def increasing(ctx, p, q, F, label):
    for k in range(1, F + 1):
        ctx.check_le(p.reach(k), q.reach(k), label + ": more impressions never reach fewer people")


def refuses(ctx, f, label, exc=Exception):
    try:
        f()
    except exc:
        ctx.check(True, label)
        return
    ctx.fail(label)
