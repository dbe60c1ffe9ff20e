"""Equality of texts that contain the printed form of arbitrary values."""
import re

from symex.api import *

TOK = re.compile("(\u27e8\\d+\u27e9)")


def same_text(ctx, a, b):
    """Condition under which the two texts are the same.

    A printed value is the token of the value printed (after the rounding its
    format asks for); two texts with the same literal parts are the same when
    the values at the same places are.  Texts whose literal parts differ are
    taken to be different.
    """
    if not ctx.sym:
        return a == b
    pa, pb = TOK.split(a), TOK.split(b)
    if len(pa) != len(pb):
        return False
    conds = []
    for i, (x, y) in enumerate(zip(pa, pb)):
        if i % 2:
            conds.append(ctx.untoken(x) == ctx.untoken(y))
        elif x != y:
            return False
    return land(*conds) if conds else True
