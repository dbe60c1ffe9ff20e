"""Stand-in for the absent package: yields what HOOK says (set by the harness)."""
ORDER_ORIGINAL = "original"
ORDER_REVERSED = "reversed"
ORDER_RANDOM = "random"
CORRELATED_SETS_ALL = "all"
CORRELATED_SETS_ONE = "one"
HOOK = [None]


class IndependentSetGenerator(object):
    def __init__(self, universe_size, set_sizes, random_state):
        self.set_sizes = set_sizes
        self.sets = HOOK[0]("independent", set_sizes, dict(universe_size=universe_size, random_state=random_state))

    def __iter__(self):
        for s in self.sets:
            yield s


class SequentiallyCorrelatedSetGenerator(object):
    def __init__(self, order, correlated_sets, shared_prop, set_sizes, random_state):
        self.set_sizes = set_sizes
        self.sets = HOOK[0]("sequential", set_sizes, dict(order=order, correlated_sets=correlated_sets, shared_prop=shared_prop, random_state=random_state))

    def __iter__(self):
        for s in self.sets:
            yield s
