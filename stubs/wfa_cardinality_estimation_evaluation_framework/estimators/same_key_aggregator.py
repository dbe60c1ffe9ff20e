"""Stand-in: an exact sketch (remembers its ids); estimates come from HOOK."""
HOOK = [None]


class ExponentialSameKeyAggregator(object):
    def __init__(self, length, decay_rate, random_seed):
        self.length, self.decay_rate, self.random_seed = length, decay_rate, random_seed
        self.ids = []

    def add_ids(self, ids):
        self.ids.extend(ids)

    def add(self, i):
        self.ids.append(i)


class StandardizedHistogramEstimator(object):
    def __init__(self, max_freq=10, reach_noiser_class=None, frequency_noiser_class=None, reach_epsilon=1.0, frequency_epsilon=1.0, reach_delta=1e-5, frequency_delta=1e-5, reach_noiser_kwargs=None, frequency_noiser_kwargs=None):
        self.kw = dict(max_freq=max_freq, reach_noiser_class=reach_noiser_class, frequency_noiser_class=frequency_noiser_class, reach_epsilon=reach_epsilon, frequency_epsilon=frequency_epsilon, reach_delta=reach_delta, frequency_delta=frequency_delta, reach_noiser_kwargs=reach_noiser_kwargs, frequency_noiser_kwargs=frequency_noiser_kwargs)

    @staticmethod
    def merge_two_exact_multisets(a, b):
        out = ExponentialSameKeyAggregator(a.length, a.decay_rate, a.random_seed)
        out.ids = list(a.ids) + list(b.ids)
        return out

    merge_two_sketches = merge_two_exact_multisets

    def estimate_cardinality(self, sketch):
        return HOOK[0](self, sketch)

    def output_privacy_parameters(self):
        k = self.kw
        return [(k["reach_noiser_class"], k["reach_epsilon"], k["reach_delta"]), (k["frequency_noiser_class"], k["frequency_epsilon"], k["frequency_delta"])]
