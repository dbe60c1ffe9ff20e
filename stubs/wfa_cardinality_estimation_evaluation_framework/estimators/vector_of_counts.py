HOOK = [None]


class VectorOfCounts(object):
    def __init__(self, num_buckets, random_seed, *a, **kw):
        self.num_buckets, self.random_seed = num_buckets, random_seed
        self.ids = []

    def add_ids(self, ids):
        self.ids.extend(ids)
