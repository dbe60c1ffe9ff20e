"""Stand-in for Apache Beam (absent here): a local runner of the few transforms the driver uses.

`SPLITS[0]`, if set, decides how the elements of a CombineGlobally are split
into bundles (a list of lists) and in which order partial results are merged:
Beam promises neither.
"""
SPLITS = [None]


class PTransform(object):
    label = None

    def __rrshift__(self, label):
        self.label = label
        return self

    def expand(self, elements):
        raise NotImplementedError()


class DoFn(object):
    def process(self, element, *args, **kwargs):
        raise NotImplementedError()


class CombineFn(object):
    def create_accumulator(self):
        raise NotImplementedError()


class Create(PTransform):
    def __init__(self, values):
        self.values = values

    def expand(self, elements):
        return list(self.values)


class ParDo(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def expand(self, elements):
        out = []
        for e in elements:
            r = self.fn.process(e, *self.args, **self.kwargs)
            if r is not None:
                out.extend(r)
        return out


class Map(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def expand(self, elements):
        return [self.fn(e, *self.args, **self.kwargs) for e in elements]


class FlatMap(Map):
    def expand(self, elements):
        return [x for e in elements for x in self.fn(e, *self.args, **self.kwargs)]


class CombineGlobally(PTransform):
    def __init__(self, fn):
        self.fn = fn

    def expand(self, elements):
        bundles = SPLITS[0](list(elements)) if SPLITS[0] else [list(elements)]
        accs = []
        for b in bundles:
            acc = self.fn.create_accumulator()
            for e in b:
                acc = self.fn.add_input(acc, e)
            accs.append(acc)
        return [self.fn.extract_output(self.fn.merge_accumulators(accs))]


class PCollection(object):
    def __init__(self, elements):
        self.elements = elements

    def __or__(self, transform):
        return PCollection(transform.expand(self.elements))


class Pipeline(object):
    def __init__(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def __or__(self, transform):
        return PCollection(transform.expand(None))
