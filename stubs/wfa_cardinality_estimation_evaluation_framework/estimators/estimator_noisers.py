HOOK = [None]


class GeometricEstimateNoiser(object):
    def __init__(self, epsilon, random_state=None):
        self.epsilon, self.random_state = epsilon, random_state

    def __call__(self, x):
        return HOOK[0]("geometric", dict(epsilon=self.epsilon, random_state=self.random_state), x)
