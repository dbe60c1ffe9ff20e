"""Stand-in: HOOK[0](kind, params, value) gives the noised value."""
HOOK = [None]


class LaplaceMechanism(object):
    def __init__(self, f, delta_f, epsilon, random_state=None):
        self.f, self.delta_f, self.epsilon, self.random_state = f, delta_f, epsilon, random_state

    def __call__(self, x):
        y = self.f(x)
        return HOOK[0]("laplace", dict(delta_f=self.delta_f, epsilon=self.epsilon, random_state=self.random_state), y)
