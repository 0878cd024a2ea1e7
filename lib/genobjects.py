"""Classes the object stores rebuild by name."""


class Thing(object):
    def __init__(self, **members):
        self.__dict__.update(members)


class Other(object):
    def __init__(self, alpha=None, beta=None, gamma=None, delta=None, zeta=None):
        self.alpha, self.beta, self.gamma, self.delta, self.zeta = alpha, beta, gamma, delta, zeta


class Runner(object):
    """A run module in the form of a class."""
    calls = []

    def __init__(self, **members):
        self.__dict__.update(members)

    def run(self):
        Runner.calls.append(dict(self.__dict__))
        return len(Runner.calls)


calls = []


def record(**parameters):
    """A run module in the form of a function."""
    calls.append(parameters)
    return parameters.get('result', len(calls))


def outer(inputs):
    calls.append(('outer', list(inputs)))
