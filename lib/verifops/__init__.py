"""Operations that the generated catalogues run: they record their parameters."""

calls = []


class Runner(object):
    """A run module in the form of a class."""

    def __init__(self, **members):
        self.__dict__.update(members)

    def run(self):
        calls.append(dict(self.__dict__))
        return len(calls)


class Holder(object):
    """A nested object."""

    def __init__(self, **members):
        self.__dict__.update(members)


def record(**parameters):
    """A run module in the form of a function."""
    calls.append(parameters)
    return parameters


def other(**parameters):
    calls.append(dict(parameters, other=True))


def outer(inputs):
    calls.append(('outer', list(inputs)))
