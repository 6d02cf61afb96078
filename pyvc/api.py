"""Registration of contract harnesses."""
REGISTRY = []


class Harness(object):
    def __init__(self, f, prop, funcs, budget, runs, sizes, modes, note, conc_budget, z3_timeout, max_paths):
        self.f, self.prop, self.funcs, self.budget, self.runs = f, prop, funcs, budget, runs
        self.sizes, self.modes, self.note, self.conc_budget = sizes, modes, note, conc_budget
        self.z3_timeout = z3_timeout
        self.max_paths = max_paths
        self.name = f.__name__


def harness(prop, funcs=(), budget=150, runs=300, sizes=(0, 1, 2, 3), modes=('unbounded', 'bounded'), note='',
            conc_budget=25, z3_timeout=4000, max_paths=4000, name=None):
    """A contract: the function below states, for the named functions of /repo, what holds after any call."""
    def deco(f):
        f.__name__ = name or f.__name__
        REGISTRY.append(Harness(f, prop, list(funcs), budget, runs, sizes, modes, note, conc_budget, z3_timeout,
                                max_paths))
        return f
    return deco
