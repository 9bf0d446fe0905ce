"""Stand-in for pygmo: pagmo as linked into the module under test (shim_py/stand_ins.cpp)."""
import pickle as _p
from pyaudi import _load
_c = _load("_pygmo")
problem, algorithm, bfe_ = _c.problem, _c.algorithm, _c.bfe
def _reduce(cls):
    cls.__reduce__ = lambda self: (cls, (self.extract(object),))
_reduce(problem); _reduce(algorithm)
class population(_c.population):
    def __init__(self, prob, size=0, seed=0):
        _c.population.__init__(self, prob, size, seed)
class mp_bfe:
    resize_pool = staticmethod(lambda n: None)
class mp_island:
    resize_pool = staticmethod(lambda n: None)
def bfe(x):
    return bfe_()
class archipelago:
    def __init__(self, prob, algo, n, pop_size):
        self.a, self.p = algo, [population(prob, pop_size, i) for i in range(n)]
    def evolve(self):
        self.p = [self.a.evolve(p) for p in self.p]
    def wait_check(self):
        pass
