PROPERTY='P02'
NEEDS='a kernel made from a lambda or a function local to another one, pickled'
BREAKS='Python callables are serialized with pickle, by reference to their name, instead of by value'
EDITS=[('dcgpy/common_utils.hpp','import("cloudpickle").attr("dumps")','import("pickle").attr("dumps")'),('dcgpy/common_utils.hpp','import("cloudpickle").attr("loads")','import("pickle").attr("loads")')]
PYDEMO=r'''
import sys, dcgpy, pickle
def named(x): return x[0] + 1.
def nameds(x): return x[0] + "+1"
k = dcgpy.kernel_double(named, nameds, "k")
bad = pickle.loads(pickle.dumps(k))([1.]) != 2.
def make(c):
    return dcgpy.kernel_double(lambda x: x[0] * c, lambda x: "k", "k")
try:
    bad += pickle.loads(pickle.dumps(make(3.)))([2.]) != 6.
except Exception:
    bad += 1
sys.exit(1 if bad else 0)
'''
