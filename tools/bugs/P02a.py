PROPERTY='P02'
NEEDS='a callable with state of its own (an instance) that is changed after the kernel was made, or that changes itself'
BREAKS='a Python kernel shares the callable with the caller instead of keeping a copy'
EDITS=[('dcgpy/pybind11_function.hpp','m_value = dcgpy::deepcopy(o);','m_value = o;')]
PYDEMO=r'''
import sys, dcgpy
class F:
    def __init__(self, k): self.k = k
    def __call__(self, x): return self.k * x[0]
f = F(2.)
def s(x): return "f(" + x[0] + ")"
k = dcgpy.kernel_double(f, s, "f")
a = k([3.])
f.k = 5.
sys.exit(0 if a == 6. and k([3.]) == 6. else 1)
'''
