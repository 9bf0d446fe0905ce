PROPERTY='P02'
NEEDS='a Python kernel that raises an exception of its own while an expression is evaluated'
BREAKS='an exception raised by a Python kernel reaches the caller as a RuntimeError, its type lost'
EDITS=[('dcgpy/pybind11_function.hpp','return  py::cast<R>(m_value(std::forward<Args>(args)...));','''try {
            return py::cast<R>(m_value(std::forward<Args>(args)...));
        } catch (const py::error_already_set &e) {
            throw std::runtime_error(std::string("the python callable failed: ") + e.what());
        }''')]
PYDEMO=r'''
import sys, dcgpy
def f(x):
    if x[0] < 0.:
        raise KeyError("negative")
    return x[0]
k = dcgpy.kernel_double(f, lambda x: x[0], "f")
try:
    bad = k([1.]) != 1.
    k([-1.])
    bad = 1
except KeyError:
    pass
except Exception:
    bad = 1
sys.exit(1 if bad else 0)
'''
