"""Stand-in for pyaudi: the generalized dual numbers linked into the module under test (shim_py/stand_ins.cpp)."""
import importlib.machinery as _m, importlib.util as _u, os as _o, sys as _s


def _load(name):
    p = _o.path.join(list(_u.find_spec("dcgpy").submodule_search_locations)[0], "core.so")
    l = _m.ExtensionFileLoader(name, p)
    m = _u.module_from_spec(_u.spec_from_loader(name, l))
    l.exec_module(m)
    _s.modules[name] = m
    return m


core = _load("_pyaudi")
gdual_double, gdual_vdouble = core.gdual_double, core.gdual_vdouble
