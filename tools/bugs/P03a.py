PROPERTY='P03'
NEEDS='the multi-objective evolution strategy built without a seed, ftol and learn_constants given by keyword'
BREAKS='the unseeded constructor of moes4cgp takes learn_constants for ftol and ftol for learn_constants'
EDITS=[('dcgpy/expose_symbolic_regression.cpp','''    moes4cgp_
        .def(py::init<unsigned, unsigned, double, bool>(), py::arg("gen") = 1u, py::arg("max_mut") = 4u,
             py::arg("ftol") = 0., py::arg("learn_constants") = true)''','''    moes4cgp_
        .def(py::init([](unsigned gen, unsigned max_mut, double ftol, bool learn_constants) {
                 return ::new dcgp::moes4cgp(gen, max_mut, learn_constants, ftol);
             }),
             py::arg("gen") = 1u, py::arg("max_mut") = 4u, py::arg("ftol") = 0., py::arg("learn_constants") = true)''')]
PYDEMO=r'''
import sys, dcgpy
bad = 0
for k in ({}, {"seed": 3}):
    for ft, lc in ((0., True), (0., False), (1e-3, True), (1e-3, False)):
        a = dcgpy.moes4cgp(gen=2, max_mut=3, ftol=ft, learn_constants=lc, **k).get_extra_info()
        b = dcgpy.es4cgp(gen=2, max_mut=3, ftol=ft, learn_constants=lc, **k).get_extra_info()
        pick = lambda t: [l.split(":")[1].strip() for l in t.split("\n") if "olerance" in l or "onstants" in l]
        bad += pick(a) != pick(b) or not pick(a)
sys.exit(1 if bad else 0)
'''
