PROPERTY='P01'
NEEDS='an expression pickled after its constants or weights were set, with nothing else compared than the chromosome'
BREAKS='pickling a weighted expression stores only the plain expression inside it and restores the weights to one'
EDITS=[('dcgpy/expose_expressions.cpp','''        .def(py::pickle(&udx_pickle_getstate<dcgp::expression_weighted<T>>,
                        &udx_pickle_setstate<dcgp::expression_weighted<T>>));''','''        .def(py::pickle(&udx_pickle_getstate<dcgp::expression_weighted<T>>, [](py::tuple state) {
            auto retval = udx_pickle_setstate<dcgp::expression_weighted<T>>(state);
            // leave the restored expression ready to be trained from scratch
            retval.set_weights(std::vector<T>(retval.get_weights().size(), T(1.)));
            return retval;
        }));''')]
PYDEMO=r'''
import sys, dcgpy, pickle
ks = dcgpy.kernel_set_double(["sum", "diff"])()
ex = dcgpy.expression_weighted_double(inputs=2, outputs=1, rows=2, cols=3, levels_back=3, arity=2, kernels=ks, seed=3)
ex.set_weights([1.5 + i for i in range(12)])
e2 = pickle.loads(pickle.dumps(ex))
sys.exit(0 if e2.get() == ex.get() and e2.get_weights() == ex.get_weights() and e2([1., 2.]) == ex([1., 2.]) else 1)
'''
