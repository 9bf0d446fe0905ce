PROPERTY='P03'
NEEDS='predict() called with a two dimensional array that holds exactly one point'
BREAKS='predict returns the prediction of a single 2D point as a 1D array'
EDITS=[('dcgpy/expose_symbolic_regression.cpp','return vvector_to_ndarr(instance.predict(ndarr_to_vvector(points), x));','''auto pred = instance.predict(ndarr_to_vvector(points), x);
                    return pred.size() == 1u ? vector_to_ndarr(pred[0]) : vvector_to_ndarr(pred);''')]
PYDEMO=r'''
import sys, dcgpy, numpy as np
X = np.array([[1., 2.], [3., 4.], [5., 7.]])
Y = np.array([[1.], [2.], [3.]])
p = dcgpy.symbolic_regression(X, Y, 1, 4, 5, 2, dcgpy.kernel_set_double(["sum", "mul"])())
x = p.get_cgp().get()
bad = 0
for n in (1, 2, 3):
    bad += p.predict(X[:n], x).shape != (n, 1)
bad += p.predict(X[0], x).shape != (1,)
sys.exit(1 if bad else 0)
'''
