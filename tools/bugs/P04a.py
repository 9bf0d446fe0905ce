PROPERTY='P04'
NEEDS='a transposed, Fortran-ordered or sliced numpy array handed over as data'
BREAKS='2D arrays are read as if they were stored row after row'
EDITS=[('dcgpy/common_utils.hpp','                = r(i, j);','                = a.data()[i * m + j];')]
PYDEMO=r'''
import sys, dcgpy, numpy as np
A = np.array([[1., 2., 3.], [4., 5., 6.]])
bad = 0
for B in (A, A.T, np.asfortranarray(A), A[:, ::2], A[::-1]):
    bad += [list(r) for r in dcgpy.to_vv(B)] != B.tolist()
sys.exit(1 if bad else 0)
'''
