PROPERTY='P04'
NEEDS='rows that are longer than the first'
BREAKS='ragged data is silently cut to the length of the first row when it is turned into an array'
EDITS=[('dcgpy/common_utils.hpp','[m](auto v) { return v.size() != m; }','[m](auto v) { return v.size() < m; }')]
PYDEMO=r'''
import sys, dcgpy
bad = 0
for v in ([[1.], [2., 3.]], [[1., 2.], [3.]], [[1.], [2.], [3., 4., 5.]]):
    try:
        dcgpy.from_vv(v)
        bad += 1
    except ValueError:
        pass
bad += dcgpy.from_vv([[1., 2.], [3., 4.]]).tolist() != [[1., 2.], [3., 4.]]
sys.exit(1 if bad else 0)
'''
