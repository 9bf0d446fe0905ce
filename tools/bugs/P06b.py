PROPERTY='P06'
NEEDS='several values of constants passed to simplify'
BREAKS='the constants are substituted in reversed order'
EDITS=[('dcgpy/_simplify.py','pe[i] = pe[i].subs(ns[in_sym[n - len(erc) + j]],erc[j])','pe[i] = pe[i].subs(ns[in_sym[n - 1 - j]],erc[j])')]
PYDEMO=r'''
import sys, dcgpy
ks = dcgpy.kernel_set_double(["sum", "diff"])()
ex = dcgpy.expression_double(3, 1, 1, 1, 1, 2, ks, 0, 3)
bad = 0
for g, want in (([1, 1, 2, 3], "-1"), ([1, 0, 1, 3], "x - 1"), ([1, 0, 2, 3], "x - 2")):
    ex.set(g)
    bad += str(ex.simplify(["x", "c", "d"], False, [1, 2])[0]).replace(".0", "") != want
sys.exit(1 if bad else 0)
'''
