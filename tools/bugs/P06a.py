PROPERTY='P06'
NEEDS='a weighted expression with a different arity per column, simplified with its weights substituted'
BREAKS='the weights substituted for the nodes of later columns are those of other connections'
EDITS=[('dcgpy/_simplify.py','n_previous = sum(a[:j // r]) * r + a[j // r] * (j % r)','n_previous = min(a[j // r] * j, len(wl) - a[j // r])')]
PYDEMO=r'''
import sys, dcgpy, sympy
bad = 0
ks = dcgpy.kernel_set_double(["sum", "mul"])()
for arity in ([2, 2, 2], [3, 2, 1], [1, 2, 3]):
    for seed in range(4):
        ex = dcgpy.expression_weighted_double(2, 1, 2, 3, 3, arity, ks, seed)
        ex.set_weights([0.5 + 0.25 * i for i in range(len(ex.get_weights()))])
        s = ex.simplify(["x", "y"], True)[0]
        v = float(s.subs({k: {"x": 1.5, "y": -0.5}[str(k)] for k in s.free_symbols}))
        bad += abs(v - ex([1.5, -0.5])[0]) > 1e-6 * max(1., abs(v))
sys.exit(1 if bad else 0)
'''
