PROPERTY='P07'
NEEDS='a drawing of a dCGPANN with several outputs'
BREAKS='the last output is drawn like an inactive node'
EDITS=[('dcgpy/_visualize.py','an = an + [it for it in range(n+r*c, n+r*c+m)]','an = an + [it for it in range(n+r*c, n+r*c+max(m-1, 1))]')]
PYDEMO=r'''
import sys, types
class Circle:
    def __init__(self, xy, radius, **k): self.xy, self.k = xy, k
class Ax:
    def __init__(self): self.c = []
    def add_artist(self, a): self.c.append(a)
    def plot(self, *a, **k): pass
    def grid(self, *a): pass
    def set_ylim(self, *a): pass
    def set_xlim(self, *a): pass
plt = types.ModuleType("matplotlib.pyplot")
plt.Circle = Circle; plt.axis = lambda *a: None; plt.text = lambda *a: None
m = types.ModuleType("matplotlib"); m.pyplot = plt
sys.modules["matplotlib"] = m; sys.modules["matplotlib.pyplot"] = plt
import dcgpy
ks = dcgpy.kernel_set_double(["sig", "tanh"])()
bad = 0
for outs in (1, 2, 3):
    ex = dcgpy.expression_ann(2, outs, 3, 2, 2, [2, 2], ks, 4)
    ax = Ax()
    ex.visualize(axes=ax)
    last = [c for c in ax.c if c.k.get("fill") is False][-outs:]
    bad += len(last) != outs or any(c.k["alpha"] != 0.8 for c in last)
sys.exit(1 if bad else 0)
'''
