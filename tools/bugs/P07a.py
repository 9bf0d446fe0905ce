PROPERTY='P07'
NEEDS='an expression whose columns have different arities'
BREAKS='the graph draws for every node as many connections as a node of the first column has'
EDITS=[('dcgpy/_visualize.py','        for j in range(self.get_arity(node_id)):\n','        for j in range(min(self.get_arity()[0], self.get_arity(node_id))):\n')]
PYDEMO=r'''
import sys, types
class Digraph:
    def __init__(self, **k): self.edges = []; self.nodes = []
    def node(self, *a, **k): self.nodes.append((a, k))
    def edge(self, *a, **k): self.edges.append((a, k))
    def subgraph(self, g): pass
sys.modules["graphviz"] = types.SimpleNamespace(Digraph=Digraph)
import dcgpy
ks = dcgpy.kernel_set_double(["sum", "diff"])()
bad = 0
for arity in ([2, 2, 2], [1, 2, 3], [3, 1, 2]):
    ex = dcgpy.expression_double(2, 1, 2, 3, 3, arity, ks, 0, 5)
    g = ex.visualize()
    drawn = [e for e in g.edges if e[1].get("style") != "invis"]
    bad += len(drawn) != 2 * sum(arity) + 1
sys.exit(1 if bad else 0)
'''
