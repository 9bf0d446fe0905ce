PROPERTY='P05'
NEEDS='a network with more outputs than units in any hidden layer'
BREAKS='the substrate is sized from the hidden layers, so the output layer spills over its column'
EDITS=[('dcgpy/_encode.py','    rows = max(extended_layer_size)','    rows = max(layers_size + [1]) if layers_size else outputs')]
PYDEMO=r'''
import sys, dcgpy
bad = 0
for i, o, l in ((2, 1, [3]), (2, 3, [2]), (3, 4, [2, 2]), (1, 2, [])):
    try:
        ex = dcgpy.encode_ffnn(i, o, l, ["sig"] * (len(l) + 1), 1)
        n = sum(a * b for a, b in zip([i] + l, l + [o]))
        bad += len(ex.get_active_nodes()) != i + sum(l) + o or ex.n_active_weights() != n
    except Exception:
        bad += 1
sys.exit(1 if bad else 0)
'''
