PROPERTY='P05'
NEEDS='a network whose layers share a nonlinearity, followed by a layer with another'
BREAKS='the kernel of each layer is looked up in the list of the layers instead of the set of distinct kernels'
EDITS=[('dcgpy/_encode.py','    kernel_list = kernel_set_double(list(set(kernels)))()','    unique = sorted(set(kernels), key=kernels.index)\n    kernel_list = kernel_set_double(unique)()'),('dcgpy/_encode.py','        kernel_id = list(set(kernels)).index(kernels[c])','        kernel_id = min(kernels.index(kernels[c]), len(unique) - 1)')]
PYDEMO=r'''
import sys, dcgpy
bad = 0
for ks in (["sig", "tanh", "sig"], ["sig", "sig", "tanh", "ReLu"], ["tanh", "tanh", "sig", "tanh"]):
    sizes = [2] * (len(ks) - 1)
    ex = dcgpy.encode_ffnn(2, 1, sizes, ks, 1)
    x, idx, f = ex.get(), ex.get_gene_idx(), ex.get_f()
    for c, k in enumerate(ks):
        bad += str(f[x[idx[2 + c * 2]]]) != k
sys.exit(1 if bad else 0)
'''
