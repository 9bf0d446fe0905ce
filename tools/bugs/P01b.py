PROPERTY='P01'
NEEDS='a weighted expression with a different arity per column'
BREAKS='get_weight finds the weight of a node of a later column as if every column had the arity of the first'
EDITS=[('dcgpy/expose_expressions.cpp','.def("get_weight", &expression_weighted<T>::get_weight, expression_weighted_get_weight_doc().c_str(),\n','''.def("get_weight", [](const expression_weighted<T> &instance, unsigned node_id, unsigned input_id) {
                 if (node_id < instance.get_n() || node_id >= instance.get_n() + instance.get_r() * instance.get_c()
                     || input_id >= instance.get_arity(node_id)) {
                     throw std::invalid_argument("Requested weight does not exist");
                 }
                 return instance.get_weights().at((node_id - instance.get_n()) * instance.get_arity()[0] + input_id);
             }, expression_weighted_get_weight_doc().c_str(),
''')]
PYDEMO=r'''
import sys, dcgpy
ks = dcgpy.kernel_set_double(["sum", "diff"])()
bad = 0
for arity in ([2, 2, 2], [2, 1, 3], [1, 3, 2]):
    ex = dcgpy.expression_weighted_double(inputs=2, outputs=1, rows=2, cols=3, levels_back=3, arity=arity, kernels=ks, seed=3)
    v = 1.
    for node in range(2, 8):
        for j in range(arity[(node - 2) // 2]):
            ex.set_weight(node, j, v)
            v += 1.
    v = 1.
    for node in range(2, 8):
        for j in range(arity[(node - 2) // 2]):
            try:
                bad += ex.get_weight(node, j) != v
            except Exception:
                bad += 1
            v += 1.
sys.exit(1 if bad else 0)
'''
